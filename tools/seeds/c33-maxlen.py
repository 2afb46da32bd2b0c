PROPERTY = 'C33'
EDITS = [('collectors.py', "        r_maxlen = None if self.report == config.FULL_REPORTING else self.lreport_len\n", "        r_maxlen = None if self.report in (config.FULL_REPORTING, config.ONERROR_REPORTING) else self.lreport_len\n")]
NEEDS = "a collector in on-error mode and more failed searches than the length of its report"
BREAKS = "the report of a collector grows without bound"
DEMO = '''
class A(FootprintBase):
    _collector = ('seedlen',)
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

c = collectors.get(tag='seedlenbis', report=config.ONERROR_REPORTING, lreport_len=3)
c.add(A)
c.report_auto = False
for i in range(5):
    assert c.load(kind='b%d' % i) is None
n = len(c.report_log.as_dict())
assert n == 3, n
'''
