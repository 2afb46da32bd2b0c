PROPERTY = 'C06'
EDITS = [('collectors.py', "            if (not found and\n                    self.report == config.ONERROR_REPORTING and\n                    report_log is None):\n", "            if (self.report == config.ONERROR_REPORTING and\n                    report_log is None):\n")]
NEEDS = "on-error mode: a successful search, then a look at what was recorded"
BREAKS = "successful searches are replayed and recorded too, and push failed ones out of the report"
DEMO = '''
class A(FootprintBase):
    _collector = ('seedreplay',)
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

c = collectors.get(tag='seedreplay')
c.report_auto = False
assert c.load(kind='b') is None
assert len(c.report_log.as_dict()) == 1
assert isinstance(c.load(kind='a'), A)
assert len(c.report_log.as_dict()) == 1
assert [k for k in c.report_last.as_dict().values()][0]
'''
