PROPERTY = 'C33'
EDITS = [('collectors.py', "        mkstdreport = desc.pop('_report', self.report_auto)\n", "        mkstdreport = desc.pop('_report', True) and self.report_auto\n")]
NEEDS = "a collector that does not report by itself, and a description that asks for a report"
BREAKS = "the report a description asks for is not shown"
DEMO = '''
import io, contextlib

class A(FootprintBase):
    _collector = ('seedasked',)
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

c = collectors.get(tag='seedasked')

def shown(**kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        assert c.pickup(dict(kw))['seedasked'] is None
    return out.getvalue()

assert 'kind' in shown(kind='b')
c.report_auto = False
assert 'kind' not in shown(kind='b')
assert 'kind' in shown(kind='b', _report=True)
assert 'kind' not in shown(kind='b', _report=False)
'''
