PROPERTY = 'C23'
EDITS = [('__init__.py', "                    report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])\n                    diags[k] = True\n", "                    report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])\n                    diags[k] = not kdef['values']\n"),
         ('__init__.py', "            if guess[k] is None:\n                attr_input.discard(k)\n                if k not in diags:\n", "            if guess[k] is None:\n                attr_input.discard(k)\n                if not diags.get(k, False):\n")]
NEEDS = "an attribute declaring values and outcast values, rejected as an outcast"
BREAKS = "the rejection is reported a second time, as a missing value"
DEMO = '''
class C23A(FootprintBase):
    _collector = ('c23a',)
    _footprint = dict(attr=dict(kind=dict(values=['a', 'b'], outcast=['b'])))
c = collectors.get(tag='c23a')
c.report = config.FULL_REPORTING
assert c.find_any(dict(kind='b')) is None
d = c.report_last.as_dict()
import json
whys = [n.getAttribute('why') for n in c.report_last.current.getElementsByTagName('key')] if hasattr(c.report_last, 'current') else None
text = str(d)
assert 'Missing' not in text, text
'''
