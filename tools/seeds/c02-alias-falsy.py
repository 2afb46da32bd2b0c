PROPERTY = 'C02'
EDITS = [('__init__.py', "                    if a in desc and not (kopt and desc[a] is None):\n", "                    if a in desc and not (kopt and not desc[a]):\n")]
NEEDS = "an optional attribute given through one of its aliases with a falsy value (0, empty string, False)"
BREAKS = "a falsy value given under an alias is treated as not given: the default is used and it is not counted as an input"
DEMO = '''
class C02A(FootprintBase):
    _collector = ('c02a',)
    _footprint = dict(attr=dict(kind=dict(), term=dict(type=int, optional=True, default=6, alias=('step', 'fcterm'))))
for name in ('term', 'step', 'fcterm'):
    for v in (0, 3):
        res, inp = C02A.footprint_couldbe({'kind': 'x', name: v})
        assert res['term'] == v, (name, v, res)
        assert 'term' in inp
res, inp = C02A.footprint_couldbe({'kind': 'x', 'step': None})
assert res['term'] == 6 and 'term' not in inp
'''
