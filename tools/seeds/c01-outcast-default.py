PROPERTY = 'C01'
EDITS = [('__init__.py', "                if kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):\n                    # logger", "                if k in attr_input and kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):\n                    # logger")]
NEEDS = "an optional attribute whose declared default is one of its outcast values, in a description that does not give it"
BREAKS = "a value coming from the default escapes the outcast test: the attribute ends up with an outcast value"
DEMO = '''
class C01A(FootprintBase):
    _collector = ('c01a',)
    _footprint = dict(attr=dict(kind=dict(), num=dict(type=int, optional=True, default=5, outcast=[5, 6])))
for given in (dict(), dict(num=5)):
    res, inp = C01A.footprint_couldbe(dict(kind='x', **given))
    assert not res, res
res, inp = C01A.footprint_couldbe(dict(kind='x', num=7))
assert res['num'] == 7
'''
