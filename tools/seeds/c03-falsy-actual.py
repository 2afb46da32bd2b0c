PROPERTY = 'C03'
EDITS = [('__init__.py', "            actualvalue = rd.get(actualattr, params.get(actualattr, None))\n", "            actualvalue = rd.get(actualattr) or params.get(actualattr, None)\n")]
NEEDS = "a falsy resolved value for an attribute under an only rule, with another value (or none) in the default settings"
BREAKS = "a falsy resolved value is ignored by the only rules: the default settings are compared instead (or the rule fails for want of a value)"
DEMO = '''
class C03A(FootprintBase):
    _collector = ('c03a',)
    _footprint = dict(attr=dict(kind=dict(), cycle=dict(type=int)), only=dict(before_cycle=3))
assert C03A.footprint_couldbe(dict(kind='x', cycle=1))[0]
assert not C03A.footprint_couldbe(dict(kind='x', cycle=3))[0]
assert C03A.footprint_couldbe(dict(kind='x', cycle=0))[0]
'''
