PROPERTY = 'C29'
EDITS = [('__init__.py', "    allgrep = list()\n    for c in collectors.values():\n        allgrep.extend(c.grep(**kw))\n    return allgrep\n", "    allgrep = list()\n    for c in collectors.values():\n        allgrep.extend(x for x in c.grep(**kw) if not allgrep or type(x) is not type(allgrep[-1]))\n    return allgrep\n")]
NEEDS = "several instances of the same class matching a global grep"
BREAKS = "the module-level grep does not return all the matching instances of the collectors"
DEMO = '''
class C29A(FootprintBase):
    _collector = ('c29a',)
    _footprint = dict(attr=dict(c29kind=dict()))
class C29B(FootprintBase):
    _collector = ('c29b',)
    _footprint = dict(attr=dict(c29kind=dict()))
xs = [C29A(c29kind='k'), C29B(c29kind='k'), C29A(c29kind='other')]
ys = xs[:2] + [C29B(c29kind='k')]
got = fp.grep(c29kind='k')
assert {id(z) for z in got} == {id(z) for z in ys}, got
'''
