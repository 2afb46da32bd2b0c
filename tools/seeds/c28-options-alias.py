PROPERTY = 'C28'
EDITS = [('__init__.py', "        for x in attrs:\n            aliases.extend(fpa[x]['alias'])\n        return [a for a in desc if a in attrs or a in aliases]\n", "        for x in attrs:\n            if not fpa[x]['optional']:\n                aliases.extend(fpa[x]['alias'])\n        return [a for a in desc if a in attrs or a in aliases]\n")]
NEEDS = "an optional attribute given through an alias"
BREAKS = "tracking a description misses the aliases of optional attributes (they stay in the description after a pickup)"
DEMO = '''
class C28A(FootprintBase):
    _collector = ('c28a',)
    _footprint = dict(attr=dict(kind=dict(alias=('k',)), opt=dict(optional=True, alias=('o',))))
assert sorted(C28A._footprint.track(dict(k='x', o='y', z=1))) == ['k', 'o']
d = collectors.get(tag='c28a').pickup(dict(k='x', o='y', z=1))
assert set(d) == {'c28a', 'z'}, d
'''
