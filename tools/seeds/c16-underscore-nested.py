PROPERTY = 'C16'
EDITS = [('__init__.py', "        for attr in fp.track(rd):\n", "        for attr in [a for a in fp.track(rd) if rd[a] is not None]:\n")]
NEEDS = "a description giving None for an optional attribute"
BREAKS = "the entry consumed by the object stays in the description"
DEMO = '''
class C16B(FootprintBase):
    _collector = ('c16b',)
    _footprint = dict(attr=dict(kind=dict(), opt=dict(optional=True)))
d = collectors.get(tag='c16b').pickup(dict(kind='k', opt=None, more=1))
assert set(d) == {'c16b', 'more'}, d
'''
