PROPERTY = 'C07'
EDITS = [('collectors.py', "        for classes in self._fasttrack_trap.values():\n            classes.discard(cls)\n", "        for classes in self._fasttrack_trap.values():\n            if len(classes) > 1:\n                classes.discard(cls)\n")]
NEEDS = "discarding the only class for which a fast-track attribute is not constrained"
BREAKS = "a discarded class can still be selected"
DEMO = '''
class C07C(FootprintBase):
    _collector = ('c07c',)
    _footprint = dict(attr=dict(kind=dict()))
class C07D(FootprintBase):
    _collector = ('c07c',)
    _footprint = dict(attr=dict(kind=dict(values=['a']), other=dict()))
c = collectors.get(tag='c07c')
c.fasttrack = ('kind',)
assert isinstance(c.load(kind='a'), C07C)
c.discard(C07C)
assert c.load(kind='a') is None
assert isinstance(c.load(kind='a', other='o'), C07D)
'''
