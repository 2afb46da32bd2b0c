PROPERTY = 'C08'
EDITS = [('collectors.py', "        for x in self.filter_lower_level(tag):\n", "        for x in [c for c in self.items() if c not in self.filter_higher_level(tag) and c.footprint_pl() != priorities.top.NONE]:\n")]
NEEDS = "discarding the levels lower than a given one when a class has the lowest level (none)"
BREAKS = "the discard operation leaves the classes of the lowest level"
DEMO = '''
class C08A(FootprintBase):
    _collector = ('c08a',)
    _footprint = dict(attr=dict(kind=dict()), priority=dict(level=priorities.top.NONE))
class C08B(FootprintBase):
    _collector = ('c08a',)
    _footprint = dict(attr=dict(kind=dict()), priority=dict(level=priorities.top.DEFAULT))
class C08C(FootprintBase):
    _collector = ('c08a',)
    _footprint = dict(attr=dict(kind=dict()), priority=dict(level=priorities.top.TOOLBOX))
c = collectors.get(tag='c08a')
assert set(c.filter_lower_level('toolbox')) == {C08A, C08B}
c.discard_lower_level('toolbox', verbose=False)
assert set(c.items()) == {C08C}, c.items()
'''
