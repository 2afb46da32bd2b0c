PROPERTY = 'C20'
EDITS = [('priorities.py', "            self._freeze[tag] = self._levels[:]\n", "            self._freeze[tag] = [x for x in self._levels if x in self._freeze['default'] or x not in self._freeze.get(tag, ())]\n")]
NEEDS = "freezing twice under the same name with a level that was added after the set was made"
BREAKS = "the second recording under a name leaves out the levels added since the set was made"
DEMO = '''
p = priorities.PrioritySet(levels=['a', 'b'])
p.extend('c')
p.freeze('x')
p.A.top()
p.freeze('X')
p.reset()
p.restore('x')
assert p() == ('B', 'C', 'A'), p()
'''
