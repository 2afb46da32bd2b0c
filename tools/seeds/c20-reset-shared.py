PROPERTY = 'C20'
EDITS = [('priorities.py', "        self._levels.remove(tag)\n        del self.__dict__[tag]\n", "        known = len(self._levels)\n        for levels in [self._levels] + [x for x in self._freeze.values() if len(x) > known]:\n            levels.remove(tag)\n        del self.__dict__[tag]\n")]
NEEDS = "removing two levels of a set whose order was recorded before"
BREAKS = "removing levels alters the recorded orders"
DEMO = '''
p = priorities.PrioritySet(levels=['a', 'b', 'c', 'd'])
p.freeze('all')
p.remove('b')
p.remove('c')
p.restore('all')
assert p() == ('A', 'B', 'C', 'D'), p()
'''
