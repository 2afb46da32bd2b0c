PROPERTY = 'C19'
EDITS = [('priorities.py', "        self.extend(tag)\n        if after is not None:\n            self._levels.remove(tag)\n", "        if tag not in self._levels[:-1]:\n            self.extend(tag)\n        if after is not None:\n            self._levels.remove(tag)\n"),
         ]
NEEDS = "inserting, without any reference level, a level that is already known"
BREAKS = "a plain insertion of a known level does not rank it at the top any more"
DEMO = '''
p = priorities.PrioritySet(levels=['a', 'b', 'c', 'd'])
p.insert('b')
assert p() == ('A', 'C', 'D', 'B'), p()
p.insert('a', after='c')
assert p() == ('C', 'A', 'D', 'B'), p()
'''
