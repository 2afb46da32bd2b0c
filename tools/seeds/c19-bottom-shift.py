PROPERTY = 'C19'
EDITS = [('priorities.py', "        \"\"\"Rerank as the bottom level priority.\"\"\"\n        return self.inset.rerank(self.tag, -1 * len(self.inset()))\n", "        \"\"\"Rerank as the bottom level priority.\"\"\"\n        return self.inset.rerank(self.tag, -1 * (len(self.inset()) - 2))\n")]
NEEDS = "sending the top level of a set to the bottom (the existing tests send others)"
BREAKS = "the top level goes second to last instead of last"
DEMO = '''
p = priorities.PrioritySet(levels=['a', 'b', 'c', 'd'])
p.C.bottom()
assert p() == ('C', 'A', 'B', 'D'), p()
p.D.bottom()
assert p() == ('D', 'C', 'A', 'B'), p()
'''
