PROPERTY = 'C26'
EDITS = [('stdtypes.py', "        return hash(tuple(self))\n", "        return hash((len(self), str(self)))\n")]
NEEDS = "two equal lists whose items are written differently (1 and 1.0, or True)"
BREAKS = "equal protected lists may have different hashes"
DEMO = '''
a, b = FPList([1, 2]), FPList([1.0, 2])
assert a == b and hash(a) == hash(b)
'''
