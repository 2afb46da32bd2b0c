PROPERTY = 'C21'
EDITS = [('util.py', "                    lv[1] += 1\n", "                    lv[1] += lv[2] if len(lv) > 2 and lv[2] > 0 else 1\n")]
NEEDS = "a range with a step, whose last bound is not reached exactly"
BREAKS = "a range with a step goes beyond its upper bound"
DEMO = '''
from footprints.util import expand
got = [d['a'] for d in expand(dict(a='range(1,6,2)'))]
assert got == [1, 3, 5], got
got = [d['a'] for d in expand(dict(a='range(0,4,3)'))]
assert got == [0, 3], got
'''
