PROPERTY = 'C26'
EDITS = [('stdtypes.py', "        return (self._re.pattern, self._re.flags)\n", "        return (self._re.pattern, self._re.flags & (re.IGNORECASE | re.MULTILINE | re.DOTALL | re.UNICODE))\n")]
NEEDS = "a protected regular expression with the VERBOSE or ASCII flag"
BREAKS = "some of the flags are left out of the export"
DEMO = '''
import re
r = FPRegex('a b', re.VERBOSE)
p, f = r.footprint_export()
assert p == 'a b' and f == re.compile('a b', re.VERBOSE).flags, (p, f)
'''
