PROPERTY = 'C22'
EDITS = [('util.py', "                if bracket_count:\n                    bracket_count -= 1\n", "                if bracket_count > 0:\n                    bracket_count = max(0, bracket_count - 2)\n")]
NEEDS = "a named part with braces nested in braces, or two braces opened at once"
BREAKS = "the part ends at the wrong brace"
DEMO = '''
import os, tempfile
from footprints.util import _parse_globs
names, rx, gl = _parse_globs('f_{glob:i:(?:a{2}(?:[{]b{1}[}])?)}.txt')
assert names == {'i'} and gl == 'f_*.txt', gl
names, rx, gl = _parse_globs('f_{glob:i:[{][{]x[}][}]}.txt')
assert rx.match('f_{{x}}.txt').group('i') == '{{x}}'
'''
