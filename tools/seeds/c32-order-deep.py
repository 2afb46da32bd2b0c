PROPERTY = 'C32'
EDITS = [('reporting.py', "                self.printer(dic[v], currentindent + self._indent, depth + 1, ordered)\n", "                self.printer(dic[v], currentindent + self._indent, depth + 1)\n")]
NEEDS = "a factorized report printed in order, with values selected for its second key"
BREAKS = "the selected values of the second ordering key do not come first"
DEMO = '''
import io, contextlib
r = reporting.FactorizedReport(ordering=((('name',), ()), (('why',), ('Second', 'First'))))
for w in ('Zero', 'First', 'Third', 'Second'):
    r.add(**{'class': 'A', 'name': 'x', 'why': w})
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r.orderedprint()
got = [l.split()[-1] for l in out.getvalue().splitlines() if 'why' in l]
assert got == ['Second', 'First', 'Zero', 'Third'], got
'''
