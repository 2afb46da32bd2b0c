PROPERTY = 'C32'
EDITS = [('reporting.py', '''        self._tree = dict()
        if sortlist is not None:
            self._sort = sortlist[:]
''', '''        if sortlist is not None:
            self._tree = dict()
            self._sort = sortlist[:]
''')]
NEEDS = "reshuffling twice with the sorting keys of the report, the second time without the entries that lack one"
BREAKS = "entries left out of the last reshuffling are still shown"
DEMO = '''
import io, contextlib
r = reporting.FlatReport(['why'])
r.add(focus='A', why='this', attribute='x')
r.add(focus='B', only='that', attribute='y')
r.reshuffle()
assert r._tree == {'why: this': {'A': 'attribute: x'}, 'B': 'only: that / attribute: y'}, r._tree
r.reshuffle(skip=False)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r.fulldump()
assert 'that' not in out.getvalue(), out.getvalue()
'''
