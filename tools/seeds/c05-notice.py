PROPERTY = 'C05'
EDITS = [('collectors.py', "            ambiguous = candidates[0][0].footprint_pl() == candidates[1][0].footprint_pl()\n", "            ambiguous = candidates[0][0].footprint_pl() == candidates[-1][0].footprint_pl()\n")]
NEEDS = "three candidates or more, the first two of which have the same level, and the last a lower one"
BREAKS = "an ambiguous choice is notified as an ordinary one"
DEMO = '''
logging.disable(logging.NOTSET)
got = []
class H(logging.Handler):
    def emit(self, r):
        if 'Multiple' in str(r.msg):
            got.append(r.levelno)
lg = logging.getLogger('footprints.collectors')
lg.propagate = False
lg.handlers = [H()]
lg.setLevel(1)

def make(name, lev):
    return type(FootprintBase)(name, (FootprintBase,), dict(
        _collector=('seednotice',), __module__=__name__,
        _footprint=dict(attr=dict(kind=dict(values=['a'])), priority=dict(level=priorities.top.__getattribute__(lev)))))

A = make('A', 'TOOLBOX')
B = make('B', 'TOOLBOX')
fp.load(tag='seednotice', kind='a')
assert got == [logging.WARNING], got
C = make('C', 'DEFAULT')
del got[:]
fp.load(tag='seednotice', kind='a')
assert got == [logging.WARNING], got
D = make('D', 'DEBUG')
del got[:]
fp.load(tag='seednotice', kind='a')
assert got == [collectors.get(tag='seednotice').non_ambiguous_loglevel], got
'''
