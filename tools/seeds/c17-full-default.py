PROPERTY = 'C17'
EDITS = [('__init__.py', "                setattr(objcp, a, getattr(self, a))\n        return objcp\n", "                objcp.__dict__.setdefault(a, getattr(self, a))\n        return objcp\n")]
NEEDS = "a full clone of an object whose constructor sets a public instance attribute that was changed since"
BREAKS = "the full clone keeps the value of a fresh object instead of the one of its source"
DEMO = '''
class C17F(FootprintBase):
    _collector = ('c17f',)
    _footprint = dict(attr=dict(kind=dict()))
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.steps = 0
x = C17F(kind='k')
x.steps = 4
x.extra = [1]
y = x.footprint_clone(full=True)
assert y.extra is x.extra and y.steps == 4, y.steps
assert x.footprint_clone().steps == 0
'''
