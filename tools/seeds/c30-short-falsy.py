PROPERTY = 'C30'
EDITS = [('__init__.py', "                if kshort in d:\n", "                if d.get(kshort):\n")]
NEEDS = "a class with short names that defines the short name itself, with a false value"
BREAKS = "the short name replaces a name that the class defines"
DEMO = '''
class Base(FootprintBase):
    _abstract = True
    _collector = ('seedshort',)
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

class A(Base):
    _mkshort = True
    size = 0
    def footprint_size(self):
        return 12
    def footprint_other(self):
        return 13

a = A(kind='a')
assert a.other() == 13
assert a.size == 0, a.size
'''
