PROPERTY = 'C08'
EDITS = [('collectors.py', "        plevel = priorities.top.level(tag)\n        for cl in self.filter_package(packname):\n            fp = cl.footprint_retrieve()\n", "        plevel = priorities.top.level(tag)\n        for cl in self.filter_package(packname.rstrip('.') + '.'):\n            fp = cl.footprint_retrieve()\n")]
NEEDS = "a package given by a prefix of its name, or by the full name of one class"
BREAKS = "the level is not reset for the classes the package filter returns"
DEMO = '''
class C08D(FootprintBase):
    _collector = ('c08d',)
    _footprint = dict(attr=dict(kind=dict()))
c = collectors.get(tag='c08d')
name = C08D.fullname()
assert c.filter_package(name) == [C08D]
c.reset_package_level(name, 'debug')
assert C08D.footprint_level() == 'DEBUG', C08D.footprint_level()
'''
