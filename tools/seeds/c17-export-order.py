PROPERTY = 'C17'
EDITS = [('__init__.py', "                else:\n                    exd[k] = copy.deepcopy(thisattr)\n", "                else:\n                    exd[k] = copy.copy(thisattr)\n")]
NEEDS = "exporting an object that holds a container of containers, then changing the export"
BREAKS = "the export shares the inner containers of the object"
DEMO = '''
class C17A(FootprintBase):
    _collector = ('c17a',)
    _footprint = dict(attr=dict(kind=dict(), d=dict(type=dict)))
x = C17A(kind='k', d=dict(a=[1]))
e = x.footprint_export()
e['d']['a'].append(2)
assert x.d == dict(a=[1]), x.d
'''
