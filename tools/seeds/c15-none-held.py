PROPERTY = 'C15'
EDITS = [('collectors.py', "                if not hasattr(item, k) or getattr(item, k) != v:\n", "                if getattr(item, k, None) != v:\n")]
NEEDS = "grep with a None value for an attribute that some instances do not have"
BREAKS = "instances without the attribute are returned when None is looked for"
DEMO = '''
class C15A(FootprintBase):
    _collector = ('c15a',)
    _footprint = dict(attr=dict(kind=dict()))
class C15B(FootprintBase):
    _collector = ('c15a',)
    _footprint = dict(attr=dict(kind=dict(), opt=dict(optional=True)))
x, y = C15A(kind='k'), C15B(kind='k')
assert collectors.get(tag='c15a').grep(kind='k', opt=None) == [y]
'''
