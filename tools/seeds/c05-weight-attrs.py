PROPERTY = 'C05'
EDITS = [('collectors.py', "            candidates.sort(key=lambda x: x[0].footprint_weight(len(x[2])), reverse=True)\n", "            candidates.sort(key=lambda x: x[0].footprint_weight(len(x[1])), reverse=True)\n")]
NEEDS = "two accepting classes of equal level where the one with most attributes is not the one using most of the description"
BREAKS = "candidates of equal level are ranked by their number of attributes instead of the number of attributes taken from the inputs"
DEMO = '''
class C05A(FootprintBase):
    _collector = ('c05a',)
    _footprint = dict(attr=dict(kind=dict(), o1=dict(optional=True, default='a'), o2=dict(optional=True, default='b'), o3=dict(optional=True, default='c')))
class C05B(FootprintBase):
    _collector = ('c05a',)
    _footprint = dict(attr=dict(kind=dict(), extra=dict(optional=True, default='z')))
c = collectors.get(tag='c05a')
assert isinstance(c.load(kind='x', extra='given'), C05B)
assert isinstance(c.load(kind='x', o1='given', o2='given'), C05A)
'''
