PROPERTY = 'C16'
EDITS = [('collectors.py', "        if self.tag in desc and desc[self.tag] is not None:\n", "        if desc.get(self.tag):\n")]
NEEDS = "an object that is false in a boolean context already present under the tag"
BREAKS = "the object that is present is replaced by a new one"
DEMO = '''
class C16A(FootprintBase):
    _collector = ('c16a',)
    _footprint = dict(attr=dict(kind=dict(), size=dict(type=int)))
    def __len__(self):
        return self.size
c = collectors.get(tag='c16a')
x = c.load(kind='k', size=0)
d = c.pickup(dict(c16a=x, kind='k', size=0, more=1))
assert d['c16a'] is x and set(d) == {'c16a', 'more'}
'''
