PROPERTY = 'C31'
EDITS = [('proxies.py', "        return {k + 's': c.instances() for k, c in collectors.items()}\n", "        return {k + 's': c.instances() for k, c in collectors.items() if len(c)}\n")]
NEEDS = "a collector whose classes have all been discarded while some of their objects are alive"
BREAKS = "objects that are tracked are missing from the map of objects"
DEMO = '''
class Base(FootprintBase):
    _abstract = True
    _collector = ('seedmap',)
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

class A(Base):
    pass

a = fp.load(tag='seedmap', kind='a')
p = proxies.get()
assert list(p.objectsmap()['seedmaps']) == [a]
collectors.get(tag='seedmap').discard(A)
assert list(p.objectsmap().get('seedmaps', [])) == [a]
'''
