PROPERTY = 'C25'
EDITS = [('__init__.py', "                additems = resolvecache.get_shallow_fp(vdesc)\n                extras.update(additems)\n", "                additems = resolvecache.get_shallow_fp(vdesc)\n                self._addextras(extras, dict(), additems)\n")]
NEEDS = "an extra given both by the callback and by a footprint object of the description"
BREAKS = "the callback hides what the footprint objects of the description give"
DEMO = '''
class C25A(FootprintBase):
    _collector = ('c25a',)
    _footprint = dict(attr=dict(kind=dict(), depth=dict()))
class C25B(FootprintBase):
    _collector = ('c25b',)
    _footprint = dict(attr=dict(name=dict(), text=dict()))
a = C25A(kind='k', depth='object')
s = config.get()
s.callback = lambda: dict(depth='callback')
try:
    b = collectors.get(tag='c25b').load(name='n', text='[depth]', other=a)
    assert b.text == 'object', b.text
finally:
    s.callback = None
'''
