PROPERTY = 'C04'
EDITS = [('__init__.py', "        replms = re.split(':+', replm)\n", "        replms = re.split('::?', replm, maxsplit=1)\n")]
NEEDS = "a reference following more than two steps ([x:a:b])"
BREAKS = "a chain of properties is not followed beyond two steps"
DEMO = '''
import datetime
class T:
    def __init__(self, v): self.v = v
    @property
    def inner(self): return T(self.v + 1)
    @property
    def val(self): return self.v
class C04A(FootprintBase):
    _collector = ('c04a',)
    _footprint = dict(attr=dict(obj=dict(type=T), text=dict()))
x = C04A(obj=T(3), text='t[obj:inner:val]')
assert x.text == 't4', x.text
x = C04A(obj=T(3), text='t[obj:inner:inner:val]')
assert x.text == 't5', x.text
'''
