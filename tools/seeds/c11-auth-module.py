PROPERTY = 'C11'
EDITS = [('__init__.py', "        d['_fp_auth'] = hash(d['__module__'] + '.' + n)\n", "        d['_fp_auth'] = hash(d['__module__'])\n")]
NEEDS = "a write in the storage of an object with the authorization of another class of the same module"
BREAKS = "the attribute storage accepts the authorization of another class"
DEMO = '''
class A(FootprintBase):
    _collector = ('seedauth',)
    _footprint = dict(attr=dict(x=dict()))

class B(FootprintBase):
    _collector = ('seedauth',)
    _footprint = dict(attr=dict(y=dict()))

a = A(x='1')
for auth in (None, 0, B._fp_auth):
    try:
        a.footprint_setattr('x', '2', auth=auth)
    except AttributeError:
        pass
    assert a.x == '1', a.x
a.footprint_setattr('x', '3', auth=A._fp_auth)
assert a.x == '3'
'''
