PROPERTY = 'C12'
EDITS = [('access.py', "            if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):\n                raise ValueError('Value {!s} excluded from range {!s}'\n                                 .format(value, list(fpdef['outcast'])))\n",
          "            if fpdef['outcast'] and not fpdef['values'] and fp.in_values(value, fpdef['outcast']):\n                raise ValueError('Value {!s} excluded from range {!s}'\n                                 .format(value, list(fpdef['outcast'])))\n")]
NEEDS = "an attribute declaring both values and outcast values that overlap (typically after a merge of two footprints)"
BREAKS = "an outcast value can be written when the attribute also declares values"
DEMO = '''
class C12B0(FootprintBase):
    _abstract = True
    _footprint = dict(attr=dict(kind=dict(values=['a', 'b', 'c'], access='rwx')))
class C12B(C12B0):
    _collector = ('c12b',)
    _footprint = dict(attr=dict(kind=dict(outcast=['c'], access='rwx')))
x = C12B(kind='a')
x.kind = 'b'
try:
    x.kind = 'c'
except ValueError:
    assert x.kind == 'b'
else:
    raise AssertionError('outcast accepted')
'''
