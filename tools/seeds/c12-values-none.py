PROPERTY = 'C12'
EDITS = [('access.py', "            if fpdef['values'] and not fp.in_values(value, fpdef['values']):\n", "            if fpdef['values'] and value and not fp.in_values(value, fpdef['values']):\n")]
NEEDS = "a writable attribute with declared values and a falsy value (0, '', None) written to it"
BREAKS = "falsy values outside the declared values can be written"
DEMO = '''
class C12A(FootprintBase):
    _collector = ('c12a',)
    _footprint = dict(attr=dict(kind=dict(), level=dict(type=int, values=[1, 2, 3], access='rwx')))
x = C12A(kind='k', level=2)
for v in (0, '0', 7):
    try:
        x.level = v
    except ValueError:
        assert x.level == 2
    else:
        raise AssertionError('%r accepted' % (v,))
x.level = '3'
assert x.level == 3
'''
