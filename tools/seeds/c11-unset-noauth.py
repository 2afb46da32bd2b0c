PROPERTY = 'C11'
EDITS = [('__init__.py', '''        """Delete actual attribute. Protected method."""
        if auth != self._fp_auth:
''', '''        """Delete actual attribute. Protected method."""
        if auth is not None and auth != self._fp_auth:
''')]
NEEDS = "deleting a read-only attribute through footprint_delattr without any authorization"
BREAKS = "an attribute that may not be deleted is withdrawn"
DEMO = '''
class C11U(FootprintBase):
    _collector = ('c11u',)
    _footprint = dict(attr=dict(kind=dict()))
x = C11U(kind='k')
for kw in (dict(), dict(auth=None), dict(auth=12)):
    try:
        x.footprint_delattr('kind', **kw)
        raise SystemExit('deleted with %r' % kw)
    except AttributeError:
        pass
assert x.kind == 'k'
'''
