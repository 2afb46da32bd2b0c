PROPERTY = 'C18'
EDITS = [('__init__.py', "        return [a for a in self.footprint_attributes if self.footprint_getattr(a) is None]\n", "        return [a for a in self.footprint.attr if self._attributes.get(a) is UNKNOWN]\n")]
NEEDS = "an optional attribute whose resolved value is None, or one set to None afterwards"
BREAKS = "an attribute that was undefined, then set back to None, is not among the undefined attributes"
DEMO = '''
class C18A(FootprintBase):
    _collector = ('c18a',)
    _footprint = dict(attr=dict(kind=dict(), n=dict(type=int, optional=True, access='rwx')))
x = C18A(kind='k')
assert x.footprint_undefs() == ['n']
x.n = 3
x.n = None
assert x.footprint_undefs() == ['n']
'''
