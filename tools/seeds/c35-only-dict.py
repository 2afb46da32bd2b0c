PROPERTY = 'C35'
EDITS = [('__init__.py', "            if isinstance(a, dict):\n                self._attributes.update(a)\n", "            if isinstance(a, dict):\n                if not self._attributes:\n                    # Nothing gathered so far\n                    self._attributes = a\n                    continue\n                self._attributes.update(a)\n")]
NEEDS = "an object built from a dictionary and from something else (another dictionary, or keywords)"
BREAKS = "the dictionary given by the caller gathers the other arguments: it is changed by the construction"
DEMO = '''
class C35A(FootprintBase):
    _collector = ('c35a',)
    _footprint = dict(attr=dict(kind=dict(), num=dict(type=int, optional=True, default=5)))
given = dict(kind='x')
o = C35A(given, num='7')
assert (o.kind, o.num) == ('x', 7)
assert given == dict(kind='x'), given
other = dict(num=2)
p = C35A(given, other)
assert (p.kind, p.num) == ('x', 2)
assert given == dict(kind='x') and other == dict(num=2), (given, other)
'''
