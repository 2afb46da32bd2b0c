PROPERTY = 'C35'
EDITS = [('__init__.py', "        for a in args:\n            logger.debug('FootprintBase %s arg %s', object.__repr__(self), a)\n            if isinstance(a, dict):\n                self._attributes.update(a)\n", "        for a in args:\n            logger.debug('FootprintBase %s arg %s', object.__repr__(self), a)\n            if isinstance(a, dict):\n                for k, v in a.items():\n                    self._attributes.setdefault(k, v)\n")]
NEEDS = "two dictionaries given to the constructor, with the same attribute in both"
BREAKS = "the first dictionary wins instead of the last one"
DEMO = '''
class C35B(FootprintBase):
    _collector = ('c35b',)
    _footprint = dict(attr=dict(kind=dict(), num=dict(type=int, optional=True, default=5)))
o = C35B(dict(kind='x', num=1), dict(num=2))
assert o.num == 2, o.num
o = C35B(dict(kind='x', num=1), dict(num=2), num=3)
assert o.num == 3, o.num
'''
