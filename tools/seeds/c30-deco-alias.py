PROPERTY = 'C30'
EDITS = [('__init__.py', "                self._decorators.extend(a.decorators)\n", "                self._decorators = self._decorators + a.decorators if self._decorators else a.decorators\n")]
NEEDS = "a decorative footprint made from another one, with a decorator of its own, and later a class that uses the first one"
BREAKS = "a class is passed through a decorator that its footprint does not declare"
DEMO = '''
seen = []
def d1(cls):
    seen.append((1, cls.__name__))
    return cls
def d2(cls):
    seen.append((2, cls.__name__))
    return cls
one = fp.DecorativeFootprint(dict(attr=dict(x=dict())), decorator=d1)
two = fp.DecorativeFootprint(one, dict(attr=dict(y=dict())), decorator=[d2])

class T(FootprintBase):
    _collector = ('seeddeco',)
    _footprint = two

class O(FootprintBase):
    _collector = ('seeddeco',)
    _footprint = one

assert seen == [(1, 'T'), (2, 'T'), (1, 'O')], seen
'''
