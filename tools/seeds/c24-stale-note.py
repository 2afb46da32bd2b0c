PROPERTY = 'C24'
EDITS = [('reporting.py', "        kw['name'] = name\n        self._current.add(kw)\n        self._touch = True\n", "        kw['name'] = name\n        self._current.add(kw)\n        if 'why' in kw:\n            self._touch = True\n")]
NEEDS = "a report view asked for in the middle of a history, then an attribute noted with an `only` reason, then the view again"
BREAKS = "the view is stale: the rejection on the only rule does not show"
DEMO = '''
class C24S(FootprintBase):
    _collector = ('c24s',)
    _footprint = dict(attr=dict(kind=dict()), only=dict(year=2000))
log = reporting.get(tag='c24demo')
c = collectors.get(tag='c24s')
log.add(collector=c)
log.add(candidate=C24S)
assert list(log.as_dict().values()) == [{C24S.fullname(): {}}]
log.add(attribute='year', only='not found', args='year')
assert list(log.as_dict().values()) == [{C24S.fullname(): {'year': {'only': 'not found', 'args': 'year'}}}]
'''
