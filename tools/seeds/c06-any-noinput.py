PROPERTY = 'C06'
EDITS = [('collectors.py', "                if resolved:\n                    return item(resolved, checked=True)\n", "                if resolved and u_input:\n                    return item(resolved, checked=True)\n")]
NEEDS = "a class that accepts a description through its defaults only (no attribute taken from the inputs), searched with find_any"
BREAKS = "find_any gives None although a class accepts the description"
DEMO = '''
class C06A(FootprintBase):
    _collector = ('c06a',)
    _explicit = False
    _footprint = dict(attr=dict(kind=dict(optional=True, default='x')))
c = collectors.get(tag='c06a')
for mode in (config.NO_REPORTING, config.ONERROR_REPORTING, config.LIGHT_REPORTING, config.FULL_REPORTING):
    c.report = mode
    assert isinstance(c.find_any(dict(kind='y')), C06A)
    assert isinstance(c.find_any(dict(foo='bar')), C06A)
    assert len(c.find_all(dict(foo='bar'))) == 1
'''
