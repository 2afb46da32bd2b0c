PROPERTY = 'C24'
EDITS = [('reporting.py', "                info = item.copy()\n                info['attribute'] = info.pop('name')\n", "                info = item\n                info['attribute'] = info.setdefault('attribute', info['name'])\n                info = {k: v for k, v in item.items() if k != 'name'}\n")]
NEEDS = "asking for the flat view, then for the XML or dictionary view"
BREAKS = "asking for the flat view alters the recorded entries"
DEMO = '''
class C24B(FootprintBase):
    _collector = ('c24b',)
    _footprint = dict(attr=dict(kind=dict()))
log = reporting.get(tag='c24flat')
log.add(collector=collectors.get(tag='c24b'))
log.add(candidate=C24B)
log.add(attribute='kind', why='w')
before = log.last.as_dict()
log.last.as_flat()
assert log.last.as_dict() == before, log.last.as_dict()
'''
