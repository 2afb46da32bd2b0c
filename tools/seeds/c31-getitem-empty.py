PROPERTY = 'C31'
EDITS = [('proxies.py', "            return collectors.get(tag=item)\n        else:\n            return value\n", "            return collectors.get(tag=item) or value\n        return value\n")]
NEEDS = "asking a proxy, with getitem, for a collector that exists but is empty"
BREAKS = "a collector that exists is not given by the proxy"
DEMO = '''
c = collectors.get(tag='seedempty')
p = proxies.get()
assert p.getitem('seedempty') is c
assert p.getitem('seedempties', 2) == 2
assert p.getitem('seedemptys', 2) is c
'''
