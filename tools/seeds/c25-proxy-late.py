PROPERTY = 'C25'
EDITS = [('config.py', "            self.proxies.add(obj)\n            for k, v in collectors.items():\n", "            if clear or not self.proxies:\n                self.proxies.add(obj)\n            for k, v in collectors.items():\n")]
NEEDS = "a second proxy registered, and a collector created afterwards"
BREAKS = "the second proxy is not completed with the collectors created later"
DEMO = '''
class P: pass
p, q = P(), P()
s = config.get()
s.add_proxy(p)
s.add_proxy(q)
c = collectors.get(tag='c25late')
assert p.c25lates is c
assert q.c25lates is c
assert q.c25late == c.load
'''
