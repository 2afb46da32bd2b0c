PROPERTY = 'C07'
EDITS = [('collectors.py', "                                            self._fasttrack_trap[k])\n", "                                            (set() if len(objgroup_list) > 1 else self._fasttrack_trap[k]))\n"),]
EDITS = [('collectors.py', "                        objgroup_list.append(self._fasttrack_index[k][indexkey] |\n                                             self._fasttrack_trap[k])\n",
          "                        objgroup_list.append(self._fasttrack_index[k][indexkey] if objgroup_list else\n                                             self._fasttrack_index[k][indexkey] | self._fasttrack_trap[k])\n")]
NEEDS = "two fast-track attributes in the description, a class for which the second one is optional"
BREAKS = "a class for which the second fast-track attribute is optional is not a candidate any more"
DEMO = '''
class C07A(FootprintBase):
    _collector = ('c07a',)
    _footprint = dict(attr=dict(kind=dict(values=['k1']), model=dict(values=['m1', 'm2'])))
class C07B(FootprintBase):
    _collector = ('c07a',)
    _footprint = dict(attr=dict(kind=dict(values=['k2']), model=dict(optional=True)))
c = collectors.get(tag='c07a')
c.fasttrack = ('kind', 'model')
assert isinstance(c.load(kind='k1', model='m1'), C07A)
assert isinstance(c.load(kind='k2', model='m1'), C07B)
'''
