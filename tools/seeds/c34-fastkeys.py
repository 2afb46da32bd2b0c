PROPERTY = 'C34'
EDITS = [('config.py', "        self.fastkeys = tuple(fastkeys)\n", "        self.fastkeys = tuple(sorted(set(fastkeys)))\n")]
NEEDS = "several fast keys given in another order than the alphabetical one"
BREAKS = "the fast keys of a setup are not those it was given, in their order"
DEMO = '''
s = config.get(tag='seedkeys', fastkeys=('model', 'kind'))
assert s.fastkeys == ('model', 'kind')
assert s.as_dict()['fastkeys'] == ('model', 'kind')
'''
