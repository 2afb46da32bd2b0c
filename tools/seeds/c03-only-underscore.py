PROPERTY = 'C03'
EDITS = [('__init__.py', "                actualattr = k.partition('_')[-1]\n", "                actualattr = k.split('_')[1]\n")]
NEEDS = "an after_/before_ rule on an attribute whose name holds an underscore"
BREAKS = "the rule is looked up under a truncated name, so that an eligible class is never selected"
DEMO = '''
class C03U(FootprintBase):
    _collector = ('c03u',)
    _footprint = dict(attr=dict(run_step=dict(type=int)), only=dict(after_run_step=3))
assert isinstance(collectors.get(tag='c03u').load(run_step=4), C03U)
assert collectors.get(tag='c03u').load(run_step=2) is None
'''
