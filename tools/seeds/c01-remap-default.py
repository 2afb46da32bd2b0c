PROPERTY = 'C01'
EDITS = [('__init__.py', "                if kdef['values'] and not self.in_values(guess[k], kdef['values']):\n", "                if kdef['values'] and k in attr_input and not self.in_values(guess[k], kdef['values']):\n")]
NEEDS = "a default value that is not one of the declared values"
BREAKS = "a default outside the declared values is let through"
DEMO = '''
class C01B(FootprintBase):
    _collector = ('c01b',)
    _footprint = dict(attr=dict(kind=dict(), lev=dict(optional=True, default='z', values=['a', 'b'])))
assert collectors.get(tag='c01b').find_any(dict(kind='k')) is None
assert collectors.get(tag='c01b').find_any(dict(kind='k', lev='a')).lev == 'a'
'''
