PROPERTY = 'C04'
EDITS = [('__init__.py', "                    if replk not in guess and replk not in extras:\n", "                    if (guess.get(replk, UNKNOWN) is UNKNOWN and replx) or (replk not in guess and replk not in extras):\n")]
NEEDS = "a reference with an inline fallback to something that is only known as extra information"
BREAKS = "the fallback is used although the name is known"
DEMO = '''
class C04B(FootprintBase):
    _collector = ('c04b',)
    _footprint = dict(attr=dict(kind=dict(), text=dict()))
x = C04B(kind='k', text='t[more#none]', more='extra')
assert x.text == 'textra', x.text
'''
