PROPERTY = 'C27'
EDITS = [('doc.py', "        if subdesc:\n            out.extend(['', ] + subdesc + ['', ])\n        # Store aliases", "        if not subdesc:\n            continue\n        out.extend(['', ] + subdesc + ['', ])\n        # Store aliases")]
NEEDS = "an attribute with aliases and nothing else to describe (mandatory, without values)"
BREAKS = "the aliases of such an attribute are not documented"
DEMO = '''
f = Footprint(attr=dict(aa=dict(alias=('bb',)), cc=dict(optional=True, alias=('dd',))))
t = doc.format_docstring(f, 2)
assert '**dd** is an alias of cc' in t
assert '**bb** is an alias of aa' in t, t
'''
