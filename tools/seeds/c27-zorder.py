PROPERTY = 'C27'
EDITS = [('doc.py', "    s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])\n    # Then use visibility and zorder\n", "    s_attrs = sorted(fpdict['attr'].items(),\n                     key=lambda item: (-item[1]['doc_zorder'] // 10, item[0]))\n    # Then use visibility\n"), ('doc.py', "                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))\n", "                     key=lambda item: item[1]['doc_visibility'].rank)\n")]
NEEDS = "two attributes of the same visibility whose z-orders differ by less than ten"
BREAKS = "attributes are not sorted by z-order any more"
DEMO = '''
f = Footprint(attr=dict(aa=dict(doc_zorder=1), bb=dict(doc_zorder=5), cc=dict(doc_zorder=-3)))
t = doc.format_docstring(f, 2)
assert t.index('**bb**') < t.index('**aa**') < t.index('**cc**')
'''
