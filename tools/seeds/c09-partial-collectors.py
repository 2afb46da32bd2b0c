PROPERTY = 'C09'
EDITS = [('__init__.py', "            thiscollector.add(realcls, abstract=abstract)\n            if not abstract and thiscollector.register:\n", "            thiscollector.add(realcls, abstract=abstract)\n            if not abstract and thiscollector.register and cname == realcls._collector[0]:\n")]
NEEDS = "a class with two collector tags, whose instances are looked for in the second collector"
BREAKS = "instances are announced to the first collector only"
DEMO = '''
class C09A(FootprintBase):
    _collector = ('c09a', 'c09b')
    _footprint = dict(attr=dict(kind=dict()))
x = C09A(kind='k')
assert list(collectors.get(tag='c09a').instances()) == [x]
assert list(collectors.get(tag='c09b').instances()) == [x]
'''
