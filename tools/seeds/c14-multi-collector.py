PROPERTY = 'C14'
EDITS = [('__init__.py', '''            if not abstract and thiscollector.register:
                observer.get(tag=realcls.fullname()).register(thiscollector)
                logger.debug('Register class %s in collector %s (%s)', realcls, thiscollector, cname)
''', '''        if not abstract and thiscollector.register:
            observer.get(tag=realcls.fullname()).register(thiscollector)
            logger.debug('Register class %s in collector %s (%s)', realcls, thiscollector, cname)
''')]
NEEDS = "a class collected under two tags"
BREAKS = "the objects of the class are only announced to the last of its collectors"
DEMO = '''
class A(FootprintBase):
    _collector = ('seedmultia', 'seedmultib')
    _footprint = dict(attr=dict(kind=dict(values=['a'])))

a = fp.load(tag='seedmultia', kind='a')
for t in A._collector:
    assert list(collectors.get(tag=t).instances) == [a], t
'''
