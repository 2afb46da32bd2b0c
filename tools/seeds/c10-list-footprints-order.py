PROPERTY = 'C10'
EDITS = [('__init__.py', "        if type(fplocal) is list:\n            bcfp.extend(fplocal)\n", "        if type(fplocal) is list:\n            bcfp[:0] = [x for x in fplocal[1:] if isinstance(x, Footprint)]\n            bcfp.extend(x for x in fplocal if x not in bcfp)\n")]
NEEDS = "a class whose own footprint is a list with a Footprint object after the first item, redefining an attribute of a base"
BREAKS = "a part of the class's own footprint is merged before those of its bases"
DEMO = '''
shared = Footprint(attr=dict(kind=dict(values=['own'])), info='own')
class C10A0(FootprintBase):
    _abstract = True
    _footprint = dict(attr=dict(kind=dict(values=['base'])), info='base')
class C10A(C10A0):
    _collector = ('c10a',)
    _footprint = [dict(attr=dict(other=dict())), shared]
assert C10A._footprint.attr['kind']['values'] == {'own'}, C10A._footprint.attr
assert C10A._footprint.info == 'own'
'''
