"""Shared analysis of the access descriptors: what each of their operations does to the storage of the object."""
from .common import *

OBJ, VALUE, OWNER = sym('instance'), sym('value'), sym('owner')
NAME, AUTH = attr(SELF, '_attr'), attr(SELF, '_auth')
STORE, OBJAUTH = attr(OBJ, '_attributes'), attr(OBJ, '_fp_auth')
FPD = item(item(attr(attr(OBJ, '_footprint'), '_fp'), 'attr'), NAME)
MODES = ('rwd', 'rwd-weak', 'rwx', 'rwx-weak', 'rxx', 'rxx-weak')


def descriptors(ctx):
    """{access mode: class}"""
    out = {}
    for c in ctx.repo.module('access').classes.values():
        v = c.assigns.get('access_mode')
        if isinstance(v, ast.Constant) and v.value is not None:
            out[v.value] = c
    return out


def run_op(ctx, cls, op, args, opaque=('Footprint.in_values',), pre=()):
    """Outcomes of one operation of a descriptor, given a valid authorization: [(state, (operations on the storage, result))]."""
    m = ctx.repo.find_method(cls, op)
    I = ctx.interp(types={SELF: ('inst', cls.name), OBJ: ('inst', 'FootprintBase')}, opaque=set(opaque))
    st = State().assume(isnone(NAME), False, False).assume(mk_eq(AUTH, OBJAUTH), True, False)
    for a in pre:
        st = st.assume(a, True, False)
    rows = I.run(m, dict({'self': SELF, 'instance': OBJ}, **args), st)
    out = []
    for s, o in outcomes(rows):
        out.append((s, changes(s), o))
    return m, I, out
