"""What an object shows of its attributes, shared by the rules on copies (C17) and undefined values (C18)."""
from .common import *

OBJT = {SELF: ('inst', 'FootprintBase')}
STORE = attr(SELF, '_attributes')
UNKNOWN = C('__unknown__')
HELD = item(STORE, K)
GET = ('call', 'getattr', None, (SELF, K), (), 0)
DEEP = lambda t: ('call', 'copy.deepcopy', None, (t,), (), 0)


def shown(q):
    """Value of attribute K read through the object, from its storage."""
    if q(('is', HELD, UNKNOWN)) or q(isnone(HELD)):
        return NONE
    return HELD


def view(ctx, rid, qual, wrap=lambda q, x: x, deep=False):
    """The mapping a method gives has an entry for each attribute, holding wrap(value of the attribute)."""
    f = ctx.repo.func(qual)

    def go():
        I = ctx.interp(types=OBJT)
        _, rows = execute(ctx, I, qual, {'self': SELF})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            whole = False
            if deep and o[0] == 'call' and o[1] == 'copy.deepcopy' and len(o[3]) == 1:      # the whole mapping copied at once
                o, whole = o[3][0], True
                o = o[1] if o[0] == 'at' else o
            elif o[0] != 'ref':
                ctx.need(rid, f.qual, False, 'gives %s itself' % show(o), f.where(), taint=tainted(o))
                continue
            rows2 = []
            for s2, b, v in I.lookup(s, o, K):
                rows2.append((s2, (DEEP(v) if whole else v) if b else ('absent',)))
            for s2, v in rows2:
                stored = not mentions(v, lambda x: x == GET) and not any(mentions(a, lambda x: x == GET) for a in s2.facts)
                ctx.conform(rid, f.qual, [(s2, unver(v))], lambda q: wrap(q, shown(q) if stored else GET) if q(isin(K, STORE)) else ('absent',), f.where())
    ctx.guard(rid, f.qual, go)


def restored(ctx):
    """(interpreter, function, [(state, container of the attributes once restored)], given state)"""
    f = ctx.repo.func('FootprintBase.__setstate__')
    p = f.node.args.args[1].arg
    given = sym('state')
    I = ctx.interp(types=OBJT)
    st = State().assume(isin(C('_attributes'), given), True, False)
    _, rows = execute(ctx, I, f.qual, {'self': SELF, p: given}, st)
    out = []
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            out.append((s, o))
            continue
        v = s.attrs.get((SELF, '_attributes'))
        if v is not None and v[0] != 'attrv':
            out.append((s, v))
            continue
        for s2, b, v in I.lookup(s, attr(SELF, '__dict__'), C('_attributes')):
            if b:
                out.append((s2, v))
    return I, f, out, given


def pickled(ctx, rid):
    """The state of an object: every entry of its dictionary but the observer; returns whether the storage is copied there."""
    f = ctx.repo.func('FootprintBase.__getstate__')
    own = []

    def go():
        I = ctx.interp(types=OBJT)
        d = attr(SELF, '__dict__')
        st = State().assume(isin(C('_observer'), d), True, False).assume(isin(C('_attributes'), d), True, False)
        _, rows = execute(ctx, I, f.qual, {'self': SELF}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            ctx.need(rid, f.qual, o[0] == 'ref' or o[0] == 'call' and o[1] in ('dict', 'copy.copy'), 'gives %s itself' % show(o), f.where(), taint=tainted(o))
            for s2, b, v in I.lookup(s, o, K):
                for s3, w in completions(s2, lambda q: q(isin(K, d)) and not q(mk_eq(K, C('_observer'))) and not q(mk_eq(K, C('_attributes')))):
                    if w:
                        ctx.need(rid, f.qual, b and v == item(d, K), 'an entry of the object becomes %s' % (show(v) if b else 'nothing'), f.where(), taint=b and tainted(v))
                    elif s3.decide(isin(K, d)) is False:
                        ctx.need(rid, f.qual, not b, 'a new entry appears', f.where(), taint=b and tainted(v))
                    elif s3.decide(mk_eq(K, C('_observer'))) is True:
                        ctx.need(rid, f.qual, not b, 'the observer is part of the state', f.where())
            for s2, b, v in I.lookup(s, o, C('_attributes')):
                ctx.need(rid, f.qual, b, 'the attributes are not part of the state', f.where())
                if b and v in (item(d, C('_attributes')), STORE):
                    own.append(False)
                elif b:
                    good = v[0] == 'ref'
                    for s3, b3, v3 in I.lookup(s2, v, K):
                        for s4, w in completions(s3, lambda q: q(isin(K, STORE)) or q(isin(K, item(d, C('_attributes'))))):
                            if b3 != w or b3 and v3 not in (HELD, item(item(d, C('_attributes')), K)):
                                good = False
                    ctx.need(rid, f.qual, good, 'the attributes become %s' % show(v), f.where(), taint=tainted(v))
                    own.append(good)
    ctx.guard(rid, f.qual, go)
    return bool(own) and all(own)
