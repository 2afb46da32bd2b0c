"""What the definition of a class adds to it: decorators of its own footprint, short names of its methods.

The metaclass constructor is interpreted on all its paths.  The class it gives back must be the class that has just been
made, passed through a loop that calls each decorator on the class obtained so far; the content of the sequence that loop
goes through (the operations that built it, in order) is compared with the decorators of the footprints the class itself
lists.  The constructor of decorative footprints must gather the decorators in order and refuse what is not callable.
"""
from .common import *
from . import defining
from .defining import BODY

MINIMA = {'C30.apply': 100, 'C30.gather': 3, 'C30.callable': 3, 'C30.read': 1, 'C30.plain': 1, 'C30.short': 100, 'C30.kept': 50}
TECHNIQUE = ('abstract interpretation of the metaclass constructor and of the constructor of decorative footprints: the class given back is '
             'traced through the loop that applies decorators, and the operations that built the sequence of decorators are compared with '
             'the declaration')
NOTE = 'What a decorator does to the class is not bounded.'
FP, DECO, MKSHORT = C('_footprint'), C('decorator'), C('_mkshort')
DF = 'DecorativeFootprint'
PREFIX = 'footprint_'


def seqof(c):
    """A sequence, without what copies it in the same order."""
    while c[0] == 'call' and c[1] in ('list', 'tuple', 'iter') and len(c[3]) == 1:
        c = c[3][0]
    return c


def source(rec):
    return seqof(rec.order or rec.coll)


def content(I, s, t, depth=0, inside=()):
    """What a sequence holds, in order: ('all', x) the elements of x | ('one', x) | ('each', coll, [(conds, content)]); None when unknown."""
    if t[0] == 'at' and t[1][0] == 'ref':
        ops, b = s.ops(t[1])[:t[2]], t[1]
    elif t[0] == 'ref':
        ops, b = s.ops(t), t
    elif t[0] == 'phi' and t[1] in I.loops and t[2] in I.loops[t[1]].init and t not in inside:
        rec = I.loops[t[1]]
        out = content(I, s, rec.init[t[2]], depth + 1, inside)
        rows = []
        for e in rec.edges:
            v = e.st.env().get(t[2])
            c = content(I, e.st, v, depth + 1, inside + (t,)) if v is not None and v != t else [('all', t)]
            if e.kind == 'exc':
                continue
            if out is None or e.kind != 'next' or c is None:
                return None
            zero = lambda x, lid=rec.lid: ('elem', 0) if x == ('elem', lid) else None
            c = c[1:] if c[:1] == [('all', t)] else [('only', C('class'))] + c
            rows.append((tuple((subst_deep(a, zero), v) for a, v in e.conds), [(y[0],) + tuple(subst_deep(z, zero) for z in y[1:2]) for y in c]))
        return out + [('each', source(rec), rows)]
    else:
        t = seqof(t)
        if t[0] in ('ref', 'at') and t[0] != t:
            return content(I, s, t, depth + 1, inside) if depth < 6 and (t[0] == 'ref' or t[1][0] == 'ref') else [('all', t)]
        if t[0] == 'tup':
            return [('one', x) for x in t[1]]
        if t[0] == 'bin' and t[1] == '+':
            l, r = content(I, s, t[2], depth + 1, inside), content(I, s, t[3], depth + 1, inside)
            return None if l is None or r is None else l + r
        return [('all', t)]
    out = []
    for op in ops:
        k = op[0]
        if k == 'lit':
            out += [('one', x) for x in (op[1:] if len(op) > 1 else ())]
        elif k == 'app':
            out.append(('one', op[1]))
        elif k in ('ext', 'upd'):
            c = content(I, s, op[1], depth + 1, inside)
            if c is None:
                return None
            out += c
        elif k == 'copy':
            src = op[1]
            c = content(I, s, ('at', src, op[2]) if src[0] == 'ref' and len(op) > 2 else src, depth + 1, inside)
            if c is None:
                return None
            out += c
        elif k == 'each':
            rec = op[2]
            rows = []
            for e in rec.edges:
                if e.kind == 'exc':
                    continue
                if e.kind != 'next':
                    return None
                sub = State()
                c = []
                for o in op[3](e):
                    if o[0] == 'app':
                        c.append(('one', o[1]))
                    elif o[0] == 'ext':
                        cc = content(I, e.st, o[1], depth + 1, inside)
                        if cc is None:
                            return None
                        c += cc
                    elif o[0] in ('ins', 'set', 'rem', 'del', 'pop', 'popl', 'clr', 'inv', 'phi'):
                        c.append((o[0], o[1] if len(o) > 1 else NONE))
                    elif o[0] == 'each':
                        ir = o[2]
                        # the elements of a collection, one by one
                        if len(ir.edges) == 1 and ir.edges[0].kind == 'next' and o[3](ir.edges[0]) == (('app', ('elem', ir.lid)),):
                            c.append(('all', source(ir)))
                        else:
                            return None
                    else:
                        return None
                zero = lambda x, lid=rec.lid: ('elem', 0) if x == ('elem', lid) else None
                rows.append((tuple((subst_deep(a, zero), v) for a, v in e.conds), [(y[0],) + tuple(subst_deep(z, zero) for z in y[1:]) for y in c]))
            if len(rows) == 1 and not rows[0][0] and rows[0][1] == [('one', E0)]:
                out.append(('all', source(rec)))
            elif depth:
                out.append(('some', source(rec)))
            else:
                out.append(('each', source(rec), rows))
        else:
            return None
    return out


def made(t):
    return t[0] == 'call' and t[1] == 'super.__new__'


def applied(I, s, t, depth=0):
    """(class made, [what has been called on it, in order]) of the class a term names; None when unknown."""
    if made(t):
        return t, []
    if depth > 6:
        return None
    if t[0] == 'call' and t[1] == 'apply' and len(t[3]) == 1 and not t[4]:
        got = applied(I, s, t[3][0], depth + 1)
        return None if got is None else (got[0], got[1] + [('one', t[2])])
    if t[0] == 'phi' and t[1] in I.loops:
        rec, name = I.loops[t[1]], t[2]
        if rec.coll is None or name not in rec.init:
            return None
        got = applied(I, s, rec.init[name], depth + 1)
        if got is None:
            return None
        rows = []
        for e in rec.edges:
            if e.kind == 'exc':
                continue
            if e.kind != 'next':
                return None
            v = e.st.env().get(name)
            if v is None:
                return None
            c, w = [], v
            while w != ('phi', rec.lid, name):
                if w[0] == 'call' and w[1] == 'apply' and len(w[3]) == 1 and not w[4]:
                    c.insert(0, ('one', w[2]))
                    w = w[3][0]
                elif w[0] == 'phi' and w[1] in I.loops and I.loops[w[1]].coll is not None and name in I.loops[w[1]].init:
                    ir = I.loops[w[1]]
                    if len(ir.edges) == 1 and ir.edges[0].st.env().get(name) == ('call', 'apply', ('elem', ir.lid), (w,), (), 0):
                        c.insert(0, ('all', source(ir)))
                        w = ir.init[name]
                    else:
                        return None
                elif w == rec.init[name] or made(w):
                    c.insert(0, ('only', C('class')))     # what has been applied before is forgotten
                    break
                else:
                    return None
            zero = lambda x, lid=rec.lid: ('elem', 0) if x == ('elem', lid) else None
            rows.append((tuple((subst_deep(a, zero), v) for a, v in e.conds), [(y[0], subst_deep(y[1], zero)) for y in c]))
        n = source(rec)
        if n[:2] == ('call', 'range') and len(n[3]) == 1 and n[3][0][:2] == ('call', 'len') and len(rows) == 1 and rows[0][1] in [[('one', (k, b, E0))] for k in ('item', 'itemv') for b in (n[3][0][3][0], strip_at(n[3][0][3][0]))]:
            seq = content(I, s, n[3][0][3][0])
            return None if seq is None else (got[0], got[1] + seq)
        if len(rows) == 1 and not rows[0][0] and rows[0][1] == [('one', E0)]:
            seq = content(I, s, source(rec))
            return None if seq is None else (got[0], got[1] + seq)
        return got[0], got[1] + [('each', source(rec), rows)]
    return None


def declared(t):
    """Is the term the footprint written in the body of the class?"""
    return t[0] in ('item', 'getd') and t[1] == BODY and t[2] == FP


def norm(seq):
    """Forgets how the footprint of the body has been read, and what adds nothing."""
    def n(t):
        return subst_deep(t, lambda x: item(BODY, FP) if x[0] in ('item', 'getd') and x[1] == BODY and x[2] == FP else None)
    out = []
    for x in seq:
        if x[0] == 'each':
            rows = [(tuple((n(a), v) for a, v in cs), [(k, n(t)) for k, t in c]) for cs, c in x[2]]
            if any(c for _, c in rows):
                out.append(('each', n(x[1]), rows))
        else:
            out.append((x[0], n(x[1])))
    return out


def each_ok(x, coll, rid, ctx, name, where):
    """An 'each' whose decorative elements give all their decorators and the others nothing."""
    if x[0] != 'each' or x[1] != coll:
        return False
    a = ('isinstance', E0, DF)
    for cs, c in x[2]:
        d = dict(cs)
        key = [k for k in d if k[0] == 'isinstance' and k[1] == E0]
        if not key or any(k not in key for k in d):
            return None if not key else False
        yes = d[key[0]]
        if c != ([('all', attr(E0, '_decorators'))] if yes else []):
            return False
    return bool(x[2])


def islist(s):
    """Is the footprint written in the body a list?"""
    for a, v in s.facts.items():
        if a[0] in ('is', 'eq') and len(a) == 3 and 'list' in show(a) and a[1][0] == 'attr' and a[1][2] == '__class__' and declared(a[1][1]):
            return v
        if a[0] == 'isinstance' and declared(a[1]) and 'list' in show(a):
            return v
    return None


def isdeco(s):
    for a, v in s.facts.items():
        if a[0] == 'isinstance' and declared(a[1]) and DF in show(a):
            return v
    return None


def check_apply(ctx, D):
    rid, name = 'C30.apply', D.f.qual
    src = item(BODY, FP)
    for s, o in D.outs:
        if o[0] == 'exc':
            continue
        got = applied(D.I, s, o)
        if got is None:
            ctx.need(rid, name, False, 'the class given back is %s' % show(o), D.where, taint=True)
            continue
        seq = norm(got[1])
        facts = '; '.join(showfact(a, v) for a, v in s.facts.items() if mentions(a, declared) or a == isin(FP, BODY))
        absent = s.facts.get(isin(FP, BODY)) is False
        L, d = islist(s), isdeco(s)
        if not seq:     # a sequence of decorators that is empty here
            for a, v in s.facts.items():
                if a[0] == 'truth' and not v and a[1][0] in ('ref', 'at', 'attr'):
                    alt = content(D.I, s, a[1])
                    if alt and any(mentions_deco(x) for x in alt):
                        seq = norm(alt)
        if absent:
            ctx.need(rid, name, not seq, 'a class without a footprint of its own is decorated with %s' % shown(seq), D.where)
        elif L:
            ok = len(seq) == 1 and each_ok(seq[0], src, rid, ctx, name, D.where)
            ctx.need(rid, name, ok, 'a class that lists footprints is decorated with %s when [%s]' % (shown(seq), facts), D.where, taint=ok is None)
        elif L is False and d is not None:
            ctx.need(rid, name, seq == ([('all', attr(src, '_decorators'))] if d else []), 'a class whose own footprint %s decorative is decorated with %s when [%s]' % ('is' if d else 'is not', shown(seq), facts), D.where)
        elif L is False:
            ctx.need(rid, name, False, 'whether its own footprint is decorative is not looked at: the class is decorated with %s when [%s]' % (shown(seq), facts), D.where)
        else:
            # neither has been asked: both a list and a decorative footprint may be there
            ctx.need(rid, name, False, 'the class is decorated with %s whatever its footprint is [%s]' % (shown(seq), facts), D.where, taint=bool(seq) and d is None)
        ctx.need('C30.kept', name, not any(strip_view(b)[0] == 'attr' and strip_view(b)[2] == '_decorators' for b, op in changes(s)), 'the list of decorators of a footprint is altered by the definition of a class', D.where)


def mentions_deco(x):
    return any(mentions(t, lambda y: y[0] == 'attr' and y[2] == '_decorators') for t in (x[1:2] if x[0] != 'each' else [z[1] for _, c in x[2] for z in c]))


def shown(seq):
    def one(x):
        if x[0] == 'each':
            return 'for each of %s: %s' % (show(x[1])[:60], ['%s if %s' % ([one(y) for y in c], [showfact(a, v) for a, v in cs]) for cs, c in x[2]])
        return '%s %s' % (x[0], show(x[1])[:80])
    return [one(x) for x in seq] or 'nothing'


def shortname(k):
    """Terms for the name without its prefix."""
    return lambda t: (t[0] == 'call' and t[1] in ('.replace', '.removeprefix') and t[2] == k and t[3][:1] == (C(PREFIX),) and t[3][1:] in ((C(''),), (C(''), C(1)), ())
                      or t[0] == 'call' and t[1] == 'after1' and t[3] == (k, C('_'))
                      or t[0] == 'call' and t[1] == 're.sub' and t[3][1:] == (C(''), k) and t[3][0] in (C(PREFIX), C('^' + PREFIX))
                      or t[0] in ('item', 'slice') and mentions(t, lambda x: x == k) and mentions(t, lambda x: x in (C(len(PREFIX)), ('len', C(PREFIX)), call('len', None, C(PREFIX)))))


def check_short(ctx, D):
    rid, name = 'C30.short', D.f.qual
    short = {}
    for rec in D.I.loops.values():
        if rec.coll is None:
            continue
        E = ('elem', rec.lid)
        rows = []
        for e in rec.edges:
            sets = [op for op in rec.delta(e, BODY) if op[0] == 'set' and op[1] != E and mentions(op[1], lambda x: x == E)]
            rows.append((e, sets))
        if not any(x for _, x in rows) or not mentions(rec.coll, lambda x: x == BODY):
            continue
        short[rec.lid] = rec
        isshort = shortname(E)
        for e, sets in rows:
            if any(a[0] == 'in' and a[1] == E and not v for a, v in e.conds):
                continue    # a key of the body that is not in the body
            facts = '; '.join(showfact(a, v) for a, v in e.conds)
            ctx.need(rid, name, e.kind == 'next', 'giving short names ends on %s when [%s]' % (e.kind, facts), D.where)
            keys = {a[1] for a, v in e.conds if a[0] == 'in' and isshort(a[1])}
            free = [not v for a, v in e.conds if a[0] == 'in' and isshort(a[1])]
            pre = [v for a, v in e.conds if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and a[1][2] == E and a[1][3] == (C(PREFIX),)]
            if any(op[0] in ('del', 'rem', 'pop', 'clr') or op[0] == 'set' and op[1] == E for op in rec.delta(e, BODY)):
                ctx.need(rid, name, False, 'the body is changed while short names are given: %s' % [op[0] for op in rec.delta(e, BODY)], D.where)
            more = [a for a, v in e.conds if not (a[0] == 'in' or a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith')]
            ctx.need(rid, name, not more, 'giving short names depends on %s' % [show(a)[:80] for a in more], D.where)
            if sets:
                ok = pre == [True] and len(sets) == 1 and isshort(sets[0][1]) and not any(f is False for f in free)
                ctx.need(rid, name, ok, 'the body gets %s when [%s]' % ([(show(x[1]), show(x[2])) for x in sets], facts), D.where, taint=any(tainted(x[1]) for x in sets))
                ctx.need(rid, name, free == [True] and keys == {sets[0][1]}, 'a name that is already there may be replaced: %s when [%s]' % (show(sets[0][1]), facts), D.where)
                ctx.need(rid, name, len(sets) == 1 and sets[0][2][0] in ('item', 'itemv', 'getd') and sets[0][2][2] == E and strip_at(sets[0][2][1]) == BODY, 'a short name gets %s' % show(sets[0][2]), D.where)
            else:
                ctx.need(rid, name, pre == [False] or free == [False], 'a method gets no short name when [%s]' % facts, D.where)
    for s, o in D.outs:
        if o[0] == 'exc':
            continue
        n = sum(e.kind == 'loop' and e.label.lid in short for e in s.events())
        asked = [a for a in s.facts if a[0] == 'truth' and a[1][0] == 'getd' and a[1][1:3] == (BODY, MKSHORT) and a[1][3] == attr(('glob', 'footprints', 'setup'), 'shortnames')]
        for s2, w in completions(s, lambda q: q(asked[0]) if asked else q(truth(item(BODY, MKSHORT))) if q(isin(MKSHORT, BODY)) else q(truth(attr(('glob', 'footprints', 'setup'), 'shortnames')))):
            ctx.need(rid, name, n == (1 if w else 0), 'short names are given %d times when they are %s' % (n, 'asked for' if w else 'not wanted'), D.where, taint=n > 1)


def strip_at(t):
    while t[0] == 'at':
        t = t[1]
    return t


KW, ARGS = sym('kw'), sym('args')


def check_gather(ctx):
    f = ctx.repo.func(DF + '.__init__')
    a = f.node.args
    if a.vararg is None or a.kwarg is None:
        ctx.undec('C30.gather', f.qual, 'its arguments are not *args, **kw')
        return
    I = ctx.interp(types={SELF: ('inst', DF)}, opaque={'Footprint.__init__'})
    f, rows = execute(ctx, I, f.qual, {'self': SELF, a.vararg.arg: ARGS, a.kwarg.arg: KW})
    given = item(KW, DECO)
    for s, o in outcomes(rows):
        kept_apart(ctx, f, I, s, given)
        facts = '; '.join(showfact(x, v) for x, v in s.facts.items())
        refused = [x for x, v in s.facts.items() if x[0] == 'truth' and not v and iscallable(x[1]) or x[0] == 'callable' and not v]
        if o[0] == 'exc':
            ctx.need('C30.callable', f.qual, o[1].name == 'ValueError' and bool(refused), 'raises %s when [%s]' % (o[1], facts), f.where(), taint=o[1].name is None)
            continue
        b = s.attrs.get((SELF, '_decorators'))
        if b is None:
            ctx.need('C30.gather', f.qual, False, 'no decorators are recorded when [%s]' % facts, f.where())
            continue
        seq = content(I, s, b)
        if seq is None:
            ctx.need('C30.gather', f.qual, False, 'the decorators are %s' % show(b), f.where(), taint=True)
            continue
        has, lst = s.facts.get(isin(DECO, KW)), None
        for x, v in s.facts.items():
            if x[0] == 'isinstance' and item_of(x[1], KW) == DECO or x[0] == 'is' and x[1] == attr(given, '__class__'):
                lst = v
        # the absence of decorator may be told by a default
        ok = bool(seq) and seq[0][0] == 'each' and each_ok(seq[0], ARGS, None, ctx, f.qual, f.where())
        rest = seq[1:]
        if has is None and any(mentions(x[1], lambda y: y[0] == 'getd' and y[2] == DECO) for x in rest):
            ctx.undec('C30.gather', f.qual, 'the decorators are read with a default')
            continue
        want = [] if not has else [('all', given)] if lst else [('one', given)] if lst is False else None
        ctx.need('C30.gather', f.qual, bool(ok) and rest == want, 'the decorators are %s when [%s]' % (shown(seq), facts), f.where(), taint=ok is None or any(tainted(x[1]) for x in seq))
        if has:
            ctx.need('C30.callable', f.qual, checked(I, s, b, given), 'a decorator that is not callable is not refused when [%s]' % facts, f.where())


def flatten(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for x in e.label.edges:
                for y in flatten(x.events()):
                    yield y


def kept_apart(ctx, f, I, s, given):
    """The list that a decorative footprint fills is its own: neither the one of a footprint it is made from, nor the one it is given."""
    evs = list(flatten(s.events()))
    foreign = lambda v: v == given or v[0] in ('attr', 'attrv') and v[2] in ('_decorators', 'decorators') and unver(v[1]) != SELF
    taken = [e.args[0] for e in evs if e.kind == 'setattr' and e.label == '_decorators' and unver(e.recv) == SELF and foreign(e.args[0])]
    bad = []
    for e in evs:
        if e.kind == 'mut' and e.recv is not None:
            r = strip_at_(e.recv)
            if foreign(r) or taken and r[0] in ('attr', 'attrv') and r[2] == '_decorators' and unver(r[1]) == SELF:
                bad.append(r if foreign(r) else taken[0])
    ctx.need('C30.kept', f.qual, not bad, 'adds decorators to a list that is not its own (%s)' % (show(bad[0]) if bad else ''), f.where())


def strip_at_(t):
    while t[0] == 'at':
        t = t[1]
    return t


def iscallable(t):
    return t[0] == 'call' and t[1] == 'callable'


def checked(I, s, b, given):
    """All the decorators given (or all that have been gathered) are known to be callable."""
    seen = lambda c: strip_at(strip_view(c)) in (strip_at(b), given)
    for x, v in s.facts.items():
        if x[0] == 'exists' and not v and seen(x[1]) and len(x[2]) >= 1 and any(len(c) == 1 and not v2 and is_callable_atom(a2) for c in x[2] for a2, v2 in c):
            return True
        if v and is_callable_atom(x) and mentions(x, lambda y: y == given):
            return True
    for e in s.events():
        if e.kind == 'loop' and e.label.coll is not None and seen(e.label.coll):
            nx = [g for g in e.label.edges if g.kind == 'next']
            if nx and all(any(v and is_callable_atom(a) for a, v in g.conds) for g in nx):
                return True
    return False


def is_callable_atom(a):
    return a[0] == 'callable' or a[0] == 'truth' and iscallable(a[1])


def check_read(ctx):
    f = ctx.repo.func(DF + '.decorators')
    I = ctx.interp(types={SELF: ('inst', DF)})
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    own = attr(SELF, '_decorators')
    for s, o in outcomes(rows):
        seq = None if o[0] == 'exc' else content(I, s, o)
        ctx.need('C30.read', f.qual, seq == [('all', own)], 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=seq is None and o[0] != 'exc')
    f = ctx.repo.func(DF + '.as_footprint')
    I = ctx.interp(types={SELF: ('inst', DF)}, opaque={'Footprint.__init__'})
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    for s, o in outcomes(rows):
        ok = o[0] == 'call' and o[1] == 'new Footprint' and o[3] in ((SELF,), (attr(SELF, '_fp'),)) and not o[4]
        ctx.need('C30.plain', f.qual, ok, 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))


def run(ctx):
    ctx.rule('C30.apply', 'FootprintBaseMeta.__new__ gives back the class that has just been made, on which each decorator of its own decorative footprints (the one it writes, or those of the list it writes, in order) has been called once; nothing inherited, and nothing for other footprints')
    ctx.rule('C30.kept', 'defining a class leaves the list of decorators of the footprints it uses as it was')
    ctx.rule('C30.short', 'when short names are asked for, each entry of the body named footprint_xxx is also available as xxx, unless the body already has that name')
    ctx.rule('C30.gather', 'a decorative footprint records the decorators of the decorative footprints it is made from, in order, then its own')
    ctx.rule('C30.callable', 'a decorator that is not callable is refused with ValueError, and nothing else is')
    ctx.rule('C30.read', 'the decorators of a footprint are those recorded')
    ctx.rule('C30.plain', 'the plain footprint of a decorative footprint is made from it and has no decorators')
    D = None

    def define():
        nonlocal D
        D = defining.Define(ctx)
    ctx.guard('C30.apply', 'FootprintBaseMeta.__new__', define)
    if D is not None:
        ctx.guard('C30.apply', D.f.qual, lambda: check_apply(ctx, D))
        ctx.guard('C30.short', D.f.qual, lambda: check_short(ctx, D))
    ctx.guard('C30.gather', DF + '.__init__', lambda: check_gather(ctx))
    ctx.guard('C30.read', DF, lambda: check_read(ctx))
