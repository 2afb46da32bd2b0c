"""default() only reuses a reusable and compatible object; grep finds the objects having the given values."""
from .common import *
from .living import STORE

MINIMA = {'C15.default': 4, 'C15.compatible': 6, 'C15.grep': 2, 'C15.reusable': 1}
TECHNIQUE = 'static analysis: path-sensitive abstract interpretation of default, footprint_compatible and grep (decision tables compared with the required ones)'
LIVE = attr(SELF, 'instances')


def is_live(c):
    c = strip_view(c)
    while c[0] == 'call' and c[1] in ('sorted', 'reversed', 'list', 'tuple') and c[3]:
        c = strip_view(c[3][0])
    if c[0] == 'call' and c[1] in ('.instances', '.items', '.values') or c[0] == 'attr' and c[2] == '_items':
        c = c[2] if c[1] in ('.items', '.values') else attr(c[2], 'instances') if c[0] == 'call' else c[1]
    return c == LIVE


def passes(I, s, t, given):
    """Does a call get the description, by name or as it is?"""
    if t == given:
        return True
    return all((v == item(sym('KW'), K)) if b else s2.decide(isin(K, sym('KW'))) is False for s2, b, v in I.lookup(s, t, K))


def check_default(ctx):
    rid = 'C15.default'
    f = ctx.repo.func('Collector.default')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.load', 'FootprintBase.footprint_reusable', 'FootprintBase.footprint_compatible'})
        st = State()
        kw = sym('KW')
        _, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.kwarg.arg: kw}, st)

        def kind(a, e, s):
            """Which of the two conditions on object e is this?"""
            if a[0] != 'truth':
                return None
            t = unver(a[1])
            if t[0] == 'call' and t[2] in (e, attr(e, '__class__')):
                if t[1] in ('.footprint_reusable', 'FootprintBase.footprint_reusable'):
                    return 'reusable'
                if t[1] in ('.footprint_compatible', 'FootprintBase.footprint_compatible'):
                    args = list(t[3]) + [v for _, v in t[4]]
                    return 'compatible' if len(args) == 1 and passes(I, s, args[0], kw) else None
            if t in (attr(e, '_reusable'), attr(attr(e, '__class__'), '_reusable')):
                return 'reusable'
            return None

        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            if any(v and a[0] == 'is' and a[1][0] == 'elem' and a[2] == NONE for a, v in s.facts.items()):
                continue        # no object is None
            if o[0] == 'elem':
                c = s.loopcol.get(o[1])
                ctx.need(rid, f.qual, c is not None and is_live(c), 'an element of %s is given' % show(c or NONE), f.where(), taint=c is None or tainted(c))
                true = {kind(a, o, s) for a, v in s.facts.items() if v}
                for w in ('reusable', 'compatible'):
                    ctx.need(rid, f.qual, w in true, 'an existing object is given when [%s], it is not known to be %s' % ('; '.join(showfact(a, v) for a, v in s.conds()), w), f.where())
                continue
            if o[0] == 'call' and o[1] == 'Collector.load':
                d = dict(o[4])
                ctx.need(rid, f.qual, o[2] == SELF and not o[3] and set(d) == {'**'} and passes(I, s, d['**'], kw), 'the new object is asked with %s' % show(o), f.where(), taint=tainted(o))
                calls = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.load']
                ctx.need(rid, f.qual, len(calls) == 1, '%d objects are loaded' % len(calls), f.where())
                ex = [(a, v) for a, v in s.facts.items() if a[0] == 'exists' and is_live(a[1])]
                good = False
                for a, v in ex:
                    for conj in a[2]:
                        if v or len(a[2]) != 1:
                            continue
                        bv = [x for at, _ in conj for x in walk(at) if x[0] == 'bv']
                        ks = {kind(at, b, s) for at, val in conj for b in bv[:1] if val}
                        good = good or len(conj) == 2 and ks == {'reusable', 'compatible'}
                ctx.need(rid, f.qual, good, 'a new object is loaded when [%s], though an existing one may be suitable' % '; '.join(showfact(a, v) for a, v in s.conds()), f.where(), taint=any(tainted(a) for a in s.facts))
                continue
            # picked by next(...), a filtered list...
            ctx.need(rid, f.qual, False, 'gives %s' % show(o), f.where(), taint=tainted(o) or o[0] not in ('c', 'sym', 'attr'))
    ctx.guard(rid, f.qual, go)


def check_compatible(ctx):
    rid = 'C15.compatible'
    f = ctx.repo.func('FootprintBase.footprint_compatible')
    p = f.node.args.args[1].arg
    RD = sym(p)

    def go():
        I = ctx.interp(types={SELF: ('inst', 'FootprintBase')}, opaque={'Footprint.resolve'})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, p: RD})
        for s, o in outcomes(rows):
            calls = [e for e in s.events() if e.kind == 'call' and e.label == 'Footprint.resolve']
            if o[0] == 'exc':
                ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            ctx.need(rid, f.qual, len(calls) == 1, 'the description is resolved %d times' % len(calls), f.where(), taint=len(calls) > 1)
            if len(calls) != 1:
                continue
            e = calls[0]
            kw = dict(e.kw)
            own = e.recv == attr(SELF, '_footprint') or e.recv[0] == 'call' and e.recv[1].endswith('footprint_retrieve') or e.recv[0] == 'attr' and e.recv[2] in ('_footprint', 'footprint')
            ctx.need(rid, f.qual, own and kw.get('desc') == RD and not e.args, 'resolves %s' % show(e.res), f.where(), taint=tainted(e.res))
            ctx.need(rid, f.qual, kw.get('fatal') == FALSE, 'a description that cannot be resolved raises an error (fatal=%s)' % show(kw.get('fatal', TRUE)), f.where())
            extra = [n for n in kw if n not in ('desc', 'fatal', 'report', 'resolvecache')]
            ctx.need(rid, f.qual, not [n for n in extra if kw[n] not in (NONE, FALSE)], 'the resolution is changed by %s' % extra, f.where())
            R = item(e.res, C(0))

            def want(q):
                if not q(truth(R)):
                    return False
                bad = exists(R, lambda b: [[(mk_eq(item(R, b), NONE), True)], [(isin(b, STORE), False)], [(mk_eq(item(STORE, b), item(R, b)), False)]])
                d = q.st.decide(bad)
                if d is None:
                    # one attribute is known to differ
                    for a, v in s.facts.items():
                        if a[0] == 'in' and not v and a[2] == STORE and s.loopcol.get(a[1][1] if a[1][0] == 'elem' else None) is not None:
                            if strip_view(s.loopcol[a[1][1]]) == R:
                                return False
                        if a[0] == 'eq' and not v:
                            for x in (a[1], a[2]):
                                if x[0] == 'item' and x[1] == STORE and x[2][0] == 'elem' and mk_eq(item(STORE, x[2]), item(R, x[2])) == a:
                                    return False
                return not q(bad)
            for s2, w in completions(s, want):
                got = s2.decide(truth(o)) if not is_c(o) else bool(cval(o))
                facts = '; '.join(showfact(a, v) for a, v in s.conds()) + '; ' + '; '.join(showfact(a, v) for a, v in s2.facts.items() if a not in s.facts)
                ctx.need(rid, f.qual, got == w, 'gives %s when [%s], the object is %scompatible' % (show(o), facts, '' if w else 'not '), f.where(), taint=got is None and tainted(o) or any(tainted(a) for a, _ in s.conds()))
    ctx.guard(rid, f.qual, go)


def check_grep(ctx):
    rid = 'C15.grep'
    f = ctx.repo.func('Collector.grep')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        st = State()
        kw = sym('KW')
        _, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.kwarg.arg: kw}, st)
        KWS = sym('KW')
        differs = lambda e: exists(KWS, lambda b: [[(has(e, b), False)], [(mk_eq(call('getattr', None, e, b), item(KWS, b)), False)]])

        def want(q):
            return [] if q(differs(E0)) else [E0]
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            check_seq(ctx, rid, f.qual, I, s, o, is_live, want, f.where())
    ctx.guard(rid, f.qual, go)


def run(ctx):
    ctx.rule('C15.default', 'an existing object given by default is one of the instances, reusable and compatible with the description; a new one is loaded with the description iff there is none')
    ctx.rule('C15.reusable', 'reuse is decided by the class')
    ctx.rule('C15.compatible', 'an object is compatible iff the description resolves and each resolved value equals the value it holds')
    ctx.rule('C15.grep', 'grep keeps an instance iff it has all the given attributes with equal values')
    check_default(ctx)
    CLS = sym('cls')
    simple(ctx, 'C15.reusable', 'FootprintBase.footprint_reusable', {'cls': CLS}, lambda q: attr(CLS, '_reusable'), types={CLS: ('type', 'FootprintBase')})
    check_compatible(ctx)
    check_grep(ctx)
