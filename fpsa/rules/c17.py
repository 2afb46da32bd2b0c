"""Copies, clones and exports are faithful and independent."""
from .purity import *
from .living import *

MINIMA = {'C17.state': 5, 'C17.copy': 6, 'C17.clone': 6, 'C17.full': 4, 'C17.view': 4, 'C17.export': 4, 'C17.pure': 7, 'C17.almost': 3}
TECHNIQUE = 'static analysis: path-sensitive abstract interpretation (what each final mapping holds under a generic key), and mod-ref effect analysis'


def check_copy(ctx):
    rid = 'C17.copy'
    own = pickled(ctx, 'C17.state')

    def go():
        I, f, rows, given = restored(ctx)
        src = item(given, C('_attributes'))
        for s, c in rows:
            if c[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (c[1],), f.where(), taint=c[1].name is None)
                continue
            fresh = c[0] == 'ref' or c[0] == 'call' and c[1] in ('dict', 'copy.copy', 'copy.deepcopy')
            ctx.need(rid, f.qual, own or fresh, 'the attributes of a copy are %s, shared with the original' % show(c), f.where(), taint=tainted(c))
            if not own:
                for b, op in changes(s):
                    ctx.need(rid, f.qual, b != src, 'the storage of the original is changed (%s)' % op[0], f.where())
            for s2, b, v in I.lookup(s, c, K):
                ctx.need(rid, f.qual, s2.decide(isin(K, src)) is b, 'an attribute is %s by copying' % ('added' if b else 'lost'), f.where(), taint=s2.decide(isin(K, src)) is None)
                if not b:
                    continue
                v0 = item(src, K)
                marker = s2.decide(mk_eq(v0, UNKNOWN)) is True
                ctx.need(rid, f.qual, s2.norm(v) == s2.norm(v0) or marker and v == UNKNOWN, 'the value %s becomes %s' % (show(v0), show(v)), f.where(), taint=tainted(v))
    ctx.guard(rid, 'FootprintBase.__setstate__', go)
    for m in ('__copy__', '__deepcopy__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__', '__new__'):
        c = ctx.repo.cls('FootprintBase')
        if m in c.methods or m in c.assigns:
            ctx.undec(rid, 'FootprintBase.' + m, 'copies are not made through the state only')
        else:
            ctx.ok(rid, 'FootprintBase.' + m)


def made(e):
    """Is the call a construction of an object of the class of self?"""
    return e.label == '.__class__' and e.recv == SELF or e.label == 'apply' and (e.recv == attr(SELF, '__class__') or e.recv[0] == 'call' and e.recv[1] == 'type' and e.recv[3] == (SELF,))


def given(I, s, e, key):
    """What the call gets under a key: [(state, present, value)]."""
    explicit = dict(x for x in e.kw if x[0] != '**')
    maps = [v for n, v in e.kw if n == '**'] + list(reversed(e.args))
    out, todo = [], [s]
    for n, v in explicit.items():
        nxt = []
        for st in todo:
            for val in (True, False):
                s2 = st.assume(mk_eq(key, C(n)), val)
                if s2 is not None:
                    (out if val else nxt).append((s2, True, v) if val else s2)
        todo = nxt
    for m in maps:
        nxt = []
        for st in todo:
            for s2, b, v in I.lookup(st, m, key):
                if b:
                    out.append((s2, True, v))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(st, False, None) for st in todo]


def check_clone(ctx):
    rid = 'C17.clone'
    f = ctx.repo.func('FootprintBase.footprint_clone')
    full, extra = [a.arg for a in f.node.args.args[1:3]]
    X = sym('extra')

    def go():
        I = ctx.interp(types=OBJT)
        _, rows = execute(ctx, I, f.qual, {'self': SELF, full: sym('full'), extra: X})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            news = [e for e in s.events() if e.kind == 'call' and made(e)]
            ctx.need(rid, f.qual, len(news) == 1 and o == news[0].res, 'gives %s, that is not a new object of the class' % show(o), f.where(), taint=tainted(o))
            if len(news) != 1:
                continue
            e = news[0]
            for s2, b, v in given(I, s, e, C('checked')):
                chk = any(n == 'checked' for n, _ in e.kw)
                ctx.need(rid, f.qual, not chk or v == FALSE, 'the attributes of the clone are not resolved (checked=%s)' % (show(v) if b else ''), f.where())
            s0 = s.assume(mk_eq(K, C('checked')), False, False)
            rows2 = [(s2, v if b else ('absent',)) for s2, b, v in given(I, s0, e, K)]

            def want(q):
                if not q(isnone(X)) and q(isin(K, X)):
                    return item(X, K)
                return HELD if q(isin(K, STORE)) else ('absent',)
            ctx.conform(rid, f.qual, rows2, want, f.where())
    ctx.guard(rid, f.qual, go)


def check_full(ctx):
    """A full clone is given the public instance attributes of the original, an ordinary one nothing."""
    rid = 'C17.full'
    f = ctx.repo.func('FootprintBase.footprint_clone')
    full, extra = [a.arg for a in f.node.args.args[1:3]]
    held = attr(SELF, '__dict__')

    def carried(new, evs, own):
        """The values given, by name, to the new object."""
        out = []
        for e in evs:
            if e.kind == 'call' and e.label == 'setattr' and e.recv == new:
                out.append(e.args)
            elif e.kind == 'call' and e.label in ('.__setattr__', 'super.__setattr__') and e.recv == new:
                out.append(e.args)
            elif e.kind == 'mut' and mentions(e.recv, lambda x: x == new):
                out.append(e.args if e.label in ('set', '__setitem__') and len(e.args) == 2 else None)
            elif e.kind == 'setattr' and e.recv == new:
                out.append((C(e.label), e.args[0]))
        return out

    def go():
        for want in (True, False):
            I = ctx.interp(types=OBJT)
            _, rows = execute(ctx, I, f.qual, {'self': SELF, full: C(want), extra: NONE})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    continue
                direct = carried(o, s.events(), s)
                ctx.need(rid, f.qual, not direct, 'something is given to the clone out of the loop over the attributes of the original', f.where(), taint=want)
                loops = [e.label for e in s.events() if e.kind == 'loop' and any(carried(o, ed.events(), ed.st) for ed in e.label.edges)]
                ctx.need(rid, f.qual, want or not loops, 'a clone that is not a full one is given the attributes of the original', f.where())
                if not want or direct:
                    continue
                ctx.need(rid, f.qual, len(loops) == 1, 'a full clone is not given the public attributes of the original', f.where(), taint=len(loops) > 1)
                for rec in loops:
                    coll = strip_at(strip_view(rec.coll)) if rec.coll is not None else ('unk', 0)
                    cut = coll[0] == 'call' and coll[1] == 'slice'
                    ctx.need(rid, f.qual, coll == held, 'a full clone is given what is found in %s' % show(coll), f.where(), taint=not cut and not mentions(coll, lambda x: x == o))
                    E = ('elem', rec.lid)
                    private = truth(call('.startswith', E, C('_')))
                    for a in [a for ed in rec.edges for a, v in ed.conds]:
                        if a[0] == 'eq' and C('_') in a[1:] and mentions(a, lambda x: x[0] in ('item', 'itemv') and x[1] == E or x[0] == 'call' and x[1] == 'slice' and x[3][0] == E):
                            private = a         # the first character
                    for ed in rec.edges:
                        for a, v in ed.conds:
                            alone = a != private and mentions(a, lambda x: x == E) and not any((a, not v) in list(e2.conds) for e2 in rec.edges)
                            ctx.need(rid, f.qual, not alone or not carried(o, ed.events(), ed.st), 'a public attribute is only given to a full clone when [%s]' % showfact(a, v), f.where(),
                                     taint=tainted(a) or a[0] == 'truth' and a[1][1] == '.startswith')
                    seen = 0
                    for ed in rec.edges:
                        got = carried(o, ed.events(), ed.st)
                        facts = '; '.join(showfact(a, v) for a, v in ed.conds)
                        doubt = any(tainted(a) for a, v in ed.conds)
                        for s2, pr in completions(ed.st, lambda q: q(private)):
                            if pr:
                                ctx.need(rid, f.qual, not got, 'a full clone is given the private attributes of the original when [%s]' % facts, f.where(), taint=doubt)
                                continue
                            seen += 1
                            ok = ed.kind == 'next' and len(got) == 1 and got[0] is not None and got[0][0] == E and got[0][1] in (call('getattr', None, SELF, E), item(held, E), call('.__getattribute__', SELF, E))
                            ctx.need(rid, f.qual, ok, 'a public attribute gives %s to a full clone when [%s]' % ([tuple(map(show, g)) if g else '?' for g in got], facts), f.where(),
                                     taint=doubt or None in got)
                    ctx.need(rid, f.qual, seen, 'a full clone is not given the public attributes of the original', f.where())
    ctx.guard(rid, f.qual, go)


def check_almost(ctx):
    rid = 'C17.almost'
    f = ctx.repo.func('Collector.almost_clone')
    O, X = sym('original'), sym('extra')
    p = f.node.args.args[1].arg

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector'), O: ('inst', 'FootprintBase')}, opaque={'FootprintBase.footprint_as_dict', 'Collector.load'})
        st = State()
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', X))
        _, rows = execute(ctx, I, f.qual, {'self': SELF, p: O, f.node.args.kwarg.arg: kw}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            calls = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.load']
            ctx.need(rid, f.qual, len(calls) == 1 and o == calls[0].res, 'gives %s, not what is loaded' % show(o), f.where(), taint=tainted(o))
            if len(calls) != 1:
                continue
            src = call('FootprintBase.footprint_as_dict', O)
            rows2 = [(s2, unver(v) if b else ('absent',)) for s2, b, v in given(I, s, calls[0], K)]
            ctx.conform(rid, f.qual, rows2, lambda q: item(X, K) if q(isin(K, X)) else item(src, K) if q(isin(K, src)) else ('absent',), f.where())
    ctx.guard(rid, f.qual, go)


def check_views(ctx):
    view(ctx, 'C17.view', 'FootprintBase.footprint_as_shallow_dict')
    view(ctx, 'C17.view', 'FootprintBase.footprint_as_dict', lambda q, v: DEEP(v), deep=True)

    def export(q, v):
        m = ('strcat', (C('footprint_export_'), K))
        free = Want('anything', lambda s, got: True)        # a None in place of a method
        if q(has(SELF, m)):
            own = ('call', 'getattr', None, (SELF, m), (), 0)
            return free if q(isnone(own)) else ('call', 'apply', own, (), (), 0)
        for n in ('footprint_export', 'export_dict'):
            if q(has(v, C(n))):
                return free if q(isnone(attr(v, n))) else ('call', '.' + n, v, (), (), 0)
        return DEEP(v)
    view(ctx, 'C17.export', 'FootprintBase.footprint_export', export)


def check_pure(ctx):
    for q in ('FootprintBase.__getstate__', 'FootprintBase.footprint_clone', 'FootprintBase.footprint_as_dict', 'FootprintBase.footprint_as_shallow_dict',
              'FootprintBase.footprint_export'):
        forbid(ctx, 'C17.pure', q, lambda r, path, what: r[0] == 'param' and r[1] == 'self' and (not path or '._attributes' in path), 'modifies the object')
    forbid(ctx, 'C17.pure', 'FootprintBase.footprint_clone', lambda r, path, what: r[0] == 'param' and r[1] not in ('self',), 'modifies the extra attributes')
    forbid(ctx, 'C17.pure', 'Collector.almost_clone', lambda r, path, what: r == ('param', params(ctx, 'Collector.almost_clone')[0]) and '._attributes' in path, 'modifies the original')


def params(ctx, q):
    return [a.arg for a in ctx.repo.func(q).node.args.args[1:]]


def run(ctx):
    ctx.rule('C17.state', 'the state of an object holds every entry of its dictionary but the observer, unchanged')
    ctx.rule('C17.copy', 'a restored object has its own storage, with the same attributes and values')
    ctx.rule('C17.clone', 'a clone is built by the class itself, through resolution, from the attributes overridden by the extra ones')
    ctx.rule('C17.almost', 'an almost clone is loaded from the dictionary of the original overridden by the extra attributes')
    ctx.rule('C17.view', 'the dictionary views have exactly an entry per attribute, its value or a deep copy of it')
    ctx.rule('C17.export', 'the export uses the dedicated method, else the own ability of the value, else a deep copy')
    ctx.rule('C17.pure', 'nothing is written on the original, nor on the extra attributes')
    check_copy(ctx)
    ctx.rule('C17.full', 'a full clone also holds the public instance attributes of the original, and none of its private ones; an ordinary clone none of them')
    check_clone(ctx)
    check_full(ctx)
    check_almost(ctx)
    check_views(ctx)
    check_pure(ctx)
