"""Proxies and module tables.

Every method of the proxy class is interpreted with the module functions inlined; what it gives (a decision table, or the
content of the list or dictionary it builds, one generic collector at a time) is compared with the table of collectors.
"""
from .common import *

MINIMA = {'C31.table': 12, 'C31.exists': 4, 'C31.get': 2, 'C31.attr': 4, 'C31.listing': 2, 'C31.iter': 1, 'C31.printed': 2}
TECHNIQUE = ('abstract interpretation of the proxy class and of the module tables: decision tables of the accesses, and content of the listings '
             'for a generic collector, compared with the table of collectors')
NOTE = 'The table itself (one entry per living tag) is kept by bronx.patterns.getbytag, which is trusted.'
P = 'FootprintProxy'
TABLES = (('collectors', 'Collector'), ('proxies', P), ('reporting', 'FootprintLog'), ('config', 'FootprintSetup'))


def table(cls, what):
    return ('call', '.tag_' + what, ('cls', cls), (), (), 0)


KEYS, ITEMS, VALUES = (table('Collector', w) for w in ('keys', 'items', 'values'))


def check_tables(ctx):
    rid = 'C31.table'
    for mod, cls in TABLES:
        for fn in ('keys', 'values', 'items'):
            f = ctx.repo.func('%s:%s' % (mod, fn))
            f, rows = execute(ctx, ctx.interp(), f.qual, {})
            for s, o in outcomes(rows):
                got = unver(strip_view(o)) if o[0] != 'exc' else o
                if got[0] == 'ref':
                    ops = s.ops(got)
                    got = unver(ops[0][1]) if len(ops) == 1 and ops[0][0] in ('copy', 'ext') else got
                ctx.need(rid, f.qual, got == table(cls, fn), 'gives %s' % (show(o) if o[0] != 'exc' else o[1],), f.where(), taint=o[0] != 'exc' and (tainted(o) or o[0] == 'ref'))
        f = ctx.repo.func('%s:get' % mod)
        kw = f.node.args.kwarg
        if kw is None:
            ctx.undec(rid, f.qual, 'its arguments are not **kw')
            continue
        f, rows = execute(ctx, ctx.interp(), f.qual, {kw.arg: sym('kw')})
        for s, o in outcomes(rows):
            ok = o[0] == 'call' and o[1] == 'new ' + cls and not o[3] and o[4] in ((('**', sym('kw')),),)
            ctx.need(rid, f.qual, ok, 'gives %s' % (show(o) if o[0] != 'exc' else o[1],), f.where(), taint=o[0] != 'exc' and tainted(o))


def strcat(*xs):
    return ('strcat', tuple(xs))


def bare(t):
    """The tag of a plural name."""
    return ('call', '.rstrip', t, (C('s'),), (), 0)


def tracked(t):
    return isin(bare(t), KEYS)


def run_m(ctx, name, prints=False):
    f = ctx.repo.find_method(ctx.repo.cls(P), name)
    ctx.need('C31.' + {'exists': 'exists', '__contains__': 'exists'}.get(name, 'attr'), '%s.%s' % (P, name), f is not None, 'no such method', 'src/footprints/proxies.py') if f is None else None
    names = [a.arg for a in f.node.args.args]
    args = {n: sym(n) for n in names}
    args[names[0]] = SELF
    I = ctx.interp(types={SELF: ('inst', P)}, prints=prints)
    f, rows = execute(ctx, I, f.qual, args)
    return f, I, [(s, o if o[0] == 'exc' else o) for s, o in outcomes(rows)], names[1:]


def flat(rows):
    return [(s, o if o[0] == 'exc' else unver(o)) for s, o in rows]


def newc(t):
    return ('call', 'new Collector', None, (), (('tag', t),), 0)


def check_access(ctx):
    def ex(n):
        f, I, rows, a = run_m(ctx, n)
        ctx.conform('C31.exists', f.qual, flat(rows), lambda q: TRUE if q(tracked(sym(a[0]))) else FALSE, f.where())
    for n in ('exists', '__contains__'):
        ctx.guard('C31.exists', '%s.%s' % (P, n), lambda n=n: ex(n))

    def gi():
        f, I, rows, a = run_m(ctx, 'getitem')
        d = f.node.args.defaults
        ctx.need('C31.get', f.qual, len(a) == 2 and len(d) == 1 and getattr(d[0], 'value', 0) is None, 'does not give None by default', f.where())
        ctx.conform('C31.get', f.qual, flat(rows), lambda q: newc(sym(a[0])) if q(tracked(sym(a[0]))) else sym(a[1]), f.where())
    ctx.guard('C31.get', P + '.getitem', gi)

    def ga():
        f, I, rows, a = run_m(ctx, '__getattr__')
        t = sym(a[0])

        def want(q):
            if q(truth(('call', '.startswith', t, (C('_'),), (), 0))) or not q(tracked(t)):
                return NONE
            if q(truth(('call', '.endswith', t, (C('s'),), (), 0))):
                return newc(t)
            return ('load', t)
        out = []
        for s, o in flat(rows):
            last = [v for a, v in s.facts.items() if a[0] == 'eq' and {a[1], a[2]} == {item(t, C(-1)), C('s')}]
            if last:
                s = s.copy()
                s.facts[truth(('call', '.endswith', t, (C('s'),), (), 0))] = last[0]
            if o[0] == 'boundm' or o[0] == 'bm' or 'load' in show(o):
                r = [x for x in walk(o) if x[:2] == ('call', 'new Collector')]
                if len(r) == 1 and isload(o, r[0]):
                    o = ('load', dict(r[0][4]).get('tag'))
            out.append((s, o))
        ctx.conform('C31.attr', f.qual, out, want, f.where())
    ctx.guard('C31.attr', P + '.__getattr__', ga)


def isload(o, recv):
    """The load method of a collector."""
    return o[-1] != recv and (o[0] == 'attr' and o[2] == 'load' or o[0] == 'bm' and 'Collector.load' in str(o))


def generic(s, coll):
    """(tag, collector) of the generic element of what is gone through."""
    c = unver(strip_view(coll))
    if c == ITEMS:
        return item(E0, C(0)), [item(E0, C(1))]
    if c == KEYS:
        return E0, [newc(E0)]
    if c == VALUES:
        return attr(E0, 'tag'), [E0]
    return None


def pairs(t):
    """The same in terms of the pairs, when it is written from a dictionary made of them."""
    V = item(ITEMS, E0)
    if not mentions(t, lambda x: x == V):
        return t
    V1 = ('elem', -1)
    t = subst_deep(t, lambda x: V1 if x == V else None)
    t = subst_deep(t, lambda x: item(E0, C(0)) if x == E0 else None)
    return subst_deep(t, lambda x: item(E0, C(1)) if x == V1 else None)


def zero(rec):
    return lambda t: unver(subst_deep(t, lambda x: ('elem', 0) if x == ('elem', rec.lid) else None))


def loops_of(s):
    return [e.label for e in s.events() if e.kind == 'loop' and e.label.coll is not None]


def ordered(rec, g):
    """Are the collectors gone through in the order of their tags?"""
    o = rec.order
    return o is not None and o[0] == 'call' and o[1] == 'sorted' and len(o[3]) == 1 and not o[4] and g[0] != attr(E0, 'tag')


def check_listing(ctx):
    rid = 'C31.listing'

    def cl():
        f, I, rows, _ = run_m(ctx, 'catlist')
        for s, o in rows:
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % o[1], f.where(), taint=o[1].name is None)
                continue
            src = o
            back = sortedof(o)
            if back is not None:
                src = back
            for s2, p in sequences(I, s, src):
                g = generic(s2, p[1]) if p[0] == 'gen' else None
                if g is None:
                    ctx.need(rid, f.qual, False, 'is made from %s' % (show(p[1]) if p[0] == 'gen' else p[1],), f.where(), taint=p[0] == 'gen' and tainted(p[1]))
                    continue
                k, vs = g
                for v in vs:
                    want = ('tup', (('call', 'len', None, (v,), (), 0), strcat(k, C('s')), v))
                got = [(pairs(unver(x)), cs) for x, cs in p[2]]
                ctx.need(rid, f.qual, got == [(want, [])], 'a collector gives %s' % [(show(x), [showfact(a, w) for a, w in cs]) for x, cs in got], f.where(), taint=any(tainted(x) for x, _ in got))
                recs = [r for r in loops_of(s2) if unver(strip_view(r.coll)) == unver(strip_view(p[1]))]
                ctx.need(rid, f.qual, bool(recs) and all(ordered(r, g) for r in recs), 'the collectors are not listed in the order of their names', f.where(), taint=back is not None and (bool(o[4]) and dict(o[4]).get('key', NONE) != NONE or not p[2] or unver(p[2][0][0])[:1] != ('tup',)))
    ctx.guard(rid, P + '.catlist', cl)

    def om():
        f, I, rows, _ = run_m(ctx, 'objectsmap')
        for s, o in rows:
            ops = s.ops(o) if o[0] == 'ref' else ()
            each = [op for op in ops if op[0] == 'each']
            if o[0] == 'exc' or len(each) != 1 or any(op[0] not in ('each', 'lit') for op in ops):
                ctx.need(rid, f.qual, False, 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] == 'ref')
                continue
            rec = each[0][2]
            g = generic(s, rec.coll)
            if g is None:
                ctx.need(rid, f.qual, False, 'is made from %s' % show(rec.coll), f.where(), taint=tainted(rec.coll))
                continue
            z = zero(rec)
            for e in rec.edges:
                got = [(op[0],) + tuple(pairs(z(x)) for x in op[1:3]) for op in each[0][3](e)]
                want = [[('set', strcat(g[0], C('s')), ('call', '.instances', v, (), (), 0))] for v in g[1]] + [[('set', strcat(g[0], C('s')), ('call', 'Collector.instances', v, (), (), 0))] for v in g[1]]
                ctx.need(rid, f.qual, e.kind == 'next' and got in want, 'a collector gives %s when [%s]' % ([[show(x) for x in op[1:]] for op in got], '; '.join(showfact(a, v) for a, v in e.conds)), f.where(), taint=any(tainted(x) for op in got for x in op[1:]))
    ctx.guard(rid, P + '.objectsmap', om)

    def it():
        f, I, rows, _ = run_m(ctx, '__iter__')
        for s, o in rows:
            ok = None
            if o[0] == 'ref':
                ops = s.ops(o)
                if len(ops) == 1 and ops[0][0] in ('copy', 'ext'):
                    ok = unver(strip_view(ops[0][1])) == VALUES
                else:
                    ps = sequences(I, s, o)
                    ok = all(p[0] == 'gen' and generic(s2, p[1]) is not None and len(p[2]) == 1 and unver(p[2][0][0]) in generic(s2, p[1])[1] and not p[2][0][1] for s2, p in ps) or None
            elif o[0] == 'call':
                ok = unver(strip_view(o)) == VALUES
            ctx.need('C31.iter', f.qual, bool(ok), 'goes through %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=ok is None and o[0] != 'exc')
    ctx.guard('C31.iter', P + '.__iter__', it)


def sortedof(o):
    return o[3][0] if o[0] == 'call' and o[1] == 'sorted' and len(o[3]) == 1 else None


def check_printed(ctx):
    rid = 'C31.printed'

    def go(n, size, shown):
        f, I, rows, _ = run_m(ctx, n, True)
        for s, o in rows:
            recs = loops_of(s)
            recs = [r for r in recs if any(e.kind == 'call' and e.label == 'print' for x in r.edges for e in x.events())]
            if o[0] == 'exc' or len(recs) != 1:
                ctx.need(rid, f.qual, False, 'raises %s' % o[1] if o[0] == 'exc' else 'prints in %d loops' % len(recs), f.where(), taint=o[0] != 'exc' and bool(loops_of(s)))
                continue
            rec = recs[0]
            g = generic(s, rec.coll)
            if g is None:
                ctx.need(rid, f.qual, False, 'goes through %s' % show(rec.coll), f.where(), taint=tainted(rec.coll))
                continue
            z = zero(rec)
            for e in rec.edges:
                pr = [[z(a) for a in ev.args] for ev in e.events() if ev.kind == 'call' and ev.label == 'print']
                facts = '; '.join(showfact(a, v) for a, v in e.conds)
                ctx.need(rid, f.qual, e.kind == 'next' and len(pr) == 1, 'prints %d lines for a collector when [%s]' % (len(pr), facts), f.where(), taint=len(pr) > 1)
                if len(pr) != 1:
                    continue
                t = ('tup', tuple(pr[0]))
                ok = mentions(t, lambda x: x == strcat(g[0], C('s'))) or mentions(t, lambda x: x[0] == 'strcat' and any(x[1][i:i + 2] == (g[0], C('s')) or x[1][i] == g[0] and i + 1 < len(x[1]) and is_c(x[1][i + 1]) and str(cval(x[1][i + 1])).startswith('s') for i in range(len(x[1]))))
                ctx.need(rid, f.qual, ok, 'a line does not tell the name of the collector: %s' % [show(a) for a in pr[0]], f.where(), taint=tainted(t))
                ctx.need(rid, f.qual, any(mentions(t, lambda x: x == y) for y in size(g)), 'a line does not tell how many it holds: %s' % [show(a) for a in pr[0]], f.where(), taint=tainted(t))
                ctx.need(rid, f.qual, any(a == y for a in pr[0] for y in shown(g)) or any(mentions(('tup', (a,)), lambda x: x[0] == 'strcat' and y in x[1] or x[0] == 'call' and x[1] in ('.format', 'str', 'repr') and y in x[3] or x[0] == 'bin' and x[1] == '%' and (y == x[3] or x[3][0] == 'tup' and y in x[3][1])) for a in pr[0] for y in shown(g)), 'a line does not show what it holds: %s' % [show(a) for a in pr[0]], f.where(), taint=tainted(t))
    inst = lambda g: [('call', l, v, (), (), 0) for v in g[1] for l in ('.instances', 'Collector.instances')]
    ln = lambda t: ('call', 'len', None, (t,), (), 0)
    ctx.guard(rid, P + '.cat', lambda: go('cat', lambda g: [ln(v) for v in g[1]], lambda g: g[1]))
    ctx.guard(rid, P + '.objects', lambda: go('objects', lambda g: [ln(x) for x in inst(g)], inst))


def run(ctx):
    ctx.rule('C31.table', 'the module functions get, keys, values and items of a module give the entries of the table of its own class')
    ctx.rule('C31.exists', 'a proxy tells that a name exists when the name without its plural is the tag of a collector')
    ctx.rule('C31.get', 'reading a name in a proxy gives the collector of that tag, or the value proposed when there is none')
    ctx.rule('C31.attr', 'an attribute of a proxy is the collector of that tag (plural), its load method (singular), or nothing for a private or unknown name')
    ctx.rule('C31.listing', 'the listings of a proxy hold one entry per collector, under its plural name: its size and itself, in the order of the names, or the objects it follows')
    ctx.rule('C31.iter', 'iterating over a proxy goes through all the collectors')
    ctx.rule('C31.printed', 'the printed listings of a proxy show one line per collector: its plural name, how many it holds and what')
    ctx.guard('C31.table', 'module tables', lambda: check_tables(ctx))
    check_access(ctx)
    check_listing(ctx)
    check_printed(ctx)
