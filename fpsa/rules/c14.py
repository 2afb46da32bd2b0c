"""Live objects are tracked, dead ones are not retained."""
import ast

from .purity import *
from . import c09, defining
from .c17 import given as received

MINIMA = {'C14.announce': 6, 'C14.register': 8, 'C14.instances': 2, 'C14.weak': 2, 'C14.report': 8, 'C14.retain': 10}
TECHNIQUE = 'static analysis: path-sensitive abstract interpretation (typestate of the announcement, what holds a reference), and mod-ref effect analysis'
OBJ = {SELF: ('inst', 'FootprintBase')}
SCLS = attr(SELF, '__class__')


def tag_of(ctx):
    """The tag under which a class is observed."""
    f = ctx.repo.func('FootprintBase.fullname')
    I = ctx.interp(types={sym('cls'): ('type', 'FootprintBase')})
    rs = returned(I.run(f, {f.node.args.args[0].arg: sym('cls')}, State()))
    assert len(rs) == 1
    return lambda k: subst_deep(rs[0][1], lambda x: k if x == sym('cls') else None)


def is_board(t, tag):
    if t is None or t[0] != 'call' or t[1] != 'bronx.patterns.observer.get' or t[3]:
        return False
    kw = dict(t[4])
    k = kw.get('tag')
    return set(kw) == {'tag'} and k is not None and (k == tag(SCLS) or k[0] == 'call' and k[1].endswith('.fullname') and k[2] in (SELF, SCLS))


def announces(ctx, rid, qual, prepare, ready):
    f = ctx.repo.func(qual)

    def go():
        tag = tag_of(ctx)
        I = ctx.interp(types=OBJ, opaque={'Footprint.resolve'})
        st = State()
        args = prepare(f, I, st)
        rows = I.run(f, args, st)
        for s, o in outcomes(rows):
            evs = s.events()
            told = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.label in ('.notify_new', 'ObserverBoard.notify_new')]
            inloop = [x for e in evs if e.kind == 'loop' for ed in e.label.edges for x in ed.events() if x.kind == 'call' and x.label == '.notify_new']
            facts = '; '.join(showfact(a, v) for a, v in s.conds())
            if o[0] == 'exc':
                late = told and any(e.kind == 'raise' for e in evs[told[-1][0]:])
                ctx.need(rid, f.qual, not late, 'an object is announced though its construction fails when [%s]' % facts, f.where())
                continue
            ctx.need(rid, f.qual, len(told) == 1, 'an object is announced %d times when [%s]' % (len(told), facts), f.where(), taint=bool(inloop))
            if len(told) != 1:
                continue
            i, e = told[0]
            a = list(e.args) + [v for n, v in e.kw if n == 'item']
            ctx.need(rid, f.qual, a and a[0] == SELF, 'announces %s' % show(a[0] if a else NONE), f.where(), taint=bool(a) and tainted(a[0]))
            recv = e.recv
            if recv[0] == 'attrv' and recv[1] == SELF:     # a whole state has been written over in between
                past = [x for x in evs[:i] if x.kind == 'setattr' and x.label == recv[2] and x.recv == SELF]
                recv = past[-1].args[0] if past else recv
            elif recv[0] == 'attr' and recv[1] == SELF:
                ctx.need(rid, f.qual, False, 'the object is announced on %s, that is not set' % show(recv), f.where())
                continue
            ctx.need(rid, f.qual, is_board(recv, tag), 'announced on %s, that is not the board of its class' % show(recv), f.where(), taint=tainted(recv))
            for x in evs[i + 1:]:
                ctx.need(rid, f.qual, not ready(x), 'the object is announced before it is complete (%s %s afterwards)' % (x.kind, x.label), f.where())
    ctx.guard(rid, f.qual, go)


def check_announce(ctx):
    def build(f, I, st):
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', sym('KW')))
        return {'self': SELF, f.node.args.vararg.arg: sym('args'), f.node.args.kwarg.arg: kw}
    late = lambda e: e.kind == 'setattr' and e.label == '_attributes' and e.recv == SELF or e.kind == 'call' and e.label == 'Footprint.resolve' or e.kind == 'mut' and e.recv == SELF
    announces(ctx, 'C14.announce', 'FootprintBase.__init__', build, late)
    announces(ctx, 'C14.announce', 'FootprintBase.__setstate__', lambda f, I, st: {'self': SELF, f.node.args.args[1].arg: sym('state')}, late)


def check_register(ctx):
    """A collector that keeps track of its instances hears of those of the concrete classes."""
    rid = 'C14.register'
    D = defining.Define(ctx, docstrings=False)
    name = D.f.qual
    for rec in D.I.loops.values():
        if rec.coll is None or not c09.added(rec):
            continue
        coll = strip_view(rec.coll)
        real = coll[1] if coll[0] == 'attr' else None
        for e in rec.edges:
            got = c09.acts(e.events())
            facts = '; '.join(showfact(a, v) for a, v in e.conds)
            if e.kind != 'next':
                continue
            adds = [g for g in got if g[0] in ('add', 'abstract', '?')]
            if len(adds) != 1:
                ctx.need(rid, name, False, 'for one tag the class is added %d times' % len(adds), D.where, taint=True)
                continue
            c = adds[0][1]
            obs = [g for g in got if g[0] == 'observe']

            def want(q):
                return (not c09.abstract(q)) and bool(q(truth(attr(c, 'register'))))
            for s2, w in completions(e.st, want):
                good = all(g[1] == c and c09.observes(g[2], real) for g in obs) and (len(obs) == 1 if w else not obs)
                ctx.need(rid, name, good, 'the collector %s its instances announced when [%s]' % ('asks to have' if obs else 'does not ask to have', facts), D.where, taint=any(tainted(g[2]) for g in obs))


INST = attr(SELF, 'instances')


def check_instances(ctx):
    rid = 'C14.instances'
    for meth, lab in (('newobsitem', 'add'), ('delobsitem', 'discard')):
        f = ctx.repo.func('Collector.' + meth)

        def go():
            X = sym('item')
            I = ctx.interp(types={SELF: ('inst', 'Collector')})
            _, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.args[1].arg: X, f.node.args.args[2].arg: sym('info')})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                    continue
                acts = [(e.label.lstrip('.'), e.recv, e.args) for e in s.events() if e.kind in ('call', 'mut') and e.recv is not None and (e.recv in (INST, attr(INST, '_items')))]
                facts = '; '.join(showfact(a, v) for a, v in s.conds())
                known = any(a[0] == 'in' and a[1] == X and a[2] in (INST, attr(INST, '_items')) and v == (meth == 'newobsitem') for a, v in s.facts.items())
                ok = len(acts) == 1 and acts[0][0] in ((lab, 'remove') if meth == 'delobsitem' else (lab,)) and acts[0][2] == (X,) or not acts and known
                ctx.need(rid, f.qual, ok, 'does %s on the instances when [%s]' % ([a[0] for a in acts] or 'nothing', facts), f.where())
        ctx.guard(rid, f.qual, go)


def check_weak(ctx):
    rid = 'C14.weak'
    f = ctx.repo.func('Collector.__init__')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        for s, o in outcomes(I.run(f, {'self': SELF, f.node.args.kwarg.arg: sym('kw')}, State())):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            sets = [e.args[0] for e in s.events() if e.kind == 'setattr' and e.recv == SELF and e.label == 'instances']
            v = sets[-1] if sets else None
            ok = v is not None and v[0] == 'call' and v[1].endswith('catalog.Catalog') and dict(v[4]).get('weak', v[3][1] if len(v[3]) > 1 else FALSE) in (TRUE, C(1))
            ctx.need(rid, f.qual, ok, 'the instances are kept in %s' % (show(v) if v else 'nothing'), f.where(), taint=v is not None and tainted(v))
            reg = s.attrs.get((SELF, 'register'))
            given = reg is not None and reg[0] == 'getd' and reg[2] == C('register')
            ctx.need('C14.register', f.qual, given and is_c(reg[3]) and bool(cval(reg[3])) or reg is not None and is_c(reg) and bool(cval(reg)),
                     'a collector that was not told otherwise does not ask for its instances (register=%s)' % (show(reg) if reg else 'nothing'), f.where(), taint=reg is None or tainted(reg) or given and not is_c(reg[3]))
            for e in s.events():
                if e.kind == 'setattr' and e.recv == SELF and e.label != 'instances' and e.args[0] == v:
                    ctx.need(rid, f.qual, False, 'the instances are also .%s' % e.label, f.where())
    ctx.guard(rid, f.qual, go)
    # nothing else ever changes that catalog
    for mod in ctx.repo.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ('instances', 'weak'):
                fn = enclosing(ctx, mod, n)
                if fn is not None and fn.qual in private_to(ctx.repo, {'Collector.__init__'}) and n.attr == 'instances' or isinstance(n.value, ast.Name) and n.value.id == 'self' and fn is not None and fn.cls is not None and not related(ctx, fn.cls, 'Collector'):
                    continue
                ctx.need(rid, fn.qual if fn else mod.name, False, 'replaces .%s' % n.attr, '%s:%d' % (mod.rel, n.lineno))
    ctx.ok(rid, 'package')


def related(ctx, cls, name):
    return name in [c.name for c in ctx.repo.mro(cls)]


def enclosing(ctx, mod, n):
    best = None
    for f in ctx.repo.all_funcs():
        if f.module is mod and f.node.lineno <= n.lineno <= f.node.end_lineno:
            if best is None or f.node.lineno >= best.node.lineno:
                best = f
    return best


HOLDERS = ('list', 'tuple', 'set', 'dict', 'functools.partial', 'iter', 'reversed', 'sorted', 'enumerate', 'zip', 'copy.copy', 'property')


def holds(s, t, x, seen=(), I=None):
    """Does t keep x alive?"""
    if t == x:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'tup':
        return any(holds(s, e, x, seen, I) for e in t[1])
    if t[0] in ('bm', 'func'):
        return mentions(t, lambda y: y == x)
    if t[0] == 'clo' and I is not None and x[0] == 'sym':
        f, _, defs = I.closures[t[1]]
        own = {a.arg for a in f.node.args.args}
        return x in defs.values() or x[1] not in own and any(isinstance(n, ast.Name) and n.id == x[1] for b in f.node.body for n in ast.walk(b))
    if t[0] == 'call':
        if t[1] in HOLDERS:
            return any(holds(s, e, x, seen, I) for e in t[3]) or any(holds(s, v, x, seen, I) for _, v in t[4])
        return False
    if t[0] == 'at':
        t = t[1]
    if t[0] == 'ref' and t not in seen:
        return any(holds(s, e, x, seen + (t,), I) for op in s.ops(t) for e in op[1:] if isinstance(e, tuple))
    return False


def kept(s, x, I=None):
    """What is written that keeps x alive: [(where, event)]"""
    out = []
    for e in s.events():
        if e.kind == 'setattr' and any(holds(s, a, x, (), I) for a in e.args):
            out.append('.' + e.label)
        elif e.kind == 'mut' and e.recv[0] != 'ref' and (any(holds(s, a, x, (), I) for a in e.args) or any(holds(s, v, x, (), I) for _, v in e.kw)):
            out.append('%s of %s' % (e.label, show(e.recv)))
    return out


def check_report(ctx):
    rid = 'C14.report'
    N, P = sym('node'), sym('parent')
    for cls in ('FootprintLogCollector', 'FootprintLogClass'):
        f = ctx.repo.func(cls + '.__init__')
        kwname = f.node.args.kwarg.arg if f.node.args.kwarg else None
        for given in (None, TRUE, FALSE):
            def go():
                I = ctx.interp(types={SELF: ('inst', cls), P: ('inst', 'FootprintLogCollector')})
                st = State()
                st.heap = dict(st.heap)
                kw = I.alloc(st, 'dict')
                args = {'self': SELF, f.node.args.args[1].arg: N}
                names = [a.arg for a in f.node.args.args]
                if given is not None:
                    if 'weak' in names:
                        args['weak'] = given
                    else:
                        st.push(kw, ('set', C('weak'), given))
                if 'parent' in names:
                    args['parent'] = P
                if kwname:
                    args[kwname] = kw
                for s, o in outcomes(I.run(f, args, st)):
                    if o[0] == 'exc':
                        ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                        continue
                    k = kept(s, N, I)
                    if given == FALSE:
                        ctx.need(rid, f.qual, bool(k), 'the entry does not hold its node though strong references are asked for', f.where(), taint=True)
                        continue
                    ctx.need(rid, f.qual, not k, 'the node is kept alive by the entry (%s)' % ', '.join(k), f.where())
                    refs = [e for e in s.events() if e.kind == 'setattr' and any(mentions(a, lambda y: y[0] == 'call' and y[1] in ('weakref.ref', 'weakref.proxy') and y[3][:1] == (N,)) for a in e.args)]
                    ctx.need(rid, f.qual, bool(refs), 'the node is not referenced by the entry', f.where(), taint=True)
            ctx.guard(rid, f.qual, go)
    f = ctx.repo.func('FootprintLog.__init__')

    def go2():
        I = ctx.interp(types={SELF: ('inst', 'FootprintLog')})
        a = f.node.args
        defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        args = {'self': SELF}
        for n, d in list(defaults.items()) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults)]:
            args[n] = C(d.value) if isinstance(d, ast.Constant) else sym(n)
        g = ctx.repo.func('FootprintLog.weak')
        for s, o in outcomes(I.run(f, args, State())):
            I2 = ctx.interp(types={SELF: ('inst', 'FootprintLog')})
            st = State()
            st.attrs = dict(s.attrs)
            for s2, o2 in outcomes(I2.run(g, {'self': SELF}, st)):
                ctx.need(rid, f.qual, o2 in (TRUE, C(1)), 'reports do not use weak references by default (%s)' % showgot(o2), f.where(), taint=o2[0] == 'exc' or tainted(o2))
    ctx.guard(rid, f.qual, go2)
    f = ctx.repo.func('FootprintLog.add')

    def go3():
        X = sym('X')
        for what in ('collector', 'candidate'):
            I = ctx.interp(types={SELF: ('inst', 'FootprintLog')}, opaque={'FootprintLogCollector.__init__', 'FootprintLogClass.__init__', 'new FootprintLogCollector', 'new FootprintLogClass'})
            st = State().assume(isnone(X), False, False)
            kw = I.alloc(st, 'dict')
            st.push(kw, ('set', C(what), X))
            for s, o in outcomes(I.run(f, {'self': SELF, f.node.args.kwarg.arg: kw}, st)):
                if o[0] == 'exc':
                    continue
                new = [e for e in s.events() if e.kind == 'call' and e.label in ('new FootprintLogCollector', 'new FootprintLogClass')]
                ctx.need(rid, f.qual, len(new) == 1, '%d entries are made for a %s' % (len(new), what), f.where(), taint=True)
                for e in new:
                    for s2, b, w in received(I, s, e, C('weak')):
                        ok = not b or w in (TRUE, attr(SELF, 'weak'), attr(SELF, '_weak'))
                        ctx.need(rid, f.qual, ok, 'the entry of a %s is made with weak=%s' % (what, show(w or NONE)), f.where(), taint=b and tainted(w))
                k = kept(s, X, I)
                ctx.need(rid, f.qual, not k, 'a %s is kept by %s' % (what, ', '.join(k)), f.where())
    ctx.guard(rid, f.qual, go3)
    f = ctx.repo.func('Collector.__init__')

    def go4():
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        for s, o in outcomes(I.run(f, {'self': SELF, f.node.args.kwarg.arg: sym('kw')}, State())):
            for e in s.events():
                if e.kind == 'call' and e.label in ('new FootprintLog', 'reporting:get'):
                    w = dict(e.kw).get('weak', TRUE)
                    ctx.need(rid, f.qual, w in (TRUE, C(1)), 'the report of a collector is made with weak=%s' % show(w), f.where(), taint=tainted(w))
    ctx.guard(rid, f.qual, go4)


SEARCHES = ('find_any', 'find_all', 'find_best', 'pickup', 'pickup_and_cache', 'load', 'default', 'grep', 'almost_clone', 'newobsitem', 'delobsitem')
TRACKED = ('.report_log', '.instances')


def retains(root, path, what):
    """A write that outlives the call, elsewhere than in the instances and the reports."""
    if root[0] in ('global', 'class'):
        return True
    return root == ('param', 'self') and not any(p in TRACKED or p == '._footprint' or p.startswith('._observer') for p in path)


def check_retain(ctx):
    rid = 'C14.retain'
    for m in SEARCHES:
        forbid(ctx, rid, 'Collector.' + m, retains, 'something is kept by a search')
    for m in ('__init__', '__setstate__'):
        forbid(ctx, rid, 'FootprintBase.' + m, lambda r, p, w: r[0] in ('global', 'class') and '._footprint' not in p, 'something is kept by the construction of an object')
    for m in ('footprint_clone', 'footprint_as_dict', 'footprint_as_shallow_dict', 'footprint_export', 'footprint_compatible', 'footprint_couldbe', 'footprint_cleanup', 'footprint_riseup'):
        f = ctx.repo.cls('FootprintBase').methods.get(m)
        if f is not None:
            forbid(ctx, rid, f.qual, lambda r, p, w: r[0] in ('global', 'class') and '._footprint' not in p, 'something is kept')
    for m in ('add', 'add_collector', 'add_candidate', 'add_attribute', 'clear'):
        f = ctx.repo.cls('FootprintLog').methods.get(m)
        if f is not None:
            forbid(ctx, rid, f.qual, lambda r, p, w: r[0] in ('global', 'class'), 'something is kept by the reports')
    for c in ('FootprintBase', 'Collector', 'Footprint'):
        for name, f in ctx.repo.cls(c).methods.items():
            for d in f.node.decorator_list:
                txt = ast.unparse(d)
                ctx.need(rid, f.qual, 'cache' not in txt or c == 'Footprint', 'the results are cached (%s)' % txt, f.where())


def run(ctx):
    ctx.rule('C14.announce', 'each constructed or restored object is announced, once complete, exactly once, on the board of its class')
    ctx.rule('C14.register', 'at the definition of a concrete class, its collectors listen to the board of the class')
    ctx.rule('C14.instances', 'an announced object is added to the instances; it is removed only when said to be gone')
    ctx.rule('C14.weak', 'the instances are held by weak references')
    ctx.rule('C14.report', 'reports hold weak references on classes and collectors')
    ctx.rule('C14.retain', 'searches and constructions write nothing that lasts but the instances and the reports')
    check_announce(ctx)
    ctx.guard('C14.register', 'FootprintBaseMeta.__new__', lambda: check_register(ctx))
    check_instances(ctx)
    ctx.guard('C14.weak', 'package', lambda: check_weak(ctx))
    check_report(ctx)
    check_retain(ctx)
