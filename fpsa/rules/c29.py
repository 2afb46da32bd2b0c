"""The module-level functions and the collectors."""
from .searching import *

MINIMA = {'C29.route': 12, 'C29.grep': 2, 'C29.every': 5, 'C29.tag': 1}
COLLS = ('call', '.tag_values', ('cls', 'Collector'), (), (), 0)
GARBAGE = C('garbage')


def of_collectors(coll):
    """How an element of coll stands for a collector: a function of the element, or None."""
    c = strip_view(coll)
    while c[0] == 'call' and c[1] in ('sorted', 'reversed') and c[3]:
        c = strip_view(c[3][0])
    c = unver(c)
    if c == COLLS or c[0] == 'call' and c[1] == 'collectors:values':
        return lambda e: e
    if c[0] == 'call' and (c[1] == '.tag_items' and c[2] == ('cls', 'Collector') or c[1] == 'collectors:items'):
        return lambda e: item(e, C(1))
    return None


def check_route(ctx, name):
    rid = 'C29.route'
    f = ctx.repo.func('__init__:' + name)
    default = [n for n in ctx.repo.cls('Collector').node.body if getattr(getattr(n, 'targets', [None])[0], 'id', '') == '_tag_default']
    isgarbage = len(default) == 1 and getattr(default[0].value, 'value', None) == 'garbage'

    def go():
        meth = 'Collector.' + name
        I = ctx.interp(opaque={'collectors:get'} | {'Collector.' + n for n in ('pickup', 'load', 'default', 'grep')})
        st = State()
        if name == 'pickup':
            p = f.node.args.args[0].arg
            d = sym(p)
            args = {p: d}
        else:
            p = f.node.args.kwarg.arg
            d = I.alloc(st, 'dict')
            st.push(d, ('upd', sym('KW')))
            args = {p: d}
        given = d if name == 'pickup' else sym('KW')
        _, rows = execute(ctx, I, f.qual, args, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            good = o[0] == 'call' and o[1] == meth and o[2][0] == 'call' and o[2][1] == 'collectors:get'
            ctx.need(rid, f.qual, good, 'gives %s' % show(o), f.where(), taint=tainted(o))
            if not good:
                continue
            tag = dict(o[2][4]).get('tag')

            def want(q):
                return item(given, 'tag') if q(isin(C('tag'), given)) else GARBAGE
            s0 = s.copy()
            if name == 'pickup':
                s0.heap = {b: v for b, v in s.heap.items() if b != d}
            for s2, w in completions(s0, want):
                ok = tag == w or (isgarbage and w == GARBAGE and tag in (NONE, None))
                ctx.need(rid, f.qual, ok, 'works on the collector of tag %s when the description %s a tag' % (show(tag or NONE), 'has' if w != GARBAGE else 'does not have'), f.where(), taint=tainted(tag or NONE))
            kw = dict(o[4])
            passed = kw.get('desc') if name == 'pickup' else kw.get('**')
            extra = [k for k in kw if k not in ('desc', '**')] + list(o[3])
            if passed is None or extra:
                ctx.need(rid, f.qual, False, 'the collector is asked %s' % show(o), f.where())
                continue
            if name == 'pickup':
                ctx.need(rid, f.qual, passed == d or passed[0] == 'at' and passed[1] == d, 'the collector is given %s instead of the description' % show(passed), f.where(), taint=tainted(passed))
            check_rest(ctx, rid, f, I, s, passed, given)
    ctx.guard(rid, f.qual, go)


def check_rest(ctx, rid, f, I, s, passed, given):
    """Everything but the tag is passed on."""
    for s2, has_, v in I.lookup(s, passed, C('tag')):
        ctx.need(rid, f.qual, not has_, 'the tag stays in the description given to the collector', f.where())
    s0 = s.assume(('eq', K, C('tag')), False, False)
    for s2, has_, v in I.lookup(s0, passed, K):
        for s3, w in completions(without(s2, given), lambda q: q(isin(K, given))):
            ctx.need(rid, f.qual, has_ == w and (not has_ or v == item(given, K)), 'an entry of the description is given as %s' % (show(v) if has_ else 'nothing'), f.where(), taint=has_ and tainted(v))


def without(s, b):
    s = s.copy()
    s.heap = {x: v for x, v in s.heap.items() if x != b}
    return s


def check_grep(ctx):
    rid = 'C29.grep'
    f = ctx.repo.func('__init__:grep')

    def go():
        I = ctx.interp(opaque={'Collector.grep'})
        st = State()
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', sym('KW')))
        _, rows = execute(ctx, I, f.qual, {f.node.args.kwarg.arg: kw}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            covers(ctx, rid, f, I, s, o, lambda c: c[0] == 'call' and c[1] == 'Collector.grep' and same_kw(I, s, c), 'the objects found by grep')
    ctx.guard(rid, f.qual, go)


def same_kw(I, s, c):
    kw = dict(c[4])
    if set(kw) != {'**'} or c[3]:
        return False
    return all(b and v == item(sym('KW'), K) or not b for _, b, v in I.lookup(s, kw['**'], K))


def covers(ctx, rid, f, I, s, o, good, what):
    """K in o iff K is in good(c) for some collector c."""
    for s2, b in I.member(s, K, o):
        ex = [(a, v) for a, v in s2.facts.items() if a[0] == 'exists' and mentions(a[2], lambda x: x == K)]
        ok = len(ex) == 1 and ex[0][1] == b
        if ok:
            (_, coll, dnf), v = ex[0]
            el = of_collectors(coll)
            conj = list(dnf)
            ok = el is not None and len(conj) == 1 and len(conj[0]) == 1
            if ok:
                (a, v2), = conj[0]
                bvs = [x for x in walk(a) if x[0] == 'bv']
                ok = v2 and a[0] == 'in' and a[1] == K and bool(bvs) and recv_of(a[2]) == el(bvs[0]) and good(a[2])
        ctx.need(rid, f.qual, ok, '%s are those of: %s' % (what, '; '.join(showfact(a, v) for a, v in ex) or show(o)), f.where(), taint=not ex and tainted(o))


def recv_of(t):
    if t[0] == 'attr' and t[2] == '_items':
        return t[1]
    if t[0] == 'call':
        return t[2]
    return None


def check_classes(ctx):
    rid = 'C29.every'
    f = ctx.repo.func('__init__:collected_classes')

    def go():
        I = ctx.interp()
        _, rows = execute(ctx, I, f.qual, {})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            covers(ctx, rid, f, I, s, o, lambda c: c[0] == 'attr' and c[2] == '_items', 'the classes given')
    ctx.guard(rid, f.qual, go)
    g = ctx.repo.func('__init__:collected_priorities')
    TAG = sym('tag')

    def go2():
        I = ctx.interp(opaque={'Collector.filter_higher_level', 'FootprintBase.fullname', 'FootprintBase.footprint_level'}, prints=True)
        _, rows = execute(ctx, I, g.qual, {'tag': TAG})
        lvl = ('call', '.level', ('glob', 'footprints.priorities', 'top'), (TAG,), (), 0)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, g.qual, False, 'raises %s' % (o[1],), g.where(), taint=o[1].name is None)
                continue
            loops = [e.label for e in s.events() if e.kind == 'loop' and any(x.kind == 'call' and x.label == 'print' for ed in e.label.edges for x in ed.events())]
            if len(loops) != 1:
                ctx.need(rid, g.qual, False, 'prints nothing' if not loops else 'prints in several loops', g.where(), taint=bool(loops))
                continue
            c = loops[0].coll
            while c[0] == 'call' and c[1] == 'sorted':
                c = c[3][0]
            isl = lambda x: unver(x) == lvl or x == TAG
            covers(ctx, rid, g, I, s, c, lambda t: t[0] == 'call' and t[1] == 'Collector.filter_higher_level' and isl((list(t[3]) + [v for _, v in t[4]])[0]), 'the priorities listed')
            for ed in loops[0].edges:
                ctx.need(rid, g.qual, ed.kind == 'next' and any(x.kind == 'call' and x.label == 'print' for x in ed.events()), 'a class is not listed when [%s]' % '; '.join(showfact(a, v) for a, v in ed.conds), g.where())
    ctx.guard(rid, g.qual, go2)
    h = ctx.repo.func('__init__:reset_package_priority')

    def go3():
        I = ctx.interp(opaque={'Collector.reset_package_level'})
        P = sym('packname')
        _, rows = execute(ctx, I, h.qual, {'packname': P, 'tag': TAG})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, h.qual, False, 'raises %s' % (o[1],), h.where(), taint=o[1].name is None)
                continue
            loops = [e.label for e in s.events() if e.kind == 'loop' and of_collectors(e.label.coll or NONE)]
            ctx.need(rid, h.qual, len(loops) == 1, 'the collectors are not gone through', h.where(), taint=len(loops) > 1)
            for rec in loops:
                c = of_collectors(rec.coll)(('elem', rec.lid))
                for ed in rec.edges:
                    done = [dict(e.kw) for e in ed.events() if e.kind == 'call' and e.label == 'Collector.reset_package_level' and e.recv == c]
                    ctx.need(rid, h.qual, ed.kind == 'next' and done == [{'packname': P, 'tag': TAG}], 'a collector is asked %s when [%s]' % (done, '; '.join(showfact(a, v) for a, v in ed.conds)), h.where())
    ctx.guard(rid, h.qual, go3)


SAMPLES = {'': '', 'garbage': 'garbage', 'Garbages': 'garbage', 'RESOURCES': 'resource', 's': '', 'Sos': 'so', 'class': 'cla', 'a s': 'a ', ' toto ': ' toto ', 'x_ys': 'x_y'}


def check_tag(ctx):
    rid = 'C29.tag'
    f = ctx.repo.func('Collector.tag_clean')

    def go():
        T = sym('tag')
        I = ctx.interp(types={sym('cls'): ('type', 'Collector')})
        first = f.node.args.args[0].arg
        arg = f.node.args.args[-1].arg
        a = {arg: T}
        if first != arg:
            a[first] = sym('cls')
        low = lambda x: ('call', '.lower', x, (), (), 0)
        strip = lambda x, cs: ('call', '.rstrip', x, (C(cs),), (), 0)
        forms = {strip(low(T), 's'), low(strip(T, 'sS')), low(strip(T, 'Ss')), strip(low(T), 'sS')}
        for s, o in outcomes(I.run(f, a, State())):
            if o[0] != 'exc' and unver(o) in forms:
                ctx.ok(rid, f.qual)
                continue
            for text, w in SAMPLES.items():
                for s2, o2 in outcomes(I.run(f, dict(a, **{arg: C(text)}), State())):
                    if is_c(o2) if o2[0] != 'exc' else False:
                        ctx.need(rid, f.qual, cval(o2) == w, 'the tag %r becomes %r' % (text, cval(o2)), f.where())
            ctx.undec(rid, f.qual, 'gives %s' % (show(o) if o[0] != 'exc' else o[1],))
    ctx.guard(rid, f.qual, go)
    n = ctx.repo.cls('Collector').methods.get('tag_clean')
    ctx.need(rid, f.qual, n is not None and n.is_classmethod or f.is_static, 'cannot be called on the class', f.where())


def run(ctx):
    ctx.rule('C29.route', 'pickup, load and default hand the rest of the description to the collector of the tag, and give what it gives')
    ctx.rule('C29.grep', 'grep gives what the grep of each collector gives')
    ctx.rule('C29.every', 'listings and resets go through every collector')
    ctx.rule('C29.tag', 'collector tags are cleaned of case and plural')
    for n in ('pickup', 'load', 'default'):
        check_route(ctx, n)
    check_grep(ctx)
    check_classes(ctx)
    check_tag(ctx)
