"""What a footprint, a class or a collector answers about definitions."""
from .searching import *

MINIMA = {'C28.mandatory': 2, 'C28.keys': 6, 'C28.track': 4, 'C28.answers': 8, 'C28.collector': 10, 'C28.show': 8}
CLS = sym('cls')
A = sym('a')
FPT = {SELF: ('inst', 'Footprint')}


def known(q, key, base=ATTRS):
    """Is key an attribute or an alias?"""
    return q(isin(key, base)) or q(exists(base, lambda b: [[(isin(key, item(item(base, b), 'alias')), True)]]))


def check_members(ctx, rid, qual, args, want, types=FPT):
    f = ctx.repo.func(qual)

    def go():
        I = ctx.interp(types=types)
        _, rows = execute(ctx, I, qual, args)
        outs = outcomes(rows)
        for s, o in outs:
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
        ctx.conform(rid, f.qual, members(I, [x for x in outs if x[1][0] != 'exc'], lambda v: v), lambda q: TRUE if want(q) else FALSE, f.where())
    ctx.guard(rid, f.qual, go)


def check_mandatory(ctx):
    rid = 'C28.mandatory'
    f = ctx.repo.func('Footprint.mandatory')

    def go():
        I = ctx.interp(types=FPT)
        _, rows = execute(ctx, I, f.qual, {'self': SELF})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where())
                continue
            check_seq(ctx, rid, f.qual, I, s, o, ATTRS, lambda q: [] if q(truth(decl(E0, 'optional'))) else [E0], f.where())
    ctx.guard(rid, f.qual, go)


def check_answers(ctx):
    rid = 'C28.answers'
    simple(ctx, rid, 'Footprint.optional', {'self': SELF, 'a': A}, lambda q: decl(A, 'optional'), FPT)
    cfp = attr(CLS, '_footprint')
    cattr = lambda f: item(item(item(attr(cfp, '_fp'), 'attr'), sym('attrname')), f)
    ct = {CLS: ('type', 'FootprintBase')}
    simple(ctx, rid, 'FootprintBase.footprint_optional', {'cls': CLS, 'a': A}, lambda q: decl(A, 'optional', item(attr(cfp, '_fp'), 'attr')), ct)
    simple(ctx, rid, 'FootprintBase.footprint_mandatory', {'cls': CLS}, lambda q: call('Footprint.mandatory', cfp), ct, opaque={'Footprint.mandatory'})
    simple(ctx, rid, 'FootprintBase.footprint_retrieve', {'cls': CLS, 'kw': sym('kw')}, lambda q: cfp, ct)
    simple(ctx, rid, 'FootprintBase.footprint_pl', {'cls': CLS}, lambda q: item(item(attr(cfp, '_fp'), 'priority'), 'level'), ct)
    simple(ctx, rid, 'FootprintBase.footprint_level', {'cls': CLS}, lambda q: attr(item(item(attr(cfp, '_fp'), 'priority'), 'level'), 'tag'), ct)
    simple(ctx, rid, 'FootprintBase.footprint_reusable', {'cls': CLS}, lambda q: attr(CLS, '_reusable'), ct)
    simple(ctx, rid, 'FootprintBase.footprint_abstract', {'cls': CLS}, lambda q: attr(CLS, '_abstract'), ct)

    def access(q):
        v = cattr('access')
        if q(isinst(v, ('cls', 'FootprintAttrDescriptor'))):
            return attr(v, 'access_mode')
        return v
    simple(ctx, rid, 'FootprintBase.footprint_access', {'cls': CLS, 'attrname': sym('attrname')}, access, ct)
    AN = sym('attrname')
    check_members(ctx, rid, 'FootprintBase.footprint_values', {'cls': CLS, 'attrname': AN}, lambda q: q(isin(K, cattr('values'))), ct)
    check_members(ctx, rid, 'Footprint.get_values', {'self': SELF, 'attrname': AN}, lambda q: q(isin(K, decl(AN, 'values'))))
    check_members(ctx, rid, 'Footprint.get_outcast', {'self': SELF, 'attrname': AN}, lambda q: q(isin(K, decl(AN, 'outcast'))))
    for p in ('attr', 'only', 'priority', 'info'):
        simple(ctx, rid, 'Footprint.' + p, {'self': SELF}, lambda q: item(FP, p), FPT)
    simple(ctx, rid, 'Footprint.level', {'self': SELF}, lambda q: item(item(FP, 'priority'), 'level'), FPT)


def check_all_values(ctx):
    """Collector.get_values"""
    rid = 'C28.collector'
    f = ctx.repo.func('Collector.get_values')
    AN = sym('attrname')
    catt = lambda b: item(attr(attr(b, '_footprint'), '_fp'), 'attr')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'attrname': AN})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            inner = o[3][0] if o[0] == 'call' and o[1] == 'sorted' and not o[4] else o
            ctx.conform(rid, f.qual, members(I, [(s, inner)], lambda v: v),
                        lambda q: TRUE if q(exists(ITEMS, lambda b: [[(isin(AN, catt(b)), True), (isin(K, item(item(catt(b), AN), 'values')), True)]])) else FALSE, f.where())
    ctx.guard(rid, f.qual, go)


def check_attrmap(ctx):
    rid = 'C28.collector'
    f = ctx.repo.func('Collector.build_attrmap')

    def one(only, st):
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'attrmap': NONE, 'only': only}, st)
        where = f.where()
        for s, o in outcomes(rows):
            loops = [e.label for e in s.events() if e.kind == 'loop' and strip_view(e.label.coll or NONE) == ITEMS]
            ctx.need(rid, f.qual, len(loops) == 1 and o[0] != 'exc', 'the collected classes are not gone through', where, taint=len(loops) > 1)
            for rec in loops:
                cl = ('elem', rec.lid)
                for ed in rec.edges:
                    inner = [e.label for e in ed.events() if e.kind == 'loop' and e.label.coll is not None and strip_view(e.label.coll) == item(attr(attr(cl, '_footprint'), '_fp'), 'attr')]
                    facts = '; '.join(showfact(a, v) for a, v in ed.conds)
                    n = [x for x in inner if any(entries(x, e2) for e2 in x.edges)]
                    ctx.need(rid, f.qual, ed.kind == 'next' and len(n) == 1, 'the attributes of a class are not gone through when [%s]' % facts, where, taint=len(n) > 1)
                    for x in n:
                        check_entries(ctx, rid, f, I, x, cl, only, where)

    def go():
        one(NONE, State())
        only = sym('only')
        st = State().assume(isnone(only), False, False).assume(has(only, '__contains__'), True, False)
        st = st.assume(isinst(only, ('builtin', 'str')), False, False) or st
        one(only, st)
        # a single name
        name = call('str', None, sym('name'))
        one(name, State().assume(has(name, '__contains__'), True, False).assume(isinst(name, ('builtin', 'str')), True, False))
        # a map that is given is completed
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        st = State().assume(isnone(sym('attrmap')), False, False)
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'attrmap': sym('attrmap'), 'only': NONE}, st)
        for s, o in outcomes(rows):
            o = o[1] if o[0] == 'at' else o
            ctx.need(rid, f.qual, o == sym('attrmap'), 'the map that is given is not completed: gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))
    ctx.guard(rid, f.qual, go)


def entries(rec, ed):
    """Entries (dictionaries) put in lists by an iteration: [(list, entry)]"""
    out = []
    for b in ed.st.heap:
        if ed.st.kind(b) == 'dict':
            continue
        for op in rec.delta(ed, b):
            if op[0] in ('app', 'add') and ed.st.kind(op[1]) == 'dict':
                out.append((b, op[1]))
    return out


def compatible(ed, atom, v):
    return ed.st.decide(atom) in (None, v)


def check_entries(ctx, rid, f, I, rec, cl, only, where):
    E = ('elem', rec.lid)
    dc = lambda fld: item(item(item(attr(attr(cl, '_footprint'), '_fp'), 'attr'), E), fld)
    asked = mk_eq(E, only) if only[0] == 'call' else isin(E, only)
    for opt in (True, False):
        ways = [ed for ed in rec.edges if (only == NONE or compatible(ed, asked, True)) and compatible(ed, truth(dc('optional')), opt)]
        ctx.need(rid, f.qual, bool(ways), 'the %s attributes are left out' % ('optional' if opt else 'mandatory'), where)
    for ed in rec.edges:
        got = entries(rec, ed)
        facts = '; '.join(showfact(a, v) for a, v in ed.conds)
        keys = []
        for b, d in got:
            if b[0] in ('item', 'itemv'):
                keys.append(b[2])
            for b2 in ed.st.heap:
                if ed.st.kind(b2) == 'dict':
                    keys += [op[1] for op in rec.delta(ed, b2) if op[0] in ('set', 'setdef') and op[2] == b]

        def want(q):
            return (only == NONE or q(asked)), q(truth(dc('optional')))
        for s, (listed, opt) in completions(ed.st, want):
            ctx.need(rid, f.qual, len(got) == (1 if listed else 0), 'an attribute %s in the map when [%s]' % ('is' if got else 'is not', facts), where)
            if not (got and listed):
                continue
            ok = {('strcat', (E, C(' [optional]')))} if opt else {E, call('str', None, E)}
            ctx.need(rid, f.qual, bool(keys) and set(keys) <= ok, 'an attribute is listed under %s when [%s]' % ([show(k) for k in keys], facts), where, taint=not keys)
            d = got[0][1]
            for name, val in (('name', attr(cl, '__name__')), ('module', attr(cl, '__module__'))):
                for s2, has_, v in I.lookup(s, d, C(name)):
                    ctx.need(rid, f.qual, has_ and v == val, 'the %s listed is %s' % (name, show(v) if has_ else 'absent'), where)
            for name in ('values', 'outcast'):
                for s2, has_, v in I.lookup(s, d, C(name)):
                    if not has_:
                        ctx.need(rid, f.qual, False, 'the %s are not listed' % name, where)
                        continue
                    for s3, m in I.member(s2, K, v):
                        for s4, w in completions(s3, lambda q: q(isin(K, dc(name)))):
                            ctx.need(rid, f.qual, m == w, 'the %s listed are %s' % (name, show(v)), where, taint=tainted(v))


def prints_of(evs):
    return [e for e in evs if e.kind == 'call' and e.label == 'print']


def told(e):
    return tuple(e.args) + tuple(v for k, v in e.kw)


def shows(edge):
    return any(e.kind == 'call' and e.label == 'print' or e.kind == 'loop' and any(shows(x) for x in e.label.edges) for e in edge.events())


def loops_of(evs, coll):
    """The loops over a collection that show something, and whether one goes through a part of it only."""
    out, cut = [], False
    for e in evs:
        if e.kind == 'loop' and e.label.coll is not None:
            c = strip_at(strip_view(e.label.coll))
            if c[0] == 'view' and c[1] == 'items':
                c = strip_at(strip_view(c[2]))
            if c == coll and any(shows(x) for x in e.label.edges):
                out.append(e.label)
            elif c[0] == 'call' and c[1] in ('slice', 'itertools.islice', 'islice') and mentions(c, lambda x: x == coll):
                cut = True
    return out, cut


def check_show(ctx):
    """Every attribute of the map is listed, and for show_attrmap every class that has it with what it declares."""
    R = 'C28.show'
    only = sym('only')
    for name in ('show_attrmap', 'show_attrkeys'):
        f = ctx.repo.func('Collector.' + name)

        def go():
            I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.build_attrmap'}, prints=True)
            _, rows = execute(ctx, I, f.qual, {'self': SELF, 'only': only})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    ctx.need(R, f.qual, o[1].term is not None and not tainted(o[1].term) and False, 'raises %s' % (o[1],), f.where(), taint=True)
                    continue
                maps = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.build_attrmap']
                ctx.need(R, f.qual, len(maps) == 1 and maps[0].recv == SELF, 'looks at %d attribute maps' % len(maps), f.where())
                if len(maps) != 1:
                    continue
                given = dict(maps[0].kw).get('only', maps[0].args[1] if len(maps[0].args) > 1 else NONE)
                ctx.need(R, f.qual, given == only, 'shows the attributes of %s, not those asked for' % show(given), f.where(), taint=tainted(given))
                M = strip_at(maps[0].res)
                ls, cut = loops_of(s.events(), M)
                ctx.need(R, f.qual, len(ls) == 1, 'goes through a part of the attributes' if cut else 'goes %d times through the attributes' % len(ls), f.where(), taint=not cut)
                for rec in ls:
                    E = ('elem', rec.lid)
                    check_all(ctx, R, f, s, M)
                    for ed in rec.edges:
                        ps = prints_of(ed.events())
                        facts = '; '.join(showfact(a, v) for a, v in ed.conds)
                        made = made_of(ed.st, E, M)
                        ok = ed.kind == 'next' and sum(1 for p in ps if mentions(told(p), made)) == 1
                        ctx.need(R, f.qual, ok, 'an attribute is not listed once when [%s]' % facts, f.where(), taint=any(tainted(a) and not on_word(a, made) for a, v in ed.conds))
                        if name == 'show_attrkeys':
                            said = [x for p in ps for x in told(p) if mentions(x, made)]
                            words = [words_of(x, made) for x in said]
                            got = set().union(*[w for w in words if w is not None]) if words else set()
                            ctx.need(R, f.qual, None in words or len(got) > 1 and 0 in got, 'the name or the mark of an attribute is left out: gives %s' % ', '.join(map(show, said)), f.where(),
                                     taint=not ok)
                        else:
                            check_classes(ctx, R, f, I, ed, item(M, E), rec)
        ctx.guard(R, f.qual, go)


def made_of(st, E, coll):
    """Is a term the attribute gone through, or something made out of it?"""
    same_ = {('elem', op[2].lid) for k, ops in st.heap.items() for op in ops[1] if op[0] == 'each' and op[2].coll is not None and strip_at(strip_view(op[2].coll)) == coll}

    def made(x):
        return x == E or x in same_ or x[0] == 'ref' and any(mentions(op, made) for op in st.ops(x))
    return made


def check_all(ctx, R, f, s, coll):
    """A list made out of the attributes holds one thing for each."""
    for base, (kind, ops) in s.heap.items():
        for op in ops:
            if op[0] == 'each' and op[2].coll is not None and strip_at(strip_view(op[2].coll)) == coll and any(op[2].delta(ed, base) for ed in op[2].edges):
                for ed in op[2].edges:
                    n = len(op[2].delta(ed, base))
                    ctx.need(R, f.qual, ed.kind == 'next' and n > 0, 'an attribute is left out when [%s]' % '; '.join(showfact(a, v) for a, v in ed.conds), f.where(), taint=any(tainted(a) for a, v in ed.conds))


def word(x, made):
    return x[0] in ('item', 'itemv') and x[2][0] == 'c' and isinstance(x[2][2], int) and mentions(x[1], made)


def on_word(a, made):
    return mentions(a, lambda x: word(x, made) and x[2][2] != 0)


def words_of(t, made):
    """Which words of the key are in a term (None when the whole of it may be)."""
    got = set()

    def f(x):
        if word(x, made):
            got.add(x[2][2])
            return NONE
    rest = subst_deep(t, f)
    return None if mentions(rest, made) else got


def check_classes(ctx, R, f, I, ed, infos, rec):
    ls, cut = loops_of(ed.events(), infos)
    ctx.need(R, f.qual, len(ls) == 1, 'goes through a part of the classes' if cut else 'goes %d times through the classes that have an attribute' % len(ls), f.where(), taint=not cut)
    for r2 in ls:
        N = ('elem', r2.lid)
        for e2 in r2.edges:
            ps = prints_of(e2.events())
            facts = '; '.join(showfact(a, v) for a, v in e2.conds)
            for fld in ('name', 'module'):
                ok = e2.kind == 'next' and sum(1 for p in ps if mentions(told(p), lambda x: x[0] in ('item', 'itemv') and strip_at(x[1]) == N and x[2] == C(fld))) == 1
                ctx.need(R, f.qual, ok, 'the %s of a class is not shown once when [%s]' % (fld, facts), f.where(), taint=any(tainted(a) for a, v in e2.conds))
            l3, cut3 = loops_of(e2.events(), N)
            direct = [fld for fld in ('values', 'outcast') if not l3]
            if direct:
                ctx.undec(R, f.qual, 'pieces shown one by one')
                continue
            ctx.need(R, f.qual, len(l3) == 1, 'goes %d times through the pieces of a class' % len(l3), f.where(), taint=True)
            for r3 in l3:
                P = ('elem', r3.lid)
                held = item(N, P)
                for piece in ('values', 'outcast'):
                    for full in (True, False):
                        ways = 0
                        for e3 in r3.edges:
                            if any(a == mk_eq(P, C(x)) and v != (x == piece) for a, v in e3.conds for x in ('name', 'module', 'values', 'outcast')):
                                continue
                            st = e3.st.assume(mk_eq(P, C(piece)), True)
                            st = st.assume(truth(held), full) if st is not None else None
                            st = st if st is None or all(st.decide(a) in (None, v) for a, v in e3.conds if a[0] != 'phi') else None
                            if st is None or any(a[0] == 'in' and a[1] == P and a[2][0] == 'tup' and v != (C(piece) in a[2][1]) for a, v in e3.conds):
                                continue
                            if any(a == truth(held) and v != full for a, v in e3.conds):
                                continue
                            ways += 1
                            ps = [p for p in prints_of(e3.events()) if mentions(told(p), lambda x: x == P)]
                            n = len(ps)
                            ctx.need(R, f.qual, e3.kind == 'next' and n == (1 if full else 0), 'the %s%s of a class are shown %d times' % ('' if full else 'empty ', piece, n), f.where(),
                                     taint=any(tainted(a) for a, v in e3.conds))
                            for p in ps:
                                ctx.need(R, f.qual, mentions(told(p), lambda x: x[0] in ('item', 'itemv', 'getd') and strip_at(x[1]) == N and x[2] == P), 'something else than the %s is shown' % piece, f.where(),
                                         taint=any(tainted(x) for x in told(p)))
                        ctx.need(R, f.qual, ways or not full, 'the %s of a class are left out' % piece, f.where())


def run(ctx):
    ctx.rule('C28.show', 'the attributes shown are those of the attribute map, each once, with every class that has it and what it declares')
    check_show(ctx)
    ctx.rule('C28.mandatory', 'the mandatory attributes are those not declared optional')
    ctx.rule('C28.keys', 'the known keys and the options are the attributes and their aliases')
    ctx.rule('C28.track', 'tracking lists the entries that are an attribute or an alias')
    ctx.rule('C28.answers', 'each question gives the declared piece')
    ctx.rule('C28.collector', 'values and attribute map of a collector give what each class declares')
    check_mandatory(ctx)
    check_members(ctx, 'C28.keys', 'Footprint.allkeys', {'self': SELF}, known_K)
    check_members(ctx, 'C28.keys', 'Footprint.as_opts', {'self': SELF}, known_K)
    check_members(ctx, 'C28.track', 'Footprint.track', {'self': SELF, 'desc': DESC}, lambda q: q(isin(K, DESC)) and known_K(q))
    check_answers(ctx)
    check_all_values(ctx)
    check_attrmap(ctx)


def known_K(q):
    return known(q, K)
