"""The fast-track index of a collector never hides a class that could accept a description.

Indexing: for every fast-track attribute, a class is either put in the trap of that attribute, or indexed under all its
declared values (only if mandatory, restricted, not remapped, of the recorded type), or the attribute is withdrawn.
Sub-setting: only intersections of (indexed under the value or its conversion, present in the index) + trap, or everything.
Updates: every way of adding or removing a class updates the index.
"""
from .searching import *

MINIMA = {'C07.index': 8, 'C07.subset': 4, 'C07.update': 6}
CLS = sym('cls')
FAT, IDX, TRAP, TYP, TYPARGS = (attr(SELF, '_fasttrack_' + x) for x in ('attr', 'index', 'trap', 'type', 'typeargs'))
CATTR = item(attr(attr(CLS, '_footprint'), '_fp'), 'attr')
TABLES = (FAT, IDX, TRAP, TYP, TYPARGS)


def own_key_error(e):
    """KeyErrors of the tables themselves: they share their keys (C07.tables)."""
    return e.name == 'KeyError' and e.term is not None and any(mentions(e.term, lambda x: x == t) for t in TABLES)


def index_loops(I):
    return [r for r in I.loops.values() if r.coll is not None and strip_view(r.coll) == FAT or r.coll is not None and r.coll == FAT]


def held_fat(t):
    t = strip_at(t)
    return t == FAT or t[0] == 'attrv' and t[1:3] == FAT[1:3]


def taken_out(e, E):
    """The attributes become those that were there but this one."""
    for x in e.events():
        if x.kind == 'setattr' and x.recv == SELF and x.label == '_fasttrack_attr':
            v = x.args[0]
            if v[0] == 'call' and v[1] == 'difference' and held_fat(v[3][0]) and any(strip_at(y)[0] == 'ref' and any(o[0] in ('add', 'app') and o[1] == E for o in e.st.ops(strip_at(y))) for y in v[3][1:]):
                return True
    return False


def withdrawals(rows, removing):
    """The sets of attributes that are withdrawn in one go, and whether the attributes change otherwise."""
    whole, other, done = set(), [], set()

    def scan(evs):
        for x in evs:
            if x.kind == 'loop' and id(x.label) not in done:
                done.add(id(x.label))
                c = strip_at(x.label.coll) if x.label.coll is not None else NONE
                E = ('elem', x.label.lid)
                if c[0] == 'call' and c[1] == 'intersection' and any(held_fat(y) for y in c[3]) and x.label.edges and \
                        all(any(o[0] == 'rem' and o[1] == E for o in x.label.delta(e, FAT)) or taken_out(e, E) for e in x.label.edges):
                    whole.update(strip_at(y) for y in c[3])
                if x.label.lid not in removing:
                    for e in x.label.edges:
                        scan(e.events())
            elif x.kind == 'mut' and x.label in ('remove', 'discard', 'pop') and any(y == ('elem', l) for l in removing for y in x.args):
                pass        # a copy of what the loop does
            elif x.kind == 'setattr' and x.recv == SELF and x.label == '_fasttrack_attr' or x.kind == 'mut' and held_fat(x.recv):
                v = x.args[0] if x.args else NONE
                if x.kind == 'setattr' and v[0] == 'call' and v[1] == 'difference' and held_fat(v[3][0]):
                    whole.update(strip_at(y) for y in v[3][1:])
                elif x.kind == 'mut' and x.label in ('difference_update', '-='):
                    whole.update(strip_at(y) for y in x.args)
                else:
                    other.append(x)
    for s, o in outcomes(rows):
        scan(s.events())
    return whole - {FAT}, other


def check_index(ctx):
    I = ctx.interp(types={SELF: ('inst', 'Collector'), CLS: ('type', 'FootprintBase')})
    st = State()
    f, rows = execute(ctx, I, 'Collector.add', {'self': SELF, 'items': tup(CLS), 'kwargs': I.alloc(st, 'dict')}, st)
    seen = 0
    for s, o in outcomes(rows):
        if o[0] == 'exc' and o[1].name not in ('KeyError', None):
            ctx.need('C07.index', f.qual, False, 'indexing raises %s' % (o[1],), f.where())
    removal, main = [], []
    for rec in index_loops(I):
        E = ('elem', rec.lid)
        for e in rec.edges:
            ops = {b: rec.delta(e, b) for b in e.st.heap}
            if any(o[0] == 'rem' and o[1] == E for o in ops.get(FAT, ())) or taken_out(e, E):
                removal.append((rec, e, ops))
    removing = {r.lid for r, _, _ in removal}
    whole, other = withdrawals(rows, removing)
    for rec in index_loops(I):
        E = ('elem', rec.lid)
        fields = item(CATTR, E)
        declt = ('getd', fields, C('type'), ('builtin', 'str'))

        def mismatch(q, st):
            if q(isnone(item(TYP, E))):
                return False
            if not q(('is', declt, item(TYP, E))):
                return True
            return not args_equal(q, st, fields, E)
        outs = []
        for e in rec.edges:
            if e.kind == 'exc':
                continue
            ops = {b: rec.delta(e, b) for b in e.st.heap}
            got = set()
            if any(o[0] == 'add' and o[1] == CLS for o in ops.get(item(TRAP, E), ())):
                got.add('trap')
            for b, d in ops.items():
                if b[0] == 'item' and b[1] == item(IDX, E):
                    for o in d:
                        if o[0] == 'each':
                            inner = o[2]
                            if strip_view(inner.coll) == item(fields, 'values') and b[2] == ('elem', inner.lid) and inner.edges and \
                                    all(x.kind == 'next' and any(y[0] == 'add' and y[1] == CLS for y in inner.delta(x, b)) for x in inner.edges):
                                got.add('index')
                if b[0] == 'ref' and e.st.kind(b) in ('set', 'list') and any(o[0] in ('add', 'app') and o[1] == E for o in d):
                    if removing - {rec.lid} or b in whole:
                        got.add('withdrawn')
                    elif other:
                        got.add('noted')        # for something that is not understood
            if any(o[0] == 'rem' and o[1] == E for o in ops.get(FAT, ())) or taken_out(e, E):
                got.add('withdrawn')
            for o in ops.get(TYPARGS, ()):
                if o[0] == 'set' and o[1] == E:
                    got.add('typeargs' if mentions(o[2], lambda x: x[0] in ('getd', 'item') and x[1] == fields and x[2] == C('args')) or
                            any(v is False for a, v in e.st.facts.items() if a == isin(C('args'), fields)) else 'mistyped')
            if any(o[0] == 'set' and o[1] == E for o in ops.get(TYP, ())):
                for o in ops[TYP]:
                    if o[0] == 'set' and o[1] == E:
                        got.add('typed' if same(e.st, o[2], declt) else 'mistyped')
            outs.append((e, got))
        if not any(g & {'trap', 'index'} for _, g in outs):
            # a loop that only withdraws the attributes noted as inconsistent
            for e, got in outs:
                def spec(q):
                    if not q(isin(E, FAT)) or not q(isin(E, CATTR)) or q(truth(item(fields, 'optional'))) or not q(truth(item(fields, 'values'))) or q(truth(item(fields, 'remap'))):
                        return False
                    return mismatch(q, e.st)
                if not any(a[0] == 'is' and a[1] in (declt, item(TYP, E)) or a[0] == 'is' and a[2] == item(TYP, E) for a, v in e.conds) and 'withdrawn' not in got:
                    continue
                for s2, w in completions(e.st, spec):
                    if w:
                        ctx.need('C07.index', f.qual + ' (withdrawal)', 'withdrawn' in got, 'an attribute of inconsistent type stays fast-tracked although its class is not indexed: [%s]' %
                                 '; '.join(showfact(a, v) for a, v in e.conds), f.where(), taint=bool(whole or other) or any(tainted(a) for a, v in e.conds))
            continue
        for e, got in outs:
            seen += 1
            ctx.need('C07.index', f.qual + ' (scan)', e.kind == 'next', 'the other fast-track attributes are not looked at after one with [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), f.where())

            def spec(q):
                if not q(isin(E, CATTR)) or q(truth(item(fields, 'optional'))) or not q(truth(item(fields, 'values'))) or q(truth(item(fields, 'remap'))):
                    return 'trap'
                if q(isnone(item(TYP, E))):
                    return 'index+typed'
                return 'withdrawn' if mismatch(q, e.st) else 'index'
            for s2, w in completions(e.st, spec):
                if 'mistyped' in got:
                    good = False
                elif w == 'trap':
                    good = bool(got & {'trap', 'withdrawn'})
                elif w == 'withdrawn':
                    good = bool(got & {'trap', 'withdrawn'})
                elif w == 'index+typed':
                    good = bool(got & {'trap', 'withdrawn'}) or got >= {'index', 'typed', 'typeargs'}
                else:
                    good = bool(got & {'trap', 'withdrawn', 'index'})
                ctx.need('C07.index', f.qual, good, 'for a fast-track attribute with [%s] the class is %s; it must be %s' % (
                    '; '.join(showfact(a, v) for a, v in list(e.conds) + [(a, s2.facts[a]) for a in s2.facts if a not in e.st.facts]), '/'.join(sorted(got)) or 'left out of the index',
                    {'trap': 'always part of the subset (trap)', 'index+typed': 'indexed under its values and the type recorded', 'index': 'indexed under its values',
                     'withdrawn': 'always part of the subset, or the attribute withdrawn'}[w]), f.where(),
                    taint='noted' in got or any(tainted(a) for a, _ in e.conds))
        # what was noted for withdrawal is withdrawn
        if any('withdrawn' in g for _, g in outs):
            ctx.need('C07.index', f.qual + ' (withdrawal)', bool(removal or whole or other), 'the attributes of inconsistent type are never withdrawn', f.where())
    ctx.need('C07.index', f.qual, seen > 0, 'no examination of the fast-track attributes', f.where(), taint=not seen)


def args_equal(q, st, fields, E):
    """The recorded arguments equal the declared ones (whatever the spelling of the default)."""
    for a in list(st.facts):
        if a[0] == 'eq' and item(TYPARGS, E) in (a[1], a[2]):
            other = a[2] if a[1] == item(TYPARGS, E) else a[1]
            if mentions(other, lambda x: x[0] in ('getd', 'item') and x[1] == fields and x[2] == C('args')):
                return q(a)
    return False


def check_subset(ctx):
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, open_dicts=[DESC])
    f, rows = execute(ctx, I, 'Collector._fasttrack_subsetting', {'self': SELF, 'desc': DESC})
    seen = set()

    def group(st, t, since=None):
        """union(trap[E], index[E][key]) with key the value, or its conversion, found in the index."""
        if not (t[0] == 'call' and t[1] == 'union' and len(t[3]) == 2):
            return None
        for a, b in (t[3], t[3][::-1]):
            a, b = strip_at(a), strip_at(b)
            if a[0] == 'item' and a[1] == TRAP and b[0] == 'item' and b[1][0] == 'item' and b[1][1] == IDX:
                E, key = a[2], b[2]
                if b[1][2] != E:
                    return 'mixes the trap of %s with the index of %s' % (show(E), show(b[1][2]))
                v = item(DESC, E)
                if (isin(key, b[1]), True) not in list(st.conds()):
                    return 'uses the index of a value that is not indexed: %s' % show(key)
                if key == v:
                    return True
                if key[0] == 'call' and key[1] == 'apply' and key[2] == item(TYP, E) and key[3] == (v,) and \
                        dict(key[4]) == {'**': item(TYPARGS, E)}:
                    return True
                return 'looks for %s in the index' % show(key)
        return 'gives %s' % show(t)

    def good(st, t):
        t = strip_at(t)
        if t == ITEMS:
            return True
        g = group(st, t)
        if g is True:
            ctx.ok('C07.subset', f.qual + ' (group)')
            return True
        if g is not None:
            return g
        if t[0] == 'call' and t[1] == 'intersection':
            for x in t[3]:
                g = good(st, x)
                if g is not True:
                    return g
            return True
        if t[0] == 'call' and t[1] == 'union':
            gs = [good(st, x) for x in t[3]]
            return True if True in gs else gs[0]
        if t in seen:
            return True
        if t[0] == 'phi':
            seen.add(t)
            for e in I.loops[t[1]].edges:
                vals = [fr[t[2]] for fr in (e.st.frames.values() if isinstance(e.st.frames, dict) else e.st.frames) if t[2] in fr]
                for v in vals:
                    g = good(e.st, v)
                    if g is not True and v != NONE:
                        return g
            return True
        if t[0] in ('item', 'itemv'):
            return contents(st, t[1]) or (None if tainted(t) or t[1][0] == 'ref' else 'gives ' + show(t))
        if t[0] == 'elem':
            return contents(st, st.loopcol.get(t[1], I.loops[t[1]].coll if t[1] in I.loops else NONE))
        return None if tainted(t) or t[0] == 'ref' else 'gives ' + show(t)

    def contents(st, c):
        c = strip_at(c)
        while c[0] == 'slice' or (c[0] == 'call' and c[1] == 'slice'):
            c = strip_at(c[1] if c[0] == 'slice' else c[3][0])
        if c in seen:
            return True
        seen.add(c)
        n = 0
        for rec in I.loops.values():
            for e in rec.edges:
                for o in rec.delta(e, c) if c in e.st.heap else ():
                    if o[0] in ('app', 'add'):
                        n += 1
                        g = good(e.st, o[1])
                        if g is not True:
                            return g
        return True if n else None
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need('C07.subset', f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
            continue
        g = good(s, o)
        ctx.need('C07.subset', f.qual, g is True, 'the pre-selection %s' % (g or 'gives ' + show(o)), f.where(), taint=g is None)


def strip_at(t):
    while t[0] == 'at':
        t = t[1]
    return t


UPD = 'Collector._upd_fasttrack_index'


def position(evs, pred):
    for i, e in enumerate(evs):
        if pred(e):
            return i
    return None


def purged(I, s, evs, X, table):
    """X is taken out of every set of the table (which sets: each cell, or each cell of each cell)."""
    def drops(e, rec, base):
        return any(o[0] == 'rem' and o[1] == X for o in rec.delta(e, base)) or e.st.decide(isin(X, base)) is False
    for ev in evs:
        if ev.kind != 'loop' or ev.label.coll is None or strip_values(ev.label.coll) not in (table, FAT):
            continue
        rec = ev.label
        ok = bool(rec.edges)
        for e in rec.edges:
            if e.kind != 'next':
                ok = False
                continue
            cell = item(table, ('elem', rec.lid))
            if table == TRAP:
                ok = ok and drops(e, rec, cell)
                continue
            inner = [x.label for x in e.events() if x.kind == 'loop' and strip_values(x.label.coll or NONE) == cell]
            ok = ok and any(r.edges and all(y.kind == 'next' and drops(y, r, item(cell, ('elem', r.lid))) for y in r.edges) for r in inner)
        if ok:
            return True
    return False


def strip_values(c):
    while c[0] == 'view' or (c[0] == 'call' and c[1] in ('list', 'tuple', 'iter', 'set') and len(c[3]) == 1):
        c = c[2] if c[0] == 'view' else c[3][0]
    return c


def reindexed(I, s, evs, after):
    """The tables are rebuilt: new ones are set, then every class of the catalog is indexed again."""
    sets = {}
    for i, e in enumerate(evs):
        if e.kind == 'setattr' and e.recv == SELF and attr(SELF, e.label) in TABLES:
            sets[e.label] = i
    if set(sets) != {x[2] for x in TABLES}:
        return 'not every table of the index is renewed (%s)' % ', '.join(sorted(sets))
    for i, e in enumerate(evs):
        if e.kind == 'loop' and e.label.coll is not None and strip_view(e.label.coll) == ITEMS and i > max(sets.values()) and i > after:
            rec = e.label
            if rec.edges and all(x.kind == 'next' and any((y.kind == 'call' and y.label == UPD and ('elem', rec.lid) in [v for _, v in y.kw] + list(y.args)) or
                                                          (y.kind == 'loop' and 'fasttrack' in show(y.label.coll or NONE)) for y in x.events()) for x in rec.edges):
                return True
    return 'the classes of the catalog are not indexed again'


def fresh_tables(ctx, I, s, f, wanted):
    """New tables have one cell per fast-track attribute: no type, an empty index and an empty trap."""
    E = sym('E')
    fa = s.attrs.get((SELF, '_fasttrack_attr'))
    for s2, b in I.member(s, E, fa):
        src = s2.decide(isin(E, wanted))
        if src is None:
            if not b and fa is not None and fa[0] == 'ref' and all(o == ('lit',) for o in s2.ops(fa)):
                ctx.need('C07.update', f.qual + ' (tables)', False, 'no fast-track attribute is kept', f.where())
                continue
            ctx.undec('C07.update', f.qual, 'fast-track attributes of unknown origin')
            continue
        ctx.need('C07.update', f.qual + ' (tables)', b == src, 'the fast-track attributes are not the requested ones', f.where())
        for name in ('_fasttrack_index', '_fasttrack_type', '_fasttrack_typeargs', '_fasttrack_trap'):
            for s3, hasit, v in I.lookup(s2, s2.attrs.get((SELF, name)), E):
                if s3.decide(isin(E, wanted)) is None:
                    continue
                good = hasit == bool(b) and (not hasit or (v == NONE if name == '_fasttrack_type' else v[0] == 'ref' and all(o == ('lit',) for o in s3.ops(v))))
                ctx.need('C07.update', f.qual + ' (tables)', good, '%s of an attribute holds %s' % (name, show(v) if hasit else 'nothing'), f.where(), taint=hasit and tainted(v))


def check_update(ctx):
    """add/discard/pop/clear and the setting of the attributes keep the index up to date."""
    rid = 'C07.update'
    C1, C2, BYE = CLS, sym('cls2'), sym('bye')
    # add: each class is stored, and indexed
    I = ctx.interp(types={SELF: ('inst', 'Collector'), C1: ('type', 'FootprintBase'), C2: ('type', 'FootprintBase')}, opaque={UPD})
    st = State()
    kw = I.alloc(st, 'dict')
    f, rows = execute(ctx, I, 'Collector.add', {'self': SELF, 'items': tup(C1, C2), 'kwargs': kw}, st)
    for s, o in outcomes(rows):
        evs = s.events()
        for c in (C1, C2):
            stored = any(e.kind == 'call' and e.label == 'super.add' and (c in e.args or ('star', tup(C1, C2)) in e.args) for e in evs)
            ctx.need(rid, f.qual, stored, 'a class given to add is not stored', f.where())
            done = any(e.kind == 'call' and e.label == UPD and c in [v for _, v in e.kw] + list(e.args) for e in evs) or \
                any(e.kind == 'loop' and e.label.coll == FAT and any(mentions(b, lambda x: x == c) or any(mentions(op, lambda x: x == c) for op in e.label.delta(g, b) if isinstance(op, tuple))
                                                                     for g in e.label.edges for b in g.st.heap) for e in evs)
            ctx.need(rid, f.qual, done, 'a class given to add is not indexed', f.where(), taint=o[0] == 'exc')
    # discard, pop
    for name, a in (('discard', {'bye': BYE}), ('pop', {})):
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={UPD})
        f, rows = execute(ctx, I, 'Collector.' + name, dict({'self': SELF}, **a))
        for s, o in outcomes(rows):
            evs = s.events()
            i = position(evs, lambda e: e.kind == 'call' and e.label == 'super.' + name)
            if o[0] == 'exc' and i is None:
                continue
            ctx.need(rid, f.qual, i is not None, 'nothing is taken out of the catalog', f.where())
            if i is None:
                continue
            X = BYE if name == 'discard' else evs[i].res
            full = reindexed(I, s, evs, i)
            for t in (IDX, TRAP):
                ctx.need(rid, f.qual, full is True or purged(I, s, evs, X, t), 'a class that leaves the catalog stays in %s' % show(t), f.where())
            if name == 'pop':
                ctx.need(rid, f.qual, o == X, 'pop gives %s' % show(o), f.where())
    # clear and the setting of the attributes
    for name, a, src in (('clear', {}, FAT), ('fasttrack', {'attrset': sym('attrset')}, sym('attrset'))):
        if name == 'fasttrack':
            p = ctx.repo.find_prop(ctx.repo.cls('Collector'), 'fasttrack')
            if not (p and p[1]):
                ctx.need(rid, 'Collector.fasttrack', False, 'the fast-track attributes cannot be set', 'src/footprints/collectors.py')
                continue
            g = p[1]
            I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={UPD})
            src = sym(g.node.args.args[1].arg)
            f, rows = g, I.run(g, {'self': SELF, src[1]: src}, State())
            i0 = -1
        else:
            I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={UPD})
            f, rows = execute(ctx, I, 'Collector.clear', {'self': SELF})
        for s, o in outcomes(rows):
            evs = s.events()
            if name == 'clear':
                i0 = position(evs, lambda e: e.kind == 'call' and e.label == 'super.clear')
                ctx.need(rid, f.qual, i0 is not None, 'the catalog is not emptied', f.where())
                i0 = -1 if i0 is None else i0
            r = reindexed(I, s, evs, i0)
            ctx.need(rid, f.qual, r is True, str(r), f.where())
            if r is True:
                fresh_tables(ctx, I, s, f, src)


def run(ctx):
    ctx.rule('C07.index', 'a class is in the trap of each fast-track attribute, or indexed under all its values (mandatory, restricted, not remapped, same type), or the attribute is withdrawn')
    ctx.rule('C07.subset', 'a subset is an intersection of groups trap + index[value], for values that are in the index')
    ctx.rule('C07.update', 'adding, discarding, popping, clearing and (re)setting the attributes update the index')
    ctx.guard('C07.index', 'Collector.add', lambda: check_index(ctx))
    ctx.guard('C07.subset', 'Collector._fasttrack_subsetting', lambda: check_subset(ctx))
    ctx.guard('C07.update', 'Collector', lambda: check_update(ctx))
