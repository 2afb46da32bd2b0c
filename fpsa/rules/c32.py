"""Diagnostic views of a report.

The classes that present what a report recorded (flat and factorized reports, iteration on an XML report, question about the
failure of a class, light dump) are interpreted on all their paths. For a generic recorded entry, and a generic level of the
tree, what is stored, where the walk along the tree goes next, what is printed and what is handed down are compared with the
requirement that each entry be shown once, with all its information, and nothing else.
"""
import ast
from .common import *

MINIMA = {'C32.flat': 4, 'C32.place': 6, 'C32.leaf': 4, 'C32.factor': 8, 'C32.order': 4, 'C32.print': 12, 'C32.last': 3, 'C32.whynot': 4, 'C32.light': 4}
TECHNIQUE = ('abstract interpretation (path-sensitive, nested loop summaries) of the diagnostic views: transition table of the walk along the tree for a generic '
             'entry, content of what is stored at its end, and induction step of the recursive printing (what each level shows and hands down)')
FL, FA, ST, LOG, LC = 'FlatReport', 'FactorizedReport', 'StandardReport', 'FootprintLog', 'FootprintLogClass'
PRINTERS = ('printer', 'simpleprinter', 'niceprinter')


def strip_at(t):
    return subst_deep(t, lambda x: strip_at(x[1]) if x[0] == 'at' else None)


def is_item(t, base, key):
    return t[0] in ('item', 'itemv') and unver(strip_at(t[1])) == base and unver(t[2]) == key


def facts(cs):
    return '; '.join(showfact(a, v) for a, v in cs)


def go_in(ctx, qual, opaque=(), prints=False, assume=None, exact=()):
    f = ctx.repo.func(qual)
    names = [a.arg for a in f.node.args.args]
    args = {n: sym(n) for n in names}
    args[names[0]] = SELF
    if f.node.args.kwarg:
        args[f.node.args.kwarg.arg] = sym('kw')
    I = ctx.interp(types={SELF: ('inst', qual.split('.')[0])}, prints=prints, opaque=set(opaque))
    st = State()
    f, rows = execute(ctx, I, f.qual, args, st)
    return f, I, list(outcomes(rows)), names[1:]


def loops(evs):
    return [e.label for e in evs if e.kind == 'loop' and e.label.coll is not None]


def muts(evs, label):
    return [e for e in evs if e.kind == 'mut' and e.label == label]


def printed(evs):
    return [e for e in evs if e.kind == 'call' and e.label == 'print']


def texts(e):
    return ('tup', tuple(e.args) + tuple(v for k, v in e.kw if k not in ('sep', 'end', 'file', 'flush')))


def tells(t, what):
    return mentions(t, lambda x: x == what)


def cut(c, base):
    """Is the collection a part only of the expected one?"""
    c = strip_view(c)
    return c[0] == 'call' and c[1] == 'slice' and base(strip_at(c[3][0])) and not (c[3][1] in (NONE, C(0)) and c[3][2] == NONE)


def fact(cs, atom):
    for a, v in cs:
        if a == atom:
            return v
    return None


# -- flat reports

def check_flat_add(ctx):
    f, I, rows, _ = go_in(ctx, FL + '.add')
    for s, o in rows:
        ch = changes(s)
        good = len(ch) == 1 and ch[0][0] == attr(SELF, '_items') and ch[0][1][0] == 'app'
        v = ch[0][1][1] if good else None
        if v is not None and v[0] == 'ref':
            ops = s.ops(v)
            v = ops[0][1] if len(ops) == 1 and ops[0][0] in ('copy', 'upd') else v
        ctx.need('C32.flat', f.qual, o[0] != 'exc' and good and v == sym('kw'), 'records %s' % showchanges(ch) if o[0] != 'exc' else 'raises %s' % o[1], f.where(), taint=o[0] != 'exc' and bool(ch) and tainted(v or UNK0))


UNK0 = ('unk', 0)


def check_reshuffle(ctx):
    f, I, rows, _ = go_in(ctx, FL + '.reshuffle')
    own, given = attr(SELF, '_sort'), sym('sortlist')
    T, P, F = 'C32.flat', 'C32.place', 'C32.leaf'
    for s, o in rows:
        if o[0] == 'exc':
            ctx.need(F, f.qual, o[1].name == 'KeyError', 'raises %s' % o[1], f.where(), taint=o[1].name is None)
            continue
        kept = s.attrs.get((SELF, '_sort'), own)
        none = s.facts.get(('is', given, NONE))
        ops = s.ops(kept) if kept[0] == 'ref' else ()
        same_sort = kept == own or kept == given or len(ops) == 1 and ops[0][0] in ('copy', 'ext') and unver(strip_at(ops[0][1])) == given
        src = own if kept == own else given
        if none is None:
            ctx.need(T, f.qual, src != own, 'sorts by the former keys although some are given, when [%s]' % facts(list(s.facts.items())), f.where())
        else:
            ctx.need(T, f.qual, same_sort and (src == own) == none, 'sorts by %s when the list given is %s' % (show(kept), 'None' if none else 'not None'), f.where(), taint=tainted(kept) or kept[0] in ('ref', 'call'))
        tree = s.attrs.get((SELF, '_tree'))
        fresh = tree is not None and tree[0] == 'ref'
        ctx.need(T, f.qual, fresh, 'does not start from an empty tree', f.where())
        if not fresh:
            continue
        outer = [r for r in loops(s.events()) if unver(strip_view(r.coll)) == attr(SELF, '_items')]
        ctx.need(T, f.qual, len(outer) == 1, 'goes %d times through the entries' % len(outer), f.where(), taint=bool(loops(s.events())))
        for rec in outer:
            E = ('elem', rec.lid)
            for e in rec.edges:
                bad = [m for m in e.events() if m.kind == 'mut' and m.recv == E] + [m for r in loops(e.events()) for x in r.edges for m in x.events() if m.kind == 'mut' and m.recv == E]
                ctx.need(T, f.qual, not bad, 'changes the entries that are recorded', f.where())
                if bad:
                    break
                reshuffled(ctx, f, e, rec, E, kept, src, tree, T, P, F)


def reshuffled(ctx, f, e, rec, E, kept, src, tree, T, P, F):
    evs = list(e.events())
    inner = [r for r in loops(evs) if strip_view(r.coll) in (kept, src, ('at', kept)) or strip_at(strip_view(r.coll)) in (kept, src)]
    if e.kind == 'exc':
        return
    ctx.need(T, f.qual, e.kind == 'next', 'leaves the entries that follow when [%s]' % facts(e.conds), f.where())
    ctx.need(P, f.qual, len(inner) == 1 and inner[0].order is None, 'goes %d times through the sorting keys' % len(inner), f.where(), taint=bool(loops(evs)))
    if len(inner) != 1 or e.kind != 'next':
        return
    r = inner[0]
    K_ = ('elem', r.lid)
    # the carried position in the tree
    pos = [n for n, v in r.init.items() if v == tree]
    on = [n for n, v in r.init.items() if v[:2] == ('phi', rec.lid) and rec.init.get(v[2]) == tree]
    if not pos and on:
        ctx.need(P, f.qual, False, 'an entry starts from where the one before it has gone (%s)' % on[0], f.where())
        return
    if len(pos) != 1:
        ctx.undec(P, f.qual, 'no single position in the tree')
        return
    cur = ('phi', r.lid, pos[0])
    kept_info = False

    def is_entry(t):
        return t[0] == 'strcat' and len(t[1]) == 3 and t[1][:2] == (K_, C(': ')) and is_item(t[1][2], E, K_)
    for x in r.edges:
        has = fact(x.conds, isin(K_, E))
        w = 'when [%s]' % facts(x.conds)
        if has is None:
            ctx.undec(P, f.qual, 'a key is dealt with whether the entry has it or not ' + w)
            continue
        sets, dels, nxt = muts(x.events(), 'setitem'), muts(x.events(), 'delitem'), x.st.env().get(pos[0])
        if not has:
            skip = x.st.facts.get(truth(sym('skip')))
            ctx.need(P, f.qual, not sets and not dels and nxt == cur, 'a key that the entry does not have moves it in the tree ' + w, f.where(), taint=nxt is not None and tainted(nxt) and nxt != cur)
            ctx.need(P, f.qual, x.kind == 'next' or skip is False, 'the keys that follow a missing one are ignored ' + w, f.where())
            continue
        ctx.need(P, f.qual, x.kind == 'next', 'the keys that follow are ignored ' + w, f.where())
        known = [(a, v) for a, v in x.conds if a[0] == 'in' and strip_at(a[2]) == cur]
        news = [m for m in sets if m.recv == cur]
        if not known and len(news) == 1 and news[0].args[1][0] == 'ref' and all(op[0] != 'copy' for op in x.st.ops(news[0].args[1])):
            ctx.need(P, f.qual, False, 'a branch that exists is replaced ' + w, f.where())
            continue
        if len(news) > 1 or len(known) != 1 or any(m.recv != cur and m.recv[0] != 'ref' for m in sets):
            ctx.undec(P, f.qual, 'not a move in the tree ' + w)
            continue
        (a, there) = known[0]
        ctx.need(P, f.qual, is_entry(a[1]), 'the level is named %s' % show(a[1]), f.where(), taint=tainted(hide(a[1], [a[1][1][2]])) if a[1][0] == 'strcat' and len(a[1][1]) == 3 else tainted(a[1]))
        if there:
            ctx.need(P, f.qual, not news and nxt is not None and is_item(nxt, cur, a[1]), 'the branch that exists is not the one that is followed ' + w, f.where(), taint=nxt is not None and nxt[0] == 'ref' and not news and bool(x.st.ops(nxt)))
        else:
            ctx.need(P, f.qual, len(news) == 1 and news[0].args[0] == a[1] and news[0].args[1] == nxt and nxt[0] == 'ref', 'a new branch is not put in the tree and followed ' + w, f.where(), taint=nxt is not None and tainted(nxt) and nxt[0] != 'ref')
        gone = [d for d in dels if d.args and d.args[0] == K_]
        kept_info = kept_info or not gone
    # the end of the branch
    full = skipped = None
    for a, v in e.conds:
        if a[0] == 'exists' and strip_view(a[1]) in (kept, src) and all(len(d) == 1 and all(x[0] == 'in' and x[2] == E and not y for x, y in d) for d in a[2]):
            full = not v
        elif a[0] == 'exists' and v and strip_view(a[1]) in (kept, src) and any(x[0] == 'in' and x[2] == E and not y for d in a[2] for x, y in d):
            full = False
            if all(any(x == truth(sym('skip')) and y for x, y in d) for d in a[2]):
                skipped = True
        elif a[0] == 'exists' and not v and strip_view(a[1]) in (kept, src) and len(a[2]) == 1:
            d = dict(list(a[2])[0])
            p = d.pop(truth(sym('skip')), None)
            if p is not None and len(d) == 1 and all(x[0] == 'in' and x[2] == E and not y for x, y in d.items()) and e.st.facts.get(truth(sym('skip'))) is p:
                full = True
    if full is None and fact(e.conds, isin(K_, E)) is False:
        full = False
    skip = e.st.facts.get(truth(sym('skip')), skipped)
    sets = [m for m in muts(evs, 'setitem') if m.recv[0] == 'phi' and m.recv[2] == pos[0]]
    w = 'when [%s]' % facts(e.conds)
    if skipped and e.st.facts.get(truth(sym('skip'))) is False:
        return
    must = True if full or skip else False if full is False and skip is False else None
    if must is None:
        if full is False and not r.edges:
            return
        ctx.undec(F, f.qual, 'an entry is dealt with whether it has all the keys or not ' + w)
        return
    ctx.need(F, f.qual, len(sets) == (1 if must else 0), 'an entry is shown %d time(s) %s' % (len(sets), w), f.where())
    if len(sets) != 1 or not must:
        return
    m = sets[0]
    ctx.need(F, f.qual, m.args[0][0] in ('item', 'itemv') and m.args[0][2] == C('focus'), 'is shown under %s' % show(m.args[0]), f.where(), taint=tainted(m.args[0]) and m.args[0][0] not in ('item', 'itemv'))
    info = m.args[0][1]
    info = info[1] if info[0] == 'at' else info
    val = m.args[1]
    some = [v for a, v in e.conds if a[0] == 'truth' and strip_at(a[1]) == strip_at(info)]
    if val == NONE:
        ctx.need(F, f.qual, some and not some[-1], 'what is left of the information is not shown ' + w, f.where(), taint=not some)
        return
    ctx.need(F, f.qual, not some or some[-1], 'an entry without more information is not shown as None', f.where())
    if val[0] != 'call' or val[1] != '.join' or len(val[3]) != 1:
        ctx.need(F, f.qual, False, 'is shown as %s' % show(val), f.where(), taint=tainted(val) or val[0] in ('call', 'strcat'))
        return
    li = [x for x in loops(evs) if strip_at(strip_view(x.coll)) in (info, ('view', 'items', info))]
    ctx.need(F, f.qual, len(li) == 1, 'goes %d times through what is left of the information' % len(li), f.where(), taint=True)
    dropped = [i for i, q in enumerate(evs) if q.kind == 'mut' and q.label == 'delitem' and q.args[:1] == (C('focus'),)]
    for y in li:
        before = dropped and any(q.kind == 'loop' and q.label is y and dropped[0] < i for i, q in enumerate(evs))
        ey = ('elem', y.lid)
        yc = strip_at(strip_view(y.coll))
        key = item(ey, C(0)) if yc[:2] == ('view', 'items') else ey
        for z in y.edges:
            apps = [q for q in z.events() if q.kind == 'mut' and q.label == 'append']
            t = ('tup', tuple(q.args[0] for q in apps))
            extra = [(a, v) for a, v in z.conds if a[0] not in ('in',) and not (a[0] == 'eq' and C('focus') in a[1:] and not v)]
            ctx.need(F, f.qual, apps == [] or before or any(a[0] == 'eq' and set(a[1:]) == {key, C('focus')} and not v for a, v in z.conds), 'the focus is repeated in the information', f.where(), taint=key != ey)
            ctx.need(F, f.qual, not kept_info, 'the information used as a level is repeated at the end', f.where(), taint=bool(extra))
            ctx.need(F, f.qual, len(apps) == 1 and tells(t, key) and mentions(t, lambda q: q[0] in ('item', 'itemv') and (q[2] == key or q == item(ey, C(1)))) and not extra, 'a piece of information is shown as %s when [%s]' % (show(t), facts(z.conds)), f.where(), taint=mentions(t, lambda q: q[0] in ('unk', 'phi')))


# -- factorized reports

def check_factor(ctx):
    rid = 'C32.factor'
    f, I, rows, _ = go_in(ctx, FA + '.add')
    kw = sym('kw')
    focus = attr(SELF, 'focus')
    for s, o in rows:
        if o[0] == 'exc':
            ctx.need(rid, f.qual, o[1].name == 'KeyError', 'raises %s' % o[1], f.where(), taint=o[1].name is None)
            continue
        outer = [r for r in loops(s.events()) if unver(strip_view(r.coll)) == attr(SELF, '_define')]
        ctx.need(rid, f.qual, len(outer) == 1 and outer[0].order is None, 'goes %d times through the ordering keys' % len(outer), f.where(), taint=bool(loops(s.events())))
        if len(outer) != 1:
            continue
        r = outer[0]
        pos = [n for n, v in r.init.items() if v == attr(SELF, '_tree')]
        if len(pos) != 1:
            ctx.undec(rid, f.qual, 'no single position in the tree')
            continue
        end = [op for b, op in changes(s) if b == ('phi', r.lid, pos[0]) and op[0] == 'set' and is_item(op[1], kw, focus)]
        allsets = [e for e in s.events() if e.kind == 'mut' and e.label == 'setitem']
        ctx.need(rid, f.qual, len(allsets) == 1 and is_item(allsets[0].args[0], kw, focus) and allsets[0].recv == ('phi', r.lid, pos[0]), 'an entry ends %d time(s) under its focus' % len(end), f.where(), taint=len(allsets) == 1 and tainted(allsets[0].args[0]) and allsets[0].args[0][0] not in ('item', 'itemv'))
        if len(allsets) == 1:
            v = allsets[0].args[1]
            arg = ('getd', kw, C('args'), C(''))
            ctx.need(rid, f.qual, v in (('call', 'str', None, (arg,), (), 0), arg, C('')) or mentions(v, lambda x: x == arg) or is_item(v, kw, C('args')) or mentions(v, lambda x: is_item(x, kw, C('args'))), 'the arguments shown are %s' % show(v), f.where(), taint=tainted(v))
            if v == C(''):
                ctx.need(rid, f.qual, s.facts.get(isin(C('args'), kw)) is False, 'the arguments are not shown', f.where())
        for e in r.edges:
            w = 'when [%s]' % facts(e.conds)
            inner = [x for x in loops(e.events()) if strip_view(x.coll) == ('elem', r.lid)]
            ctx.need(rid, f.qual, e.kind in ('next', 'exc'), 'the ordering keys that follow are ignored ' + w, f.where())
            if len(inner) != 1:
                ctx.undec(rid, f.qual, 'goes %d times through the names of a key' % len(inner))
                continue
            factored(ctx, f, e, inner[0], pos[0], ('phi', r.lid, pos[0]), kw)


def factored(ctx, f, e, x, pos, cur0, kw):
    rid = 'C32.factor'
    N = ('elem', x.lid)
    val = ('getd', kw, N, NONE)
    cur = ('phi', x.lid, pos) if pos in x.init else cur0
    level = ('tup', (('getd', attr(SELF, '_renaming'), N, N), val))
    none_edge = False
    for y in x.edges:
        w = 'when [%s]' % facts(y.conds)
        none = fact(y.conds, ('is', val, NONE))
        if none is None:
            none = True if fact(y.conds, isin(N, kw)) is False else None
        other = [a for a, _ in y.conds if a[0] == 'is' and a[1][0] == 'getd' and a[1][1] == kw and a[1][2] != N and not tainted(a[1][2])]
        ctx.need(rid, f.qual, not other, 'the value of a level is that of %s' % [show(a[1][2]) for a in other], f.where())
        if other:
            continue
        ctx.need(rid, f.qual, fact(y.conds, truth(val)) is not False or none is True, 'a name with a false value is passed over', f.where())
        sets = muts(y.events(), 'setitem')
        nxt = y.st.env().get(pos)
        if none is None:
            ctx.undec(rid, f.qual, 'a name is dealt with whatever its value ' + w)
            continue
        if none:
            none_edge = True
            ctx.need(rid, f.qual, y.kind == 'next' and not sets and nxt in (cur, cur0), 'a name without a value is taken for the level ' + w, f.where())
            continue
        known = [(a, v) for a, v in y.conds if a[0] == 'in' and strip_at(a[2]) in (cur, cur0)]
        ctx.need(rid, f.qual, y.kind == 'brk', 'several names of a same key make a level each ' + w, f.where(), taint=y.kind == 'ret')
        if not known and len(sets) == 1 and sets[0].args[1][0] == 'ref' and nxt is not None:
            ctx.need(rid, f.qual, False, 'a branch that exists is replaced ' + w, f.where())
            continue
        if len(known) != 1:
            if e.kind == 'next' and not known:
                ctx.undec(rid, f.qual, 'the move is not made where the name is found ' + w)
            continue
        a, there = known[0]
        ctx.need(rid, f.qual, a[1] == level, 'the level is named %s' % show(a[1]), f.where(), taint=tainted(a[1]))
        if there:
            ctx.need(rid, f.qual, not sets and nxt is not None and is_item(nxt, strip_at(a[2]), a[1]), 'the branch that exists is not the one that is followed ' + w, f.where())
        else:
            ctx.need(rid, f.qual, len(sets) == 1 and sets[0].args[0] == a[1] and sets[0].args[1] == nxt and nxt[0] == 'ref', 'a new branch is not put in the tree and followed ' + w, f.where())
    # without any name, the entry is refused
    missing = [v for a, v in e.conds if a[0] == 'exists' and a[1] == ('elem', x.coll[1]) or a[0] == 'exists' and strip_view(a[1]) == strip_view(x.coll)]
    if e.kind == 'next' and missing and not any(missing):
        odd = any(a[0] == 'is' and a[1][0] == 'phi' and a[2] == NONE and not v for a, v in e.conds)
        ctx.need(rid, f.qual, odd, 'an entry without any name of a key is let through when [%s]' % facts(e.conds), f.where(), taint=any(a[0] == 'truth' and a[1][0] == 'phi' for a, v in e.conds))
    if e.kind == 'exc':
        names = {q.label for q in e.events() if q.kind == 'raise'}
        ctx.need(rid, f.qual, missing and not any(missing), 'refuses an entry that has the key when [%s]' % facts(e.conds), f.where(), taint=not missing)
        ctx.need(rid, f.qual, names <= {'KeyError'}, 'refuses with %s' % ', '.join(sorted(names)), f.where())


def check_order(ctx):
    rid = 'C32.order'
    f, I, rows, _ = go_in(ctx, FA + '.get_order')
    dic, depth = sym('dic'), sym('depth')
    syntactic(ctx, rid, f)
    for s, o in rows:
        if o[0] == 'exc':
            ctx.need(rid, f.qual, o[1].name in ('ValueError', 'IndexError', 'KeyError'), 'raises %s' % o[1], f.where(), taint=o[1].name is None)
            continue
        ops = s.ops(o) if o[0] == 'ref' else ()
        while len(ops) == 2 and ops[0][0] in ('ext', 'copy', 'lit') and [x[0] for x in ops[1:]] == ['ext'] and len(ops[0]) > 1 and strip_at(ops[0][1])[0] == 'ref':
            first, second = strip_at(ops[0][1]), strip_at(ops[1][1])
            late = second[0] == 'ref' and any(op[0] == 'each' for op in s.ops(second)) and not any(op[0] == 'each' and any(x[0] == 'app' for e in op[2].edges for x in op[3](e)) for op in s.ops(first))
            ctx.need(rid, f.qual, not late, 'the selected values come last', f.where(), taint=True)
            o = first
            ops = tuple(s.ops(first)) + (('ext', second),)
        each = [op for op in ops if op[0] == 'each']
        if o[0] != 'ref' or len(each) != 1:
            ctx.need(rid, f.qual, False, 'gives %s' % show(o), f.where(), taint=True)
            continue
        rec = each[0][2]
        vals = ('item', attr(SELF, '_define'), None)
        c = strip_at(unver(strip_view(rec.coll)))
        good = c[0] in ('item', 'itemv') and c[1] == attr(SELF, '_define') and mentions(c[2], lambda x: x == depth)
        ctx.need(rid, f.qual, good and rec.order is None, 'the selected values are %s' % show(rec.coll), f.where(), taint=tainted(rec.coll) and not (c[0] in ('item', 'itemv') and c[1] == attr(SELF, '_define') and c[2][0] in ('item', 'itemv') and is_c(c[2][2])))
        V = ('elem', rec.lid)
        pools = set()
        for e in rec.edges:
            if e.kind == 'exc':
                continue
            ctx.need(rid, f.qual, e.kind == 'next', 'the selected values that follow are ignored when [%s]' % facts(e.conds), f.where())
            for r in loops(e.events()):
                for x in r.edges:
                    apps = [q for q in x.events() if q.kind == 'mut' and q.label in ('append', 'remove') and q.recv[0] in ('ref', 'phi')]
                    puts = [q for q in apps if q.label == 'append' and q.recv == o]
                    outs = [q for q in apps if q.label == 'remove']
                    E = ('elem', r.lid)
                    starts = fact(x.conds, truth(('call', '.startswith', item(E, C(1)), (V,), (), 0)))
                    if x.kind == 'exc':
                        continue
                    if puts or outs:
                        ctx.need(rid, f.qual, len(puts) == 1 and len(outs) == 1 and puts[0].args == outs[0].args == (E,) or
                                 len(puts) == len(outs) == 1 and puts[0].args[0] == E and outs[0].args[0] == E, 'a value is put %d time(s) and taken out %d time(s)' % (len(puts), len(outs)), f.where(), taint=len(puts) == 1 and not outs and bool(apps[1:]))
                        ctx.need(rid, f.qual, starts is True, 'a value is put first although it is not a selected one, when [%s]' % facts(x.conds), f.where(), taint=starts is None and not any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and not mentions(a[1], lambda q: q[0] in ('unk', 'phi', 'itemv')) for a, _ in x.conds))
                        pools |= {q.recv for q in outs}
        last = ops[-1]
        ctx.need(rid, f.qual, last[0] == 'ext' and len(pools) == 1 and strip_at(last[1]) in pools or last[0] == 'ext' and not pools, 'ends with %s' % (show(last[1]) if last[0] == 'ext' else last[0]), f.where(), taint=last[0] not in ('each',) and not pools)
        for p in pools:
            po = s.ops(p)
            ctx.need(rid, f.qual, bool(po) and po[0][0] in ('copy', 'ext') and unver(strip_view(po[0][1])) == dic, 'the values come from %s' % (po[:1],), f.where(), taint=bool(po) and (len(po[0]) < 2 or tainted(po[0][1])))


def syntactic(ctx, rid, f):
    """A list that is gone through is not shortened meanwhile (unless the loop is left at once)."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name):
            for c in ast.walk(ast.Module(body=n.body, type_ignores=[])):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('remove', 'pop', 'insert', 'clear') and \
                        isinstance(c.func.value, ast.Name) and c.func.value.id == n.iter.id and not any(isinstance(b, (ast.Break, ast.Return)) for b in ast.walk(n)):
                    ctx.need(rid, f.qual, False, 'the list %s is shortened while it is gone through' % n.iter.id, f.where())
    ctx.ok(rid, f.qual)


def called(evs, names):
    return [e for e in evs if e.kind == 'call' and e.label.split('.')[-1] in names and e.label.startswith((FA + '.', '.'))]


def arg_of(e, f, name):
    """Argument of a call of a method of self."""
    for k, v in e.kw:
        if k == name:
            return v
    names = [a.arg for a in f.node.args.args][1:]
    for n, v in zip(names, e.args):
        if n == name:
            return v
    d = f.node.args.defaults
    ds = dict(zip(names[len(names) - len(d):], d))
    if name in ds and isinstance(ds[name], ast.Constant):
        return C(ds[name].value)
    return None


def plus1(t, d):
    return t is not None and t[0] == 'bin' and t[1] == '+' and {t[2], t[3]} == {d, C(1)}


def gone_through(c, f, dic):
    c = strip_view(c)
    if c[0] == 'call' and c[1] == 'sorted' and len(c[3]) == 1:
        return gone_through(c[3][0], f, dic)
    return c == dic or c == ('view', 'items', dic) or c[0] == 'call' and c[1].endswith('get_order') and (dict(c[4]).get('dic') == dic or c[3][:1] == (dic,))


def check_printer(ctx, name):
    rid = 'C32.print'
    others = {FA + '.' + n for n in PRINTERS + ('get_order',)}
    f, I, rows, names = go_in(ctx, '%s.%s' % (FA, name), opaque=others, prints=True)
    dic, depth = sym('dic'), sym('depth')
    ln = ('call', 'len', None, (attr(SELF, '_define'),), (), 0)
    stop = sym('maxdepth') if 'maxdepth' in names else ln
    for s, o in rows:
        w = 'when [%s]' % facts(list(s.facts.items()))
        if o[0] == 'exc':
            ctx.need(rid, f.qual, False, 'raises %s %s' % (o[1], w), f.where(), taint=o[1].name is None)
            continue
        end = [v for a, v in s.facts.items() if a[0] == 'eq' and {a[1], a[2]} == {depth, stop}]
        if not end:
            low = s.facts.get(('lt', depth, stop))
            end = [not low] if low is not None else []
        wrong = [a for a in s.facts if a[0] == 'eq' and depth in a[1:] and any(q[0] == 'bin' and mentions(q, lambda z: z == stop) and all(is_c(z) or z == stop for z in q[2:]) for q in a[1:])]
        ctx.need(rid, f.qual, end or not wrong, 'the end of the tree is taken at %s' % [show(a) for a in wrong], f.where())
        if not end and wrong:
            continue
        if not end:
            ctx.undec(rid, f.qual, 'the end of the tree is not told from its levels ' + w)
            continue
        evs = list(s.events())
        recs = [r for r in loops(evs) if gone_through(r.coll, f, dic)]
        msg = sym('msg') if 'msg' in names else None
        hasmsg = s.facts.get(truth(msg)) if msg else False
        if end[-1] and name == 'niceprinter':
            cs = called(evs, PRINTERS)
            ok = len(cs) == 1 and cs[0].label.endswith('.simpleprinter')
            ctx.need(rid, f.qual, ok, 'the rest of the tree is printed %d time(s) %s' % (len(cs), w), f.where(), taint=len(cs) == 1)
            if ok:
                g = ctx.repo.func(FA + '.simpleprinter')
                ctx.need(rid, f.qual, (arg_of(cs[0], g, 'dic'), arg_of(cs[0], g, 'depth')) == (dic, depth) and arg_of(cs[0], g, 'msg') is not None and (arg_of(cs[0], g, 'msg') == msg or hasmsg is False), 'the rest of the tree is printed with %s' % [show(v) for k, v in cs[0].kw], f.where())
            continue
        ctx.need(rid, f.qual, len(recs) == 1, 'the level is gone through %d time(s) %s' % (len(recs), w), f.where(), taint=bool(loops(evs)) and not any(cut(r.coll, lambda c: gone_through(c, f, dic)) for r in loops(evs)))
        if len(recs) != 1:
            continue
        r = recs[0]
        E = ('elem', r.lid)
        pairs = strip_view(r.coll)[:2] == ('view', 'items')
        key, sub = (item(E, C(0)), item(E, C(1))) if pairs else (E, None)
        below = lambda t: t is not None and (t == sub if pairs else is_item(t, dic, key))
        if end[-1]:
            for e in r.edges:
                ps = printed(e.events())
                x = 'when [%s]' % facts(e.conds)
                ctx.need(rid, f.qual, e.kind == 'next' and len(ps) == 1, 'an entry is printed %d time(s) %s' % (len(ps), x), f.where(), taint=len(ps) > 1)
                if len(ps) == 1:
                    t = texts(ps[0])
                    ctx.need(rid, f.qual, mentions(strip_paths(t, below), lambda y: y == key) and mentions(t, below), 'an entry is printed as %s' % show(t), f.where(), taint=mentions(t, lambda y: y[0] in ('unk', 'phi')))
            if msg and hasmsg is not False:
                ctx.need(rid, f.qual, any(tells(texts(p), msg) for p in printed(evs)), 'the values that lead to the entries are not printed ' + w, f.where())
            continue
        for e in r.edges:
            x = 'when [%s]' % facts(e.conds)
            cs = called(e.events(), PRINTERS)
            ctx.need(rid, f.qual, e.kind == 'next' and len(cs) == 1, 'a branch is printed %d time(s) %s' % (len(cs), x), f.where(), taint=len(cs) > 1)
            if len(cs) != 1 or e.kind != 'next':
                continue
            same_fn = cs[0].label.split('.')[-1] == name
            ctx.need(rid, f.qual, same_fn, 'a branch is printed by %s' % cs[0].label, f.where(), taint=True)
            got = {n: arg_of(cs[0], f, n) for n in names}
            ctx.need(rid, f.qual, below(got['dic']), 'what is printed under a value is %s' % (show(got['dic']) if got['dic'] else None), f.where(), taint=got['dic'] is not None and tainted(got['dic']) and got['dic'][0] != 'itemv')
            ctx.need(rid, f.qual, plus1(got['depth'], depth), 'a branch is at depth %s' % (show(got['depth']) if got['depth'] else None), f.where(), taint=got['depth'] is not None and tainted(got['depth']))
            for n in ('maxdepth', 'group', 'ordered'):
                if n in names:
                    g = got[n]
                    f2 = dict(s.facts)
                    f2.update(e.conds)
                    ok = g == sym(n) or g is not None and is_c(g) and isinstance(cval(g), bool) and f2.get(truth(sym(n))) is cval(g)
                    ctx.need(rid, f.qual, ok, '%s is not handed down to the branches (%s) %s' % (n, show(g) if g else None, x), f.where(), taint=g is not None and tainted(g))
            shown = ('tup', tuple(texts(p) for p in printed(e.events())))
            down = got.get('msg') if msg else None
            hm = hasmsg
            if msg and hm is None:
                hm = fact(e.conds, truth(msg))
            bare = lambda t: mentions(strip_paths(t, below), lambda y: y == key or y == ('star', key) or y in (item(key, C(0)), item(key, C(1))))
            ctx.need(rid, f.qual, bare(shown) or down is not None and bare(down), 'a value is not shown ' + x, f.where(), taint=down is not None and mentions(down, lambda y: y[0] in ('unk', 'phi')))
            if msg and hm is not False:
                outside = any(tells(texts(p), msg) for p in printed(evs))
                ctx.need(rid, f.qual, outside or down is not None and tells(down, msg), 'the values above are lost ' + x, f.where(), taint=down is not None and mentions(down, lambda y: y[0] in ('unk', 'phi')))
        if name == 'printer':
            o2 = s.facts.get(truth(sym('ordered')))
            plain = strip_view(r.coll)
            ordered = plain[0] == 'call' and plain[1].endswith('get_order')
            ctx.need(rid, f.qual, ordered or o2 is False, 'the selected values do not come first ' + w, f.where())


def strip_paths(t, below):
    """Hides the branch itself, so that naming it is not taken for showing its value."""
    return subst_deep(t, lambda y: ('c', 'str', '?') if below(y) else None)


def check_starts(ctx):
    rid = 'C32.print'
    others = {FA + '.' + n for n in PRINTERS + ('get_order',)}
    tree = attr(SELF, '_tree')
    ln = ('call', 'len', None, (attr(SELF, '_define'),), (), 0)
    for name, fn in (('softprint', 'printer'), ('orderedprint', 'printer'), ('dumper', 'niceprinter')):
        f, I, rows, names = go_in(ctx, '%s.%s' % (FA, name), opaque=others, prints=True)
        g = ctx.repo.func('%s.%s' % (FA, fn))
        for s, o in rows:
            cs = called(s.events(), PRINTERS)
            w = 'when [%s]' % facts(list(s.facts.items()))
            ok = o[0] != 'exc' and len(cs) == 1
            ctx.need(rid, f.qual, ok, 'prints the tree %d time(s) %s' % (len(cs), w), f.where(), taint=o[0] != 'exc' and len(cs) > 1)
            if not ok:
                continue
            g = ctx.repo.func('%s.%s' % (FA, cs[0].label.split('.')[-1]))
            ctx.need(rid, f.qual, arg_of(cs[0], g, 'dic') == tree and arg_of(cs[0], g, 'depth') == C(0), 'starts from %s' % [show(x) for x in cs[0].args] + str([(k, show(v)) for k, v in cs[0].kw]), f.where())
            if g.qual.endswith('.printer'):
                od = arg_of(cs[0], g, 'ordered')
                ctx.need(rid, f.qual, name != 'orderedprint' or od is not None and is_c(od) and bool(cval(od)), 'is not ordered', f.where(), taint=od is not None and tainted(od))
            elif g.qual.endswith('.niceprinter'):
                md, gr = arg_of(cs[0], g, 'maxdepth'), arg_of(cs[0], g, 'group')
                ask = sym('maxdepth')
                over = s.facts.get(('lt', ln, ask))
                if over is None and ('lt', ask, ln) in s.facts:
                    over = False if s.facts[('lt', ask, ln)] else 'maybe'
                ismin = md is not None and md[0] == 'call' and md[1] == 'min' and set(md[3]) == {ask, ln}
                good = ismin or over is True and md == ln or over is False and md == ask or over == 'maybe' and md == ln
                ctx.need(rid, f.qual, good, 'the tree is grouped down to depth %s %s' % (show(md) if md else None, w), f.where(), taint=md is not None and tainted(md) or over == 'maybe')
                ctx.need(rid, f.qual, gr == sym('group'), 'the size of the groups is %s' % (show(gr) if gr else None), f.where())


# -- XML report, questions, light dump

def check_last(ctx):
    rid = 'C32.last'
    f, I, rows, _ = go_in(ctx, ST + '.iter_last')
    last = attr(attr(SELF, 'root'), 'lastChild')
    for s, o in rows:
        if o[0] == 'exc' or o[0] != 'ref':
            ctx.need(rid, f.qual, False, 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc')
            continue
        ops = s.ops(o)
        each = [op for op in ops if op[0] == 'each']
        if len(each) != 1 or any(op[0] not in ('lit', 'each') for op in ops):
            ctx.undec(rid, f.qual, 'not a loop')
            continue
        r = each[0][2]
        ctx.need(rid, f.qual, unver(strip_view(r.coll)) == attr(last, 'childNodes') and r.order is None, 'goes through %s' % show(r.coll), f.where(), taint=tainted(r.coll))
        kid = ('elem', r.lid)
        for e in r.edges:
            ins = [x for x in loops(e.events()) if strip_view(x.coll) == attr(kid, 'childNodes')]
            ctx.need(rid, f.qual, e.kind == 'next' and len(ins) == 1 and ins[0].order is None, 'goes %d times through the attributes of a class when [%s]' % (len(ins), facts(e.conds)), f.where(), taint=bool(loops(e.events())) and not any(cut(y.coll, lambda c: strip_view(c) == attr(kid, 'childNodes')) for y in loops(e.events())))
            if len(ins) != 1:
                continue
            x = ins[0]
            sub = ('elem', x.lid)
            ga = lambda n, a: ('call', '.getAttribute', n, (C(a),), (), 0)
            want = {'classname': ga(kid, 'name'), 'name': ga(sub, 'name'), 'why': ga(sub, 'why')}
            for y in x.edges:
                w = 'when [%s]' % facts(y.conds)
                ys = [op for op in x.delta(y, o)]
                ctx.need(rid, f.qual, y.kind == 'next' and len(ys) == 1 and ys[0][0] == 'app', 'a rejection is given %d time(s) %s' % (len(ys), w), f.where(), taint=len(ys) > 1 or any(q[0] == 'each' for q in ys))
                if len(ys) != 1 or ys[0][0] != 'app':
                    continue
                d = ys[0][1]
                if d[0] != 'ref':
                    ctx.need(rid, f.qual, False, 'gives %s' % show(d), f.where(), taint=True)
                    continue
                own = d not in x.heapmark and d not in r.heapmark and (y.node, d) not in x.heapmark
                ctx.need(rid, f.qual, own, 'gives the same dictionary for several rejections', f.where())
                if not own:
                    continue
                for k, v in want.items():
                    for s2, has, got in I.lookup(y.st, d, C(k)):
                        ctx.need(rid, f.qual, has and unver(got) == v, 'gives %s as %s' % (show(got) if has and got else None, k), f.where(), taint=bool(has) and got is not None and tainted(got))


def check_whynot(ctx):
    rid = 'C32.whynot'
    f, I, rows, _ = go_in(ctx, LOG + '.whynot')
    log = attr(SELF, '_log')
    last = item(log, C(-1))
    ask = lambda k: ('call', 're.search', None, (sym('select'), k, ('glob', 're.IGNORECASE')), (), 0)
    for s, o in rows:
        w = 'when [%s]' % facts(list(s.facts.items()))
        there = s.facts.get(truth(last))
        if there is None and s.facts.get(truth(log)) is False:
            there = False
        if there is None and ('is', last, NONE) in s.facts:
            there = not s.facts[('is', last, NONE)]
        if there is None:
            ctx.undec(rid, f.qual, 'does not tell an empty history ' + w)
            continue
        if not there:
            ctx.need(rid, f.qual, o == NONE, 'gives %s without any search' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))
            continue
        if o[0] == 'exc':
            ctx.need(rid, f.qual, o[1].name in ('KeyError', 're.error'), 'raises %s %s' % (o[1], w), f.where(), taint=o[1].name is None)
            continue
        view = ('call', '.as_dict', last, (), (), 0)
        alt = ('call', 'FootprintLogCollector.as_dict', last, (), (), 0)

        def judge(has, conds, k, x):
            """Is the class k kept, in a case where conds hold?"""
            found = empty = None
            for a, v in conds:
                if a[0] in ('truth', 'is') and a[1][0] == 'call' and a[1][1].split('.')[-1] in ('search', 'match', 'fullmatch'):
                    t = a[1]
                    good = unver(t) == ask(k) or t[1] == '.search' and t[3][:1] == (k,) and t[2] is not None and tells(t[2], sym('select')) and 'IGNORECASE' in show(t[2]) or \
                        t[1] == 're.search' and t[3][:2] == (sym('select'), k) and 'IGNORECASE' in show(t)
                    ctx.need(rid, f.qual, good, 'the name is compared by %s' % show(t), f.where(), taint=t[1] not in ('re.search', 're.match', 're.fullmatch') and t[2] is None or any(q[0] in ('unk', 'phi') for q in walk(t)))
                    found = v if a[0] == 'truth' else not v
                elif a[0] == 'truth' and a[1][0] in ('item', 'itemv'):
                    empty = not v
            req = False if found is False or empty is True else True if found and empty is False else None
            if req is None and (has or found is None and empty is None):
                odd = [a for a, _ in conds if not (a[0] in ('in', 'is', 'truth') and (a[1] == k or 'search' in show(a) or a[1][0] in ('item', 'itemv')))]
                ctx.need(rid, f.qual, False, 'a class is %s when [%s]' % ('kept' if has else 'left out', facts(conds)), f.where(), taint=bool(odd))
            elif req is None:
                ctx.undec(rid, f.qual, 'keeps %s or not whatever it is [%s]' % (show(k), facts(conds)))
            else:
                ctx.need(rid, f.qual, has == req, 'a class is %s when [%s]' % ('kept' if has else 'left out', facts(conds)), f.where())
        if unver(o) in (view, alt):
            recs = [r for r in loops(s.events()) if any(e.kind == 'mut' and e.label in ('delitem', 'pop') for x in r.edges for e in x.events())]
            ctx.need(rid, f.qual, len(recs) == 1, 'gives all the classes', f.where(), taint=len(recs) > 1)
            for r in recs:
                c = unver(strip_at(strip_view(r.coll)))
                direct = c in (view, alt)
                ctx.need(rid, f.qual, direct, 'goes through %s' % show(r.coll), f.where(), taint=True)
                k = ('elem', r.lid)
                cases = [x for q in loops(s.events()) if q is not r and unver(strip_at(strip_view(q.coll))) == c for x in [(y, ('elem', q.lid)) for y in q.edges]]
                for y, kk in cases or [(y, k) for y in r.edges]:
                    gone = any(q.kind == 'mut' and q.label in ('append', 'delitem', 'pop', 'add') for q in y.events())
                    judge(not gone, y.conds, kk, y)
            continue
        if o[0] == 'ref':
            each = [op for op in s.ops(o) if op[0] == 'each']
            if len(each) == 1:
                r = each[0][2]
                c = unver(strip_at(r.coll))
                k = item(('elem', r.lid), C(0)) if c[:2] == ('view', 'items') else ('elem', r.lid)
                ctx.need(rid, f.qual, c in (('view', 'items', view), ('view', 'items', alt)) or strip_view(c) in (view, alt), 'goes through %s' % show(c), f.where(), taint=True)
                for y in r.edges:
                    sets = [op for op in each[0][3](y)]
                    judge(bool(sets), y.conds, k, y)
                    for op in sets:
                        ctx.need(rid, f.qual, op[0] == 'set' and op[1] == k and (op[2] == item(('elem', r.lid), C(1)) or op[2][0] in ('item', 'itemv') and op[2][2] == k), 'gives %s' % (op,), f.where(), taint=True)
                continue
        ctx.need(rid, f.qual, False, 'gives %s' % show(o), f.where(), taint=True)


def check_light(ctx):
    rid = 'C32.light'
    f, I, rows, _ = go_in(ctx, LC + '.lightdump', prints=True)
    for s, o in rows:
        if o[0] == 'exc':
            ctx.need(rid, f.qual, o[1].name == 'KeyError', 'raises %s' % o[1], f.where(), taint=o[1].name is None)
            continue
        evs = list(s.events())
        own = [p for p in printed(evs) if tells(texts(p), attr(SELF, 'name'))]
        ctx.need(rid, f.qual, bool(own), 'the class is not named', f.where())
        some = s.facts.get(truth(attr(SELF, '_items')))
        recs = [r for r in loops(evs) if unver(strip_view(r.coll)) == attr(SELF, '_items')]
        if some is False:
            continue
        ctx.need(rid, f.qual, len(recs) == 1, 'goes %d times through the entries' % len(recs), f.where(), taint=bool(loops(evs)) and not any(cut(r.coll, lambda c: unver(strip_view(c)) == attr(SELF, '_items')) for r in loops(evs)))
        for r in recs:
            E = ('elem', r.lid)
            for e in r.edges:
                if e.kind == 'exc':
                    continue
                ps = printed(e.events())
                ctx.need(rid, f.qual, not any(q.kind == 'mut' and q.recv == E for q in e.events()), 'showing an entry changes the recorded one', f.where())
                ctx.need(rid, f.qual, e.kind == 'next' and len(ps) == 1, 'an entry is printed %d time(s) when [%s]' % (len(ps), facts(e.conds)), f.where(), taint=len(ps) > 1)
                if len(ps) != 1:
                    continue
                t = texts(ps[0])
                hid = subst_deep(t, lambda q: C('?') if q[0] in ('item', 'itemv') and q[1] == E else None)
                whole = any(q == E or q[0] == 'ref' and any(op[0] in ('copy', 'upd') and op[1] == E for op in e.st.ops(q)) for q in walk(hid))
                rest = {cval(op[1]) for q in walk(t) if q[0] == 'ref' for op in e.st.ops(q) if op[0] == 'del' and is_c(op[1])}
                ctx.need(rid, f.qual, mentions(t, lambda q: is_item(q, E, C('name'))) or whole and not rest, 'an entry does not tell its attribute: %s' % show(t), f.where(), taint=mentions(t, lambda q: q[0] in ('unk', 'phi')))
                ctx.need(rid, f.qual, whole and rest <= {'name'}, 'an entry does not show all it holds: %s' % show(t), f.where(), taint=not rest - {'name'} and any(q[0] in ('phi', 'unk', 'ref') for q in walk(hid)))
    f, I, rows, _ = go_in(ctx, 'FootprintLogCollector.lightdump', opaque={LC + '.lightdump'}, prints=True)
    for s, o in rows:
        recs = [r for r in loops(s.events()) if unver(strip_view(r.coll)) == attr(SELF, '_items')]
        if len(recs) > 1:
            recs = [r for r in recs if any(list(e.events()) or e.kind not in ('next', 'exc') for e in r.edges)] or recs[:1]
        ctx.need(rid, f.qual, o[0] != 'exc' and len(recs) == 1, 'goes %d times through the classes' % len(recs), f.where(), taint=o[0] != 'exc' and bool(loops(s.events())))
        for r in recs:
            for e in r.edges:
                cs = [q for q in e.events() if q.kind == 'call' and q.label.endswith('.lightdump') and q.recv == ('elem', r.lid)]
                ctx.need(rid, f.qual, e.kind == 'next' and len(cs) == 1, 'a class is printed %d time(s) when [%s]' % (len(cs), facts(e.conds)), f.where())


def run(ctx):
    ctx.rule('C32.flat', 'a flat report keeps each entry as it is, and is sorted again from all its entries and an empty tree, by the keys given or the former ones')
    ctx.rule('C32.place', 'an entry goes down one level for each sorting key it has, named by the key and its value, making the branch if and only if it is new')
    ctx.rule('C32.leaf', 'an entry that has all the keys (any entry when missing keys are skipped) ends under its focus, with all the information that is left')
    ctx.rule('C32.factor', 'an entry of a factorized report goes down one level per ordering key, named by the first of its names that has a value, and ends under its focus with its arguments; it is refused when a key has none')
    ctx.rule('C32.order', 'the values of a level are listed once each, those that are selected first, in the order of the selection')
    ctx.rule('C32.print', 'printing shows every branch and every entry of the tree once, each value on the way to it included')
    ctx.rule('C32.last', 'iterating over the last search of an XML report gives one dictionary of its own per rejection: class, attribute and reason')
    ctx.rule('C32.whynot', 'the classes given are those of the last search that have rejections and whose name matches, whatever the case')
    ctx.rule('C32.light', 'a light dump shows each class and each of its entries, with all they hold')
    ctx.guard('C32.flat', FL + '.add', lambda: check_flat_add(ctx))
    ctx.guard('C32.leaf', FL + '.reshuffle', lambda: check_reshuffle(ctx))
    ctx.guard('C32.factor', FA + '.add', lambda: check_factor(ctx))
    ctx.guard('C32.order', FA + '.get_order', lambda: check_order(ctx))
    for n in PRINTERS:
        ctx.guard('C32.print', '%s.%s' % (FA, n), lambda n=n: check_printer(ctx, n))
    ctx.guard('C32.print', FA + '.dumper', lambda: check_starts(ctx))
    ctx.guard('C32.last', ST + '.iter_last', lambda: check_last(ctx))
    ctx.guard('C32.whynot', LOG + '.whynot', lambda: check_whynot(ctx))
    ctx.guard('C32.light', LC + '.lightdump', lambda: check_light(ctx))
