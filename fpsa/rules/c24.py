"""What the views of a report hold, whatever was recorded and asked for before.

Recording operations, clearing and views of the report are interpreted on all their paths, alone and one after the other;
what each recording writes, what each view is built from and whether a view may be an outdated one are compared with the
requirements.
"""
from .common import *

TECHNIQUE = ('abstract interpretation (path-sensitive, loop summaries) of the recording operations and views of FootprintLog, alone and in sequences '
             '(cache typestate); contents of each view against the recorded entries')
MINIMA = {'C24.add': 20, 'C24.entry': 6, 'C24.fresh': 60, 'C24.dict': 6, 'C24.flat': 5, 'C24.xml': 6, 'C24.history': 8, 'C24.bound': 2}

KW, ADDKW = sym('KW'), sym('ADDKW')
LOG, CUR = attr(SELF, '_log'), attr(SELF, '_current')
T = {SELF: ('inst', 'FootprintLog')}
COLL, CLS = ('cls', 'FootprintLogCollector'), ('cls', 'FootprintLogClass')
DONE = ('done',)


def final_attr(s, name):
    return s.attrs.get((SELF, name), attr(SELF, name))


def log_changes(s):
    """Changes of a path but the bookkeeping of the report itself."""
    out = []
    for b, op in changes(s):
        if b == SELF and op[0] in ('setattr', 'delattr') and op[1] not in ('_log',):
            continue
        out.append((b, op))
    return out


def kwval(I, s, kw, key):
    """Value of keyword key of a call: [(state, term | None)]."""
    for n, v in kw:
        if n == key:
            return [(s, v)]
    for n, v in kw:
        if n == '**':
            return [(s2, val if has else None) for s2, has, val in I.lookup(s, v, C(key) if isinstance(key, str) else key)]
    return [(s, None)]


# -- recording

def run_add(ctx, st=None):
    I = ctx.interp(types=T)
    st = st or State()
    kw = I.alloc(st, 'dict')
    st.push(kw, ('upd', KW))
    f, rows = execute(ctx, I, 'FootprintLog.add', {'self': SELF, 'kw': kw}, st)
    return f, I, rows


def check_add(ctx):
    f, I, rows = run_add(ctx)
    key = lambda n: item(KW, C(n))
    for s, o in outcomes(rows):
        ch = log_changes(s)
        exc = o[1] if o[0] == 'exc' else None

        def want(q):
            given = lambda n: q(isin(C(n), KW)) and not q(isnone(key(n)))
            if given('collector'):
                return ('collector',)
            cur = CUR
            if given('candidate'):
                if not q(isnone(cur)) and q(isinst(cur, CLS)):
                    cur = attr(cur, 'parent')
                if q(isnone(cur)) or not q(isinst(cur, COLL)):
                    return ('refused',)
                return ('candidate', cur)
            if given('attribute'):
                if q(isnone(cur)) or not q(isinst(cur, CLS)):
                    return ('refused',)
                return ('attribute', cur)
            return ('refused',)
        for s2, w in completions(s, want):
            last = final_attr(s, '_current')
            news = [e for e in s.events() if e.kind == 'call' and e.label.startswith('new FootprintLog')]
            if w[0] == 'refused':
                ok = exc is not None and exc.name is not None and exc_isa(exc.name, 'FootprintBadLogEntry') and not ch and not news
            elif exc is not None:
                ok = exc.name is None or exc.call is not None           # refused by the constructors of the entries
            elif w[0] == 'collector':
                ok = len(news) == 1 and news[0].label == 'new FootprintLogCollector' and dict(news[0].kw).get('node') == key('collector') and \
                    last == news[0].res and ch == [(LOG, ('app', news[0].res))]
            elif w[0] == 'candidate':
                kw = dict(news[0].kw) if len(news) == 1 else {}
                ok = len(news) == 1 and news[0].label == 'new FootprintLogClass' and kw.get('node') == key('candidate') and kw.get('parent') == w[1] and \
                    last == news[0].res and not ch
            else:
                ok = not news and len(ch) == 1 and ch[0][0] == attr(w[1], '_items') and ch[0][1][0] == 'app' and last in (CUR, w[1])
                if ok:
                    ok = entry_ok(I, s2, ch[0][1][1])
            facts = '; '.join(showfact(a, v) for a, v in s2.facts.items())
            ctx.need('C24.add', f.qual, ok, 'when [%s] the recording of %s: %s%s, new entries %s, current %s' % (
                facts, w[0], 'raises %s; ' % exc if exc else '', showchanges(ch), [(e.label, [(n, show(v)) for n, v in e.kw]) for e in news], show(last)), f.where(),
                taint=ok is None or any(tainted(x) for _, op in ch for x in op if isinstance(x, tuple) and x and x[0] != 'ref'))


def entry_ok(I, s, d):
    """The recorded entry holds the keywords of the recording, the attribute under the name `name`."""
    key = item(KW, C('attribute'))
    for s2, has, v in I.lookup(s, d, C('name')):
        if not has or v != key:
            return False
    for s2, has, v in I.lookup(s, d, K):
        eqs = {n: s2.decide(mk_eq(K, C(n))) for n in ('name', 'collector', 'candidate', 'attribute')}
        if any(eqs.values()):
            continue
        given = s2.decide(isin(K, KW))
        if given is None or has != given or has and v != item(KW, K):
            return False
    return True


def check_entry(ctx):
    node, parent = sym('node'), sym('parent')
    for cn, what in (('FootprintLogClass', 'fullname'), ('FootprintLogCollector', 'tag')):
        f = ctx.repo.func(cn + '.__init__')
        I = ctx.interp(types={SELF: ('inst', cn), parent: ('inst', 'FootprintLogCollector')})
        st = State()
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', KW))
        args = {'self': SELF, 'node': node, 'kw': kw}
        if cn == 'FootprintLogClass':
            args['parent'] = parent
        names = [a.arg for a in f.node.args.args]
        if set(args) - {'kw'} != set(names):
            ctx.undec('C24.entry', f.qual, 'parameters %s' % names)
            continue
        f, rows = execute(ctx, I, f.qual, args, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need('C24.entry', f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].call is not None or o[1].name is None)
                continue
            sets = [e.args[0] for e in s.events() if e.kind == 'setattr' and e.recv == SELF and e.label == '_items']
            ctx.need('C24.entry', f.qual, bool(sets) and s.ops(sets[-1]) == (('lit',),), 'the entry does not start empty: %s' % [show(x) for x in sets], f.where(),
                     taint=bool(sets) and tainted(sets[-1]))
            if cn == 'FootprintLogClass':
                pushed = [(b, op) for b, op in changes(s) if b == attr(parent, '_items')]
                ctx.need('C24.entry', f.qual, pushed == [(attr(parent, '_items'), ('app', SELF))], 'the class is attached to the collector by %s' % showchanges(pushed), f.where())
                ctx.need('C24.entry', f.qual, s.attrs.get((SELF, 'parent')) == parent, 'the parent of the class is %s' % show(s.attrs.get((SELF, 'parent'), NONE)), f.where())
            nm = s.attrs.get((SELF, 'name'), NONE)
            good = nm[0] == 'call' and nm[1] in ('.' + what, 'FootprintBase.' + what) and mentions(nm, lambda x: x == node) if what == 'fullname' else \
                nm[0] == 'attr' and nm[2] == what and mentions(nm, lambda x: x == node)
            ctx.need('C24.entry', f.qual, good, 'the name of the entry is %s' % show(nm), f.where(), taint=tainted(nm))
    f = ctx.repo.find_method(ctx.repo.cls('FootprintLogClass'), 'add')
    x = sym('item')
    for cn in ('FootprintLogClass', 'FootprintLogCollector'):
        f = ctx.repo.find_method(ctx.repo.cls(cn), 'add')
        I = ctx.interp(types={SELF: ('inst', cn)})
        f, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.args[1].arg: x})
        for s, o in outcomes(rows):
            ch = changes(s)
            ctx.need('C24.entry', f.qual, ch == [(attr(SELF, '_items'), ('app', x))], 'adding an entry to a %s writes %s' % (cn, showchanges(ch)), f.where())


# -- freshness of the views

VIEWS = {'FootprintLog.as_dict': ('force', 'stamp'), 'FootprintLog.as_xml': ('force',)}


def view_args(q, n):
    return dict({'self': SELF}, **{a: sym('%s%d' % (a, n)) for a in VIEWS[q]})


def marks(s):
    return len(s.events())


def fresh(s, o, since):
    """Was the result built after the event number since, on this path?"""
    if o[0] == 'ref':
        return any(e.kind == 'loop' for e in s.events()[since:]) or None
    for e in s.events()[since:]:
        if e.kind == 'call' and e.res == o and e.label == 'new StandardReport':
            return True
    if o[0] in ('attr', 'sym', 'item'):
        return False
    return None


def style(s, o, stamp):
    """Was the view built in the required style?"""
    if o[0] != 'ref':
        return True
    for op in s.ops(o):
        if op[0] == 'each':
            rec = op[2]
            for e in rec.edges:
                for d in rec.delta(e, o):
                    if d[0] != 'set':
                        continue
                    stamped = mentions(d[1], lambda x: x[0] == 'attr' and x[2] == 'stamp')
                    v = e.st.decide(truth(stamp))
                    if v is None:
                        others = [a[1] for a in e.st.facts if a[0] == 'truth' and a[1][0] == 'sym' and a[1][1].startswith('stamp')]
                        same_ = any(s.decide(mk_eq(x, stamp)) is True for x in others)
                        if not same_:
                            return None if not others else False
                        v = e.st.decide(truth(others[0]))
                    if v is not stamped:
                        return False
    return True


def mutations(ctx):
    """[(name, where, interpreter, state)]: each way the history changes."""
    out = []
    f, I, rows = run_add(ctx)
    for s, o in rows:
        if o[0] == 'ret':
            out.append((f, 'recording', I, s))
    for q in ('FootprintLog.clear', 'FootprintLog.reduce_to_last'):
        I = ctx.interp(types=T)
        f, rows = execute(ctx, I, q, {'self': SELF})
        for s, o in rows:
            if o[0] == 'ret' and changes(s):
                out.append((f, q.split('.')[1], I, s))
    return out


def check_fresh(ctx):
    for f, what, I, s in mutations(ctx):
        since = marks(s)
        for w1 in (None,) + tuple(VIEWS):
            starts = [s]
            if w1 is not None:
                starts = [a for a, o in I_run(ctx, I, w1, view_args(w1, 1), s) if o[0] == 'ret']
            for v in VIEWS:
                for s1 in starts:
                    for s2, o in I_run(ctx, I, v, view_args(v, 2), s1):
                        if o[0] != 'ret':
                            continue
                        name = ' > '.join([what] + ([w1.split('.')[1]] if w1 else []) + [v.split('.')[1]])
                        ok = fresh(s2, o[1], since)
                        cond = '; '.join(showfact(a, b) for a, b in s2.conds())
                        ctx.need('C24.fresh', name, ok is True, 'the view may be the one made before the %s, when [%s]: %s' % (what, cond, show(o[1])), ctx.repo.func(v).where(), taint=ok is None)
                        if 'stamp' in VIEWS[v]:
                            ok = style(s2, o[1], sym('stamp2'))
                            ctx.need('C24.fresh', name, ok is True, 'the view is not in the style asked for, when [%s]' % cond, ctx.repo.func(v).where(), taint=ok is None)


def I_run(ctx, I, q, args, st):
    return I.run(ctx.repo.func(q), dict(args), st.copy())


# -- content of the views

def the_loop(ctx, rid, name, I, s, coll, where):
    """The loop of path s over coll (a predicate)."""
    recs = [e.label for e in s.events() if e.kind == 'loop' and e.label.coll is not None and coll(strip_sort(e.label.coll))]
    if len(recs) > 1:
        # a loop that only reads the entries (for the key of a sort) is none of these
        recs = [r for r in recs if any(list(e.events()) or e.kind not in ('next', 'exc') for e in r.edges)] or recs[:1]
    if len(recs) != 1:
        some = [e for e in s.events() if e.kind == 'loop']
        part = [e for e in some if e.label.coll is not None and e.label.coll[0] == 'call' and e.label.coll[1] == 'slice' and coll(strip_sort(strip_at(e.label.coll[3][0])))]
        ctx.need(rid, name, False, 'goes %d times through the entries%s' % (len(recs), ' (only some of them: %s)' % show(part[0].label.coll) if part else ''), where, taint=bool(some) and not part)
        return None
    for e in recs[0].edges:
        if e.kind not in ('next', 'exc'):
            ctx.need(rid, name, False, 'does not go through all the entries: left when [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), where,
                     taint=any(tainted(a) for a, v in e.conds))
    return recs[0]


def strip_sort(c):
    while c[0] == 'call' and c[1] in ('sorted', 'reversed', 'list', 'tuple', 'iter') and len(c[3]) == 1:
        c = c[3][0]
    return c


def kids(base):
    return lambda c: c == base or c == attr(base, '_items')


def copy_of(I, s, d, E, change):
    """d is a copy of the entry E, but for change: {key: term | None}."""
    for k, w in change.items():
        for s2, has, v in I.lookup(s, d, C(k)):
            if has != (w is not None) or has and v != w:
                return False
    for s2, has, v in I.lookup(s, d, K):
        if any(s2.decide(mk_eq(K, C(k))) for k in change):
            continue
        given = s2.decide(isin(K, E))
        if given is None:
            return None
        if has != given or has and v != item(E, K):
            return False
    return True


def renamed(I, s, d, E, change):
    """d holds one item per item of E, but for change: named by its own name, or by one of the new ones for the item it is taken from. None: cannot tell."""
    d = d[1] if d[0] == 'at' else d
    ops = [op for op in s.ops(d) if not (op[0] == 'lit' and not any(op[1:]))] if d[0] == 'ref' else []
    if len(ops) != 1 or ops[0][0] != 'each':
        return None
    rec = ops[0][2]
    if rec.coll is None or unver(strip_view(rec.coll)) != E:
        return None
    k = ('elem', rec.lid)
    froms = {w[2]: n for n, w in change.items() if w is not None and w[0] == 'item' and w[1] == E and is_c(w[2])}     # old name -> new name
    lost = {C(n) for n, w in change.items() if w is None}
    if any(w is not None and not (w[0] == 'item' and w[1] == E) for w in change.values()) or set(froms) != lost:
        return None
    for e in rec.edges:
        d2 = [op for op in rec.delta(e, d)]
        if e.kind != 'next' or len(d2) != 1 or d2[0][0] != 'set':
            return False if e.kind != 'exc' else None
        if unver(d2[0][2]) != item(E, k):
            return False
        for old, new in froms.items():
            is_old = e.st.decide(mk_eq(k, old))
            if is_old is None:
                return None
            if is_old and d2[0][1] not in (C(new),) or not is_old and d2[0][1] != k and not any(e.st.decide(mk_eq(k, o)) for o in froms):
                return False
    return True


def same_entry(s, E):
    """Is the recorded entry left as it was?"""
    return not [op for op in s.ops(E) if op[0] not in ('lit', 'phi')]


def check_dict(ctx):
    # the report: every search
    f = ctx.repo.func('FootprintLog.as_dict')
    I = ctx.interp(types=T)
    f, rows = execute(ctx, I, f.qual, dict(view_args('FootprintLog.as_dict', 1)))
    for s, o in outcomes(rows):
        if o[0] == 'exc' or o[0] == 'attr':
            continue            # freshness is decided apart
        content(ctx, 'C24.dict', f, I, s, o, lambda c: c == LOG, lambda e, x, k, v: v == ('call', '.as_dict', x, (), (), 0) and
                mentions(k, lambda y: y == attr(x, 'name')) and mentions(k, lambda y: y[0] == 'idx' or y == attr(x, 'stamp') or counter(e.rec, y)))
    f = ctx.repo.func('FootprintLogCollector.as_dict')
    I = ctx.interp(types={SELF: ('inst', 'FootprintLogCollector')})
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    for s, o in outcomes(rows):
        if o[0] != 'exc':
            content(ctx, 'C24.dict', f, I, s, o, kids(SELF), lambda e, x, k, v: v == ('call', '.as_dict', x, (), (), 0) and k == attr(x, 'name'))
    f = ctx.repo.func('FootprintLogClass.as_dict')
    I = ctx.interp(types={SELF: ('inst', 'FootprintLogClass')})
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    for s, o in outcomes(rows):
        if o[0] != 'exc':
            content(ctx, 'C24.dict', f, I, s, o, kids(SELF), lambda e, x, k, v: k == item(x, C('name')) and copy_of(I, e.st, v, x, {'name': None}) and same_entry(e.st, x))


def content(ctx, rid, f, I, s, o, coll, good):
    """The mapping o is filled from the whole collection, one item per element that satisfies good."""
    if o[0] != 'ref':
        ctx.need(rid, f.qual, False, 'gives %s' % show(o), f.where(), taint=tainted(o) or o[0] == 'call')
        return
    ops = [op for op in s.ops(o) if op[0] not in ('lit',)]
    if len(ops) != 1 or ops[0][0] != 'each':
        ctx.need(rid, f.qual, False, 'the view is filled by %s' % (ops,), f.where(), taint=bool(ops))
        return
    rec = ops[0][2]
    if rec.coll is None or not coll(strip_sort(rec.coll)):
        ctx.need(rid, f.qual, False, 'the view is filled from %s' % (show(rec.coll) if rec.coll else None), f.where(), taint=rec.coll is None or tainted(rec.coll))
        return
    x = ('elem', rec.lid)
    for e in rec.edges:
        if e.kind == 'exc':
            continue
        d = rec.delta(e, o)
        cond = '; '.join(showfact(a, v) for a, v in e.conds)
        if e.kind != 'next':
            ctx.need(rid, f.qual, False, 'the view is left when [%s]' % cond, f.where())
            continue
        e.rec = rec
        ok = len(d) == 1 and d[0][0] == 'set' and good(e, x, d[0][1], d[0][2])
        ctx.need(rid, f.qual, ok is True, 'an entry gives %s [%s]' % ([(op[0],) + tuple(show(t) for t in op[1:] if isinstance(t, tuple)) for op in d], cond), f.where(), taint=ok is None)


def counter(rec, t):
    """A variable that grows by one at each turn."""
    if t[0] != 'phi' or t[1] != rec.lid:
        return False
    i = rec.init.get(t[2])
    return i is not None and is_c(i) and isinstance(cval(i), int) and all(e.kind != 'next' or plus_one(e.st.env().get(t[2]), t) for e in rec.edges)


def plus_one(v, t):
    return v is not None and v[0] == 'bin' and v[1] == '+' and (v[2], v[3]) in ((t, C(1)), (C(1), t))


def check_flat(ctx):
    for meth, cls, change, extra in (('as_flat', 'FlatReport', lambda E, kid: {'name': None, 'attribute': item(E, C('name')), 'focus': attr(kid, 'name')}, ()),
                                     ('as_tree', 'FactorizedReport', lambda E, kid: {'class': attr(kid, 'name')}, ())):
        f = ctx.repo.func('FootprintLogCollector.' + meth)
        I = ctx.interp(types={SELF: ('inst', 'FootprintLogCollector')}, opaque={cls + '.add'})
        f, rows = execute(ctx, I, f.qual, {'self': SELF, 'kw': KW})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            ctx.need('C24.flat', f.qual, o[0] == 'call' and o[1] == 'new ' + cls, 'gives %s' % show(o), f.where(), taint=tainted(o))
            outer = the_loop(ctx, 'C24.flat', f.qual, I, s, kids(SELF), f.where())
            if outer is None:
                continue
            kid = ('elem', outer.lid)
            for e in outer.edges:
                if e.kind != 'next':
                    continue
                inner = the_loop(ctx, 'C24.flat', f.qual, I, _Events(e), kids(kid), f.where())
                if inner is None:
                    continue
                E = ('elem', inner.lid)
                for e2 in inner.edges:
                    if e2.kind != 'next':
                        continue
                    adds = [x for x in e2.events() if x.kind == 'call' and x.label == cls + '.add' and x.recv == o]
                    ok = len(adds) == 1
                    if ok:
                        ok = feeds(I, e2.st, adds[0].kw, E, change(E, kid)) if same_entry(e2.st, E) else False
                    ctx.need('C24.flat', f.qual, ok is True, 'an entry is recorded in the view as %s [%s]' % (
                        [[(n, showgot(v)) for n, v in x.kw] for x in adds], '; '.join(showfact(a, v) for a, v in e2.conds)), f.where(), taint=ok is None)
    # the views keep what they are given
    f = ctx.repo.func('FlatReport.add')
    I = ctx.interp(types={SELF: ('inst', 'FlatReport')})
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'kw': KW})
    for s, o in outcomes(rows):
        ch = changes(s)
        ok = len(ch) == 1 and ch[0][0] == attr(SELF, '_items') and ch[0][1][0] == 'app'
        if ok:
            v = ch[0][1][1]
            ok = v == KW or copy_of(I, s, v, KW, {}) is True
        ctx.need('C24.flat', f.qual, ok, 'writes %s' % showchanges(ch), f.where())


class _Events:
    def __init__(self, e):
        self.e = e

    def events(self):
        return self.e.events()


def feeds(I, s, kw, E, change):
    """The keywords are those of the entry E, but for change."""
    named = {n: v for n, v in kw if n != '**'}
    star = [v for n, v in kw if n == '**']
    if len(star) != 1:
        return None
    rest = {}
    for k, w in change.items():
        if k in named:
            if named[k] != w:
                return False
        else:
            rest[k] = w
    if set(named) - set(change):
        return False
    r = renamed(I, s, star[0], E, rest)
    return copy_of(I, s, star[0], E, rest) if r is None else r


def check_xml(ctx):
    doc = sym('xmlnode')
    types = {doc: ('inst', 'StandardReport')}
    opq = {'StandardReport.add', 'StandardReport.new_entry', 'StandardReport.current'}
    # the report
    f = ctx.repo.func('FootprintLog.as_xml')
    I = ctx.interp(types=T, opaque=opq)
    f, rows = execute(ctx, I, f.qual, view_args('FootprintLog.as_xml', 1))
    for s, o in outcomes(rows):
        if o[0] == 'exc' or o[0] == 'attr':
            continue
        rec = the_loop(ctx, 'C24.xml', f.qual, I, s, lambda c: c == LOG, f.where())
        if rec is not None:
            for e in rec.edges:
                calls = [x for x in e.events() if x.kind == 'call' and x.label.endswith('feed_xml')]
                ok = len(calls) == 1 and calls[0].recv == ('elem', rec.lid) and (o in calls[0].args or o in dict(calls[0].kw).values())
                ctx.need('C24.xml', f.qual, ok or e.kind == 'exc', 'a search is not fed to the document [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), f.where(), taint=tainted(o))
    # a search
    f = ctx.repo.func('FootprintLogCollector.feed_xml')
    I = ctx.interp(types={doc: types[doc], SELF: ('inst', 'FootprintLogCollector')}, opaque=opq)
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'xmlnode': doc})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        base = [e for e in s.events() if e.kind == 'call' and e.label == 'StandardReport.new_entry' and e.recv == doc]
        ok = len(base) == 1 and dict(base[0].kw).get('key') == C('collector') and dict(base[0].kw).get('name') == attr(SELF, 'name')
        ctx.need('C24.xml', f.qual, ok, 'the search is inserted as %s' % [[(n, show(v)) for n, v in e.kw] for e in base], f.where())
        rec = the_loop(ctx, 'C24.xml', f.qual, I, s, kids(SELF), f.where())
        if rec is not None and ok:
            for e in rec.edges:
                seq = [x for x in e.events() if x.kind == 'call']
                feed = [i for i, x in enumerate(seq) if x.label.endswith('feed_xml') and x.recv == ('elem', rec.lid) and (doc in x.args or doc in dict(x.kw).values())]
                under = feed and any(x.label == 'StandardReport.current' and dict(x.kw).get('node') == base[0].res for x in seq[:feed[0]])
                ctx.need('C24.xml', f.qual, e.kind == 'exc' or len(feed) == 1 and under, 'a class is not fed to the document under its search', f.where())
    # a class
    f = ctx.repo.func('FootprintLogClass.feed_xml')
    I = ctx.interp(types={doc: types[doc], SELF: ('inst', 'FootprintLogClass')}, opaque=opq)
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'xmlnode': doc})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        seq = [e for e in s.events() if e.kind in ('call', 'loop')]
        head = [e for e in seq if e.kind == 'call' and e.label == 'StandardReport.add']
        ok = len(head) == 1 and dict(head[0].kw).get('key') == C('class') and dict(head[0].kw).get('name') == attr(SELF, 'name')
        ok = ok and any(e.kind == 'call' and e.label == 'StandardReport.current' and dict(e.kw).get('node') == head[0].res for e in seq)
        ctx.need('C24.xml', f.qual, ok, 'the class is inserted as %s' % [[(n, show(v)) for n, v in e.kw] for e in head], f.where())
        rec = the_loop(ctx, 'C24.xml', f.qual, I, s, kids(SELF), f.where())
        if rec is None:
            continue
        E = ('elem', rec.lid)
        for e in rec.edges:
            adds = [x for x in e.events() if x.kind == 'call' and x.label == 'StandardReport.add' and x.recv == doc]
            ok = len(adds) == 1 and dict(adds[0].kw).get('key') == C('attribute')
            star = [v for n, v in adds[0].kw if n == '**'] if ok else []
            if ok and len(star) == 1 and strip_at(star[0])[0] == 'ref':
                for s2, has, v in I.lookup(e.st, star[0], K):
                    given = s2.decide(isin(K, E))
                    ok = ok and has == given and (not has or v == ('call', 'str', None, (item(E, K),), (), 0))
            elif ok:
                ok = None
            ctx.need('C24.xml', f.qual, ok or e.kind == 'exc', 'an entry is inserted as %s' % [[(n, showgot(v)) for n, v in x.kw] for x in adds], f.where(), taint=ok is None)
    # the document
    f = ctx.repo.func('StandardReport.add')
    I = ctx.interp(types={SELF: ('inst', 'StandardReport')})
    key = sym('key')
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'key': key, 'kw': KW})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        seq = [e for e in s.events() if e.kind == 'call']
        made = [e for e in seq if e.label == '.createElement']
        put = [e for e in seq if e.label == '.appendChild']

        def want(q):
            return item(KW, C('base')) if q(isin(C('base'), KW)) else attr(SELF, '_current')
        for s2, base in completions(s, want):
            ok = len(made) == 1 and made[0].args == (key,) and len(put) == 1 and put[0].recv == base and put[0].args == (made[0].res,)
            ctx.need('C24.xml', f.qual, ok, 'the element is put in the document by %s' % [(show(e.recv), [show(a) for a in e.args]) for e in made + put], f.where())
        recs = [e.label for e in s.events() if e.kind == 'loop']
        good = False
        for rec in recs:
            c = strip_view(strip_sort(rec.coll)) if rec.coll is not None else None
            while c is not None and c[0] in ('view', 'at'):
                c = c[2] if c[0] == 'view' else c[1]
            c = strip_sort(c) if c is not None else None
            while c is not None and c[0] in ('view', 'at'):
                c = c[2] if c[0] == 'view' else c[1]
            sets = [[x for x in e.events() if x.kind == 'call' and x.label == '.setAttribute'] for e in rec.edges if e.kind == 'next']
            good = good or c == KW and all(len(x) == 1 and x[0].recv in ([made[0].res] + [p.res for p in put]) and x[0].args[0] == ('elem', rec.lid) and
                                           x[0].args[1][0] in ('item', 'itemv') and strip_at(x[0].args[1][1]) == KW and x[0].args[1][2] == ('elem', rec.lid)
                                           for x in sets) and all(e.kind == 'next' for e in rec.edges)
        ctx.need('C24.xml', f.qual, good, 'the element does not get all its attributes', f.where(), taint=not recs)


def check_top(ctx):
    """A top level entry is put under the root of the document."""
    f = ctx.repo.func('StandardReport.new_entry')
    I = ctx.interp(types={SELF: ('inst', 'StandardReport')})
    st = State()
    kw = I.alloc(st, 'dict')
    st.push(kw, ('upd', KW))
    for s, o in outcomes(I.run(f, {'self': SELF, 'key': sym('key'), 'kw': kw}, st)):
        if o[0] == 'exc':
            continue
        put = [e for e in s.events() if e.kind == 'call' and e.label == '.appendChild']
        made = [e for e in s.events() if e.kind == 'call' and e.label == '.createElement']
        ok = len(put) == 1 and len(made) == 1 and put[0].recv == attr(SELF, 'root') and put[0].args == (made[0].res,) and made[0].args == (sym('key'),)
        ctx.need('C24.xml', f.qual, ok, 'a top level element is put in the document by %s, when [%s]' % ([(show(e.recv), [show(a) for a in e.args]) for e in made + put], '; '.join(showfact(a, v) for a, v in s.conds())), f.where())


def strip_at(t):
    while t[0] == 'at':
        t = t[1]
    return t


# -- history

def check_history(ctx):
    f = ctx.repo.func('FootprintLog.clear')
    I = ctx.interp(types=T)
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    for s, o in outcomes(rows):
        log = final_attr(s, '_log')
        empty = [op[0] for op in s.ops(LOG)] == ['clr'] if log == LOG else s.kind(log) == 'deque' and s.ops(log) == (('lit',),)
        ctx.need('C24.history', f.qual, o[0] != 'exc' and empty, 'entries may be left', f.where())
        ctx.need('C24.history', f.qual, final_attr(s, '_current') == NONE, 'the context of the next entries is still %s' % show(final_attr(s, '_current')), f.where())
        bounded(ctx, f, s)
    f = ctx.repo.func('FootprintLog.reduce_to_last')
    I = ctx.interp(types=T)
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    n = call('len', None, LOG)
    for s, o in outcomes(rows):
        log = final_attr(s, '_log')
        bounded(ctx, f, s)
        if log == LOG:
            ops = s.ops(LOG)
            if [op[0] for op in ops if op[0] != 'lit'] == ['clr', 'app'] and is_last(ops[-1][1]):
                continue
            if [op[0] for op in ops if op[0] != 'lit'] == ['clr'] and s.decide(truth(LOG)) is False:
                continue
            # only entries at the front are taken out, and only while there are several
            bad = []
            for op in ops:
                if op[0] == 'each':
                    for e in op[2].edges:
                        d = op[2].delta(e, LOG)
                        several = any(more_than_one(a, v) for a, v in e.conds)
                        if any(x[0] != 'popl' for x in d) or len(d) > 1 or d and not several:
                            bad.append(d)
                elif op[0] != 'popl' and op[0] != 'lit':
                    bad.append(op)
            few = any(a[0] == 'lt' and not v and mentions(a, is_len) or a[0] == 'truth' and mentions(a, is_len) or a[0] == 'truth' and not v and strip_at(a[1]) == LOG or
                      a[0] == 'eq' and mentions(a, is_len) for a, v in s.facts.items())
            ctx.need('C24.history', f.qual, not bad and few, 'the history is not cut down to its last search: %s' % (bad or 'several may be left'), f.where(), taint=False)
        elif log[0] == 'ref':
            vals = [op for op in s.ops(log) if op[0] != 'lit']
            ok = len(vals) == 1 and vals[0][0] == 'app' and is_last(vals[0][1]) or not vals and s.decide(truth(LOG)) is False
            part = len(vals) == 1 and vals[0][0] == 'ext' and vals[0][1][0] == 'call' and vals[0][1][1] == 'slice' and strip_at(vals[0][1][3][1]) == C(-1)
            ctx.need('C24.history', f.qual, ok or part, 'the history is replaced by %s' % (vals,), f.where(), taint=any(x[0] in ('ext', 'upd', 'each', 'lit') for x in vals))
        else:
            ctx.need('C24.history', f.qual, False, 'the history is replaced by %s' % show(log), f.where(), taint=tainted(log))
        cur = final_attr(s, '_current')
        ctx.need('C24.history', f.qual, cur == CUR or tainted(cur), 'the context of the next entries becomes %s' % show(cur), f.where())
    I = ctx.interp(types=T)
    f, rows = execute(ctx, I, 'FootprintLog.last', {'self': SELF})
    ctx.conform('C24.history', f.qual, outcomes(rows), lambda q: Want('the last search', lambda s, got: is_last(got) or tainted(got) and None) if q(truth(LOG)) else NONE, f.where())
    # why a class was not selected: the last search
    sel = sym('select')
    f = ctx.repo.func('FootprintLog.whynot')
    I = ctx.interp(types=T)
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'select': sel})
    last = item(LOG, C(-1))
    D = ('call', '.as_dict', last, (), (), 0)
    match = lambda k: ('call', 're.search', None, (sel, k, ('ext', 're.IGNORECASE')), (), 0)
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        if s.decide(truth(LOG)) is False:
            ctx.need('C24.history', f.qual, o == NONE, 'gives %s' % show(o), f.where())
            continue
        if o == NONE:
            continue
        for s2, has, v in I.lookup(s, o, K):
            asked = truth(match(K))
            for a in s2.facts:
                # the same question to the compiled expression
                t = a[1] if a[0] in ('truth', 'is') else ()
                if t[:2] == ('call', '.search') and t[3][:1] == (K,) and t[2][:2] == ('call', 're.compile') and (t[2][3] + tuple(v for _, v in t[2][4])) in ((sel, match(K)[3][2]), (sel, ('glob', 're.IGNORECASE'))):
                    asked = truth(t)

            def want(q):
                if q(isin(K, D)) and q(asked) and q(truth(item(D, K))):
                    return item(D, K)
                return ('absent',)
            ctx.conform('C24.history', f.qual, [(s2, v if has else ('absent',))], want, f.where())


def is_last(t):
    """The last entry of the history, by whichever index."""
    return t[0] == 'item' and strip_at(t[1]) == LOG and (t[2] == C(-1) or t[2] == ('bin', '+', call('len', None, LOG), C(-1)))


def is_len(x):
    return x[0] == 'call' and x[1] == 'len' and len(x[3]) == 1 and strip_at(x[3][0]) == LOG


def more_than_one(a, v):
    return a[0] == 'lt' and v and a[1] == C(1) and is_len(a[2]) or a[0] == 'lt' and not v and is_len(a[1]) and a[2] == C(2) or a[0] == 'in' and False


def bounded(ctx, f, s):
    log = final_attr(s, '_log')
    if log == LOG:
        ok = True
    elif log[0] == 'ref' and s.kind(log) == 'deque':
        ml = s.attrs.get((log, 'maxlen'))
        ok = ml is not None and ml == attr(LOG, 'maxlen')
    else:
        ok = False
    ctx.need('C24.bound', f.qual, ok, 'the history becomes %s, without its bound' % show(log), f.where(), taint=tainted(log))


def check_bound(ctx):
    f = ctx.repo.func('FootprintLog.__init__')
    I = ctx.interp(types=T)
    n = sym('log_maxlen')
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'log_maxlen': n, 'weak': sym('weak')})
    for s, o in outcomes(rows):
        log = final_attr(s, '_log')
        ok = log[0] == 'ref' and s.kind(log) == 'deque' and s.attrs.get((log, 'maxlen')) == n
        ctx.need('C24.bound', f.qual, ok, 'the history is %s, without the bound asked for' % show(log), f.where(), taint=tainted(log))


def run(ctx):
    ctx.rule('C24.add', 'a recording makes exactly one entry in its context (report, current collector, current class), or is refused with the dedicated error')
    ctx.rule('C24.entry', 'an entry starts empty, bears the name of what it is about and is attached once to its parent')
    ctx.rule('C24.fresh', 'after any change of the history, a view is built again, in the style asked for, whatever was viewed in between')
    ctx.rule('C24.dict', 'dictionary views go through all entries of all classes of all searches, under their own names')
    ctx.rule('C24.flat', 'flat and factorized views are given every recorded entry with its class')
    ctx.rule('C24.xml', 'the XML view holds every search, class and entry, nested as recorded')
    ctx.rule('C24.history', 'clearing leaves nothing, reducing the last search; the last search is the one diagnosed')
    ctx.rule('C24.bound', 'the history keeps the bound it was created with')
    ctx.guard('C24.add', 'FootprintLog.add', lambda: check_add(ctx))
    ctx.guard('C24.entry', 'FootprintLogClass.__init__', lambda: check_entry(ctx))
    ctx.guard('C24.fresh', 'FootprintLog.as_dict', lambda: check_fresh(ctx))
    ctx.guard('C24.dict', 'FootprintLog.as_dict', lambda: check_dict(ctx))
    ctx.guard('C24.flat', 'FootprintLogCollector.as_flat', lambda: check_flat(ctx))
    ctx.guard('C24.xml', 'FootprintLog.as_xml', lambda: check_xml(ctx))
    ctx.guard('C24.xml', 'StandardReport.new_entry', lambda: check_top(ctx))
    ctx.guard('C24.history', 'FootprintLog.clear', lambda: check_history(ctx))
    ctx.guard('C24.bound', 'FootprintLog.__init__', lambda: check_bound(ctx))
