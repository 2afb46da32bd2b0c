"""Priority levels form one consistent order.

Every operation of the set and of a level is reduced to what it does to the list of names: the initial list, without some
names, one of which is put back at a symbolic place.  The comparisons are decision tables over the ranks.
"""
import ast

from .common import *
from .ranking import *

TECHNIQUE = 'static analysis: abstract interpretation of the operations in a domain of ordered lists, decision tables of the comparisons'
MINIMA = {'C19.compare': 4, 'C19.read': 8, 'C19.move': 5, 'C19.add': 4, 'C19.remove': 2, 'C19.fail': 5}
L = attr(SELF, '_levels')
D = attr(SELF, '__dict__')
PS = attr(SELF, '_pset')
PL = attr(PS, '_levels')
PD = attr(PS, '__dict__')
TAG = sym('tag')
OTHER = sym('other')


def up(x):
    return call('.upper', x)


def ups(x):
    return call('.upper', call('str', None, x))


def rank(pset, tag):
    return call('.index', attr(pset, '_levels'), tag)


NAME = up(sym('ownname'))


def level_state(level=SELF, st=None, name=None):
    """A level: its name is an upper-case text."""
    st = st or State()
    st.attrs[(level, '_tag')] = name or NAME
    return st


def failures(s, o, levels, dic):
    """What a failing operation changed."""
    ch = [(b, op) for b, op in changes(s) if b in (levels, dic) or b[0] == 'attr' and b[2] in ('_levels', '__dict__') or op[0] == 'setattr']
    return ch


def operation(ctx, rid, qual, args, types, want, levels, dic, st=None, infeasible=lambda s: False):
    """want(s, q) -> None (any failure), or (order, name or None): the order after, the name whose level is given."""
    f = ctx.repo.func(qual)

    def go():
        I = ctx.interp(types=types)
        st0 = st or State()
        st0.attrs[(levels[1], levels[2])] = levels        # no level has this name
        _, rows = execute(ctx, I, qual, args, st0)
        for s, o in outcomes(rows):
            if infeasible(s):
                continue
            for s2, w in completions(s, lambda q: want(s, q)):
                if w == 'fails':
                    ctx.need('C19.fail', f.qual, o[0] == 'exc', 'does not fail when [%s]' % conds(s2), f.where(), taint=any(tainted(a) for a, _ in s.conds()))
                    ch = failures(s, o, levels, dic)
                    ctx.need('C19.fail', f.qual, not ch, 'changes the set before it fails: %s' % showchanges(ch), f.where())
                    continue
                if o[0] == 'exc':
                    ctx.need(rid, f.qual, False, 'raises %s when [%s]' % (o[1], conds(s2)), f.where(), taint=o[1].name is None)
                    continue
                accept, name = w
                try:
                    got = canon(s, final(I, s, levels))
                except Unclear as e:
                    ctx.undec(rid, f.qual, 'order of the levels unknown: %s' % e)
                    continue
                ctx.need(rid, f.qual, any(same_order(s, got, a) for a in accept), 'when [%s] the order becomes: %s; required: %s' % (conds(s2), got, accept[0]), f.where(), taint=tainted(repr_terms(got)))
                if name is None:
                    for op in s.ops(dic):
                        if op[0] == 'set':
                            ctx.need(rid, f.qual, not is_c(op[2]), 'leaves %s as the level object of %s' % (show(op[2]), show(op[1])), f.where())
                    continue
                # a level object is there for the name
                for s3, has, v in I.lookup(s2, dic, name):
                    if not has and s3.facts.get(isin(name, levels)) and not [op for op in s.ops(dic) if op[0] == 'del']:
                        continue        # names of the list have their object
                    ok = has and (v == item(dic, name) or v[0] == 'call' and v[1] == 'new PriorityLevel' and dict(v[4]) == {'tagname': name, 'pset': dic[1]})
                    ctx.need(rid, f.qual, ok, 'the level object of the name is %s' % (show(v) if has else 'missing'), f.where(), taint=has and tainted(v))
    ctx.guard(rid, f.qual, go)


def final(I, s, levels):
    """The list held by the attribute at the end."""
    b = s.attrs.get((levels[1], levels[2]), levels)
    return order(I, s, b)


def repr_terms(o):
    return ('tup', tuple(o.gone) + ((o.put[0],) if o.put else ()))


def same_order(s, got, want):
    if got == want:
        return True
    # the last place of a list without the name
    return got.base == want.base and got.gone == want.gone and (got.put is None) == (want.put is None) and got.put and got.put[0] == want.put[0] and got.put[1] == want.put[1]


def conds(s):
    return '; '.join(showfact(a, v) for a, v in s.conds())


def placed(base, s, t, *pos):
    return [canon(s, Order(base, {t}, (t, p))) for p in pos]


# ------------------------------------------------------------------ comparisons
def check_compare(ctx):
    rid = 'C19.compare'
    cls = ctx.repo.cls('PriorityLevel')
    mine = rank(PS, NAME)
    HIS = up(sym('hisname'))

    def table(name, atom):
        m = ctx.repo.find_method(cls, name)
        if m is None:
            return False
        o = m.node.args.args[1].arg

        def go():
            # another level
            for k in ('level', 'name'):
                x = sym(o)
                st = level_state()
                st = st.assume(isin(NAME, PL), True)
                if k == 'level':
                    st = level_state(x, st, HIS).assume(isin(HIS, attr(attr(x, '_pset'), '_levels')), True)
                    I = ctx.interp(types={SELF: ('inst', 'PriorityLevel'), x: ('inst', 'PriorityLevel')})
                    theirs = rank(attr(x, '_pset'), HIS)
                else:
                    st = st.assume(isinst(x, ('cls', 'PriorityLevel')), False)
                    I = ctx.interp(types={SELF: ('inst', 'PriorityLevel')})
                    # the level of that name in the set of this one
                    lv = item(PD, ups(x))
                    theirs = None
                _, rows = execute(ctx, I, m.qual, {'self': SELF, o: x}, st)
                for s, r in outcomes(rows):
                    if k == 'level':
                        if r[0] == 'exc':
                            ctx.need(rid, m.qual, False, 'raises %s for two levels' % (r[1],), m.where(), taint=r[1].name is None)
                            continue
                        ctx.conform(rid, m.qual, [(s, r)], lambda q: FALSE if r == ('glob', 'NotImplemented') else TRUE if q(atom(mine, theirs)) else FALSE, m.where())
                        continue
                    by_name(ctx, rid, m, s, r, x, atom, mine)
        ctx.guard(rid, m.qual, go)
        return True

    def by_name(ctx, rid, m, s, r, x, atom, mine):
        known = s.facts.get(isin(ups(x), PL))
        if s.facts.get(truth(call('str', None, x))) is False:
            known = False
        raised = any(a[0] == 'raises' and v for a, v in s.facts.items())
        if known is False or raised:
            # not a level of the set
            if m.name == '__eq__' and not (r[0] == 'exc' and r[1].call is not None and r[1].call[1] == 'str'):
                ctx.need(rid, m.qual, r == FALSE, 'gives %s for something that is not a level of the set' % (r[1] if r[0] == 'exc' else show(r),), m.where(), taint=r[0] != 'exc' and tainted(r))
            else:
                ctx.ok(rid, m.qual)
            return
        if known is None:
            if r[0] == 'exc' or r == FALSE:
                ctx.ok(rid, m.qual)
                return
        lv = item(PD, ups(x))
        if s.facts.get(isin(ups(x), PD)) is False or s.facts.get(('is', lv, NONE)):
            return          # each name of the list has its level object
        if r[0] == 'exc':
            # the object found under this name is one of this set and its name is in the list
            bad = any(a[0] == 'in' and not v and mentions(a, lambda y: y == lv) for a, v in s.facts.items()) or any(a[0] == 'isinstance' and a[1] == lv and not v for a, v in s.facts.items())
            ctx.need(rid, m.qual, bad or r[1].call is not None, 'raises %s for a level of the set when [%s]' % (r[1], conds(s)), m.where(), taint=r[1].name is None)
            return
        if any(a[0] == 'isinstance' and a[1] == lv and not v for a, v in s.facts.items()):
            return
        byobj = rank(attr(lv, '_pset'), up(attr(lv, '_tag')))
        bytag = rank(PS, ups(x))
        opq = call('.rank', lv)
        used = [t for t in (byobj, bytag, opq, attr(lv, 'rank')) if any(mentions(a, lambda y: y == t) for a in s.facts) or mentions(r, lambda y: y == t)]
        ctx.need(rid, m.qual, bool(used), 'gives %s for the name of a level when [%s]' % (show(r), conds(s)), m.where(), taint=tainted(r) or any(tainted(a) for a in s.facts))
        if used:
            ctx.conform(rid, m.qual, [(s, r)], lambda q: TRUE if q(atom(mine, used[0])) else FALSE, m.where())

    le = lambda a, b: lt(b, a)
    have = {}
    for name, atom, neg in (('__eq__', lambda a, b: mk_eq(a, b), 0), ('__lt__', lambda a, b: lt(a, b), 0), ('__gt__', lambda a, b: lt(b, a), 0), ):
        have[name] = table(name, atom)
    for name, atom in (('__le__', lambda a, b: lt(b, a)), ('__ge__', lambda a, b: lt(a, b)), ('__ne__', lambda a, b: mk_eq(a, b))):
        m = ctx.repo.find_method(cls, name)
        have[name] = m is not None
        if m is not None:
            negated(ctx, rid, m, atom, mine)
    node = cls.node
    total = any(ast.unparse(d).split('.')[-1] == 'total_ordering' for d in node.decorator_list)
    ctx.need(rid, cls.name, have['__eq__'] and (total and any(have[x] for x in ('__lt__', '__gt__', '__le__', '__ge__')) or all(have[x] for x in ('__lt__', '__gt__', '__le__', '__ge__'))),
             'some comparisons of levels are not defined', '%s:%s' % (cls.module.rel, node.lineno))


def negated(ctx, rid, m, atom, mine):
    o = m.node.args.args[1].arg
    x = sym(o)

    def go():
        HIS = up(sym('hisname'))
        st = level_state(x, level_state(), HIS).assume(isin(NAME, PL), True).assume(isin(HIS, attr(attr(x, '_pset'), '_levels')), True)
        I = ctx.interp(types={SELF: ('inst', 'PriorityLevel'), x: ('inst', 'PriorityLevel')})
        _, rows = execute(ctx, I, m.qual, {'self': SELF, o: x}, st)
        ctx.conform(rid, m.qual, outcomes(rows), lambda q: FALSE if q(atom(mine, rank(attr(x, '_pset'), up(attr(x, '_tag'))))) else TRUE, m.where())
    ctx.guard(rid, m.qual, go)


# ------------------------------------------------------------------ queries
def check_read(ctx):
    rid = 'C19.read'
    P, S = {SELF: ('inst', 'PriorityLevel')}, {SELF: ('inst', 'PrioritySet')}
    T = NAME
    inset = isin(T, PL)
    fails = Want('an error', lambda s, got: got[0] == 'exc')
    # rank and call
    for q in ('PriorityLevel.rank', 'PriorityLevel.__call__'):
        simple(ctx, rid, q, {'self': SELF}, lambda q: rank(PS, T) if q(inset) else fails, types=P, st=level_state())
    simple(ctx, rid, 'PriorityLevel.tag', {'self': SELF}, lambda q: NAME, types=P, st=level_state())
    simple(ctx, rid, 'PriorityLevel.inset', {'self': SELF}, lambda q: PS, types=P)

    def neighbour(d):
        i = ('bin', '+', rank(PS, T), C(d))

        def want(q):
            if not q(inset):
                return fails
            if q(lt(i, C(0))) or not q(lt(i, call('len', None, PL))):
                return NONE
            return item(PD, item(PL, i))
        return want
    simple(ctx, rid, 'PriorityLevel.nextlevel', {'self': SELF}, neighbour(1), types=P, st=level_state())
    simple(ctx, rid, 'PriorityLevel.prevlevel', {'self': SELF}, neighbour(-1), types=P, st=level_state())
    simple(ctx, rid, 'PrioritySet.levelindex', {'self': SELF, 'tag': TAG}, lambda q: rank(SELF, up(TAG)) if q(isin(up(TAG), L)) else fails, types=S)

    def lev(q):
        if q(isinst(TAG, ('cls', 'PriorityLevel'))):
            return TAG
        if not q(truth(TAG)) or not q(isin(ups(TAG), L)):
            return NONE
        return item(D, ups(TAG))
    simple(ctx, rid, 'PrioritySet.level', {'self': SELF, 'tag': TAG}, lev, types=S)
    # membership, by level and by name
    f = ctx.repo.func('PrioritySet.__contains__')
    p = f.node.args.args[1].arg
    simple(ctx, rid, f.qual, {'self': SELF, p: sym('x')}, lambda q: TRUE if q(isin(up(attr(sym('x'), '_tag')), L)) else FALSE, types={SELF: ('inst', 'PrioritySet'), sym('x'): ('inst', 'PriorityLevel')})
    txt = call('str', None, sym('x'))
    simple(ctx, rid, f.qual, {'self': SELF, p: txt}, lambda q: TRUE if q(isin(up(txt), L)) else FALSE, types=S)
    simple(ctx, rid, 'PrioritySet.__len__', {'self': SELF}, lambda q: call('len', None, L), types=S)
    # the lists given are the current order
    for q in ('PrioritySet.__call__', 'PrioritySet.levels', 'PrioritySet.__iter__'):
        f = ctx.repo.func(q)

        def go(f=f):
            I = ctx.interp(types=S)
            _, rows = execute(ctx, I, f.qual, {'self': SELF})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where())
                    continue
                try:
                    got = canon(s, order(I, s, o))
                except Unclear as e:
                    try:
                        check_seq(ctx, rid, f.qual, I, s, o, L, lambda q: [E0], f.where())
                    except Unclear:
                        ctx.undec(rid, f.qual, str(e))
                    continue
                ctx.need(rid, f.qual, got == Order(L) and (o != L or f.name == '__iter__'), 'gives %s' % (got if o != L else 'the list of the set itself'), f.where())
        ctx.guard(rid, f.qual, go)


# ------------------------------------------------------------------ moves
def check_moves(ctx):
    rid = 'C19.move'
    P, S = {SELF: ('inst', 'PriorityLevel')}, {SELF: ('inst', 'PrioritySet')}
    T = NAME
    LEN = ('len', 1)

    def level_move(name, accept):
        def want(s, q):
            if not q(isin(T, PL)):
                return 'fails'
            return accept(s), T
        operation(ctx, rid, 'PriorityLevel.' + name, {'self': SELF}, P, want, PL, PD, st=level_state())
    # index >= 0: one step more is never negative
    level_move('up', lambda s: placed(PL, s, T, ('shift', 1, (), ''), ('shift', 1, (), 'clamped')))
    was = rank(PS, T)
    minus = [('bin', '+', was, C(-1)), ('bin', '-', was, C(1))]

    def down(s):
        low = [s.facts.get(lt(m, C(0))) for m in minus]
        if True in low or s.facts.get(lt(was, C(1))) is True or s.facts.get(mk_eq(was, C(0))) is True or s.facts.get(truth(was)) is False:
            return placed(PL, s, T, ('first',), ('shift', 0, (), ''), ('shift', -1, (), 'clamped')) + [Order(PL)]
        if False in low or s.facts.get(lt(was, C(1))) is False or s.facts.get(mk_eq(was, C(0))) is False or s.facts.get(truth(was)) is True or s.facts.get(lt(C(0), was)) is True:
            return placed(PL, s, T, ('shift', -1, (), ''), ('shift', -1, (), 'clamped'))
        return placed(PL, s, T, ('shift', -1, (), 'clamped'))
    level_move('down', down)
    level_move('top', lambda s: placed(PL, s, T, ('end',), ('shift', 0, ((1, LEN),), ''), ('shift', -1, ((1, LEN),), ''), ('shift', 0, ((1, LEN),), 'clamped')))

    def bottom(s):
        acc = placed(PL, s, T, ('first',), ('shift', 0, ((1, ('len', -1)),), 'clamped'), ('shift', 0, ((-1, LEN),), 'clamped'))
        # the index is less than the length: not on a real path
        if any(a[0] == 'lt' and not v and a[2] == C(0) and mentions(a, lambda x: x[0] == 'call' and x[1] == 'len') for a, v in s.facts.items()):
            acc += placed(PL, s, T, ('shift', 0, ((1, ('len', -1)),), ''), ('shift', 0, ((-1, LEN),), ''))
        return acc
    level_move('bottom', bottom)
    # the general one
    f = ctx.repo.func('PrioritySet.rerank')
    a, b = [x.arg for x in f.node.args.args[1:3]]
    T2, U = up(sym(a)), sym(b)
    to = ('bin', '+', rank(SELF, T2), U)

    def want(s, q):
        if not q(isin(T2, L)):
            return 'fails'
        low = s.facts.get(lt(to, C(0)))
        if low is True:
            return placed(L, s, T2, ('first',), ('shift', 0, ((1, U),), 'clamped')), T2
        return placed(L, s, T2, *([('shift', 0, ((1, U),), '')] if low is False else []) + [('shift', 0, ((1, U),), 'clamped')]), T2
    operation(ctx, rid, f.qual, {'self': SELF, a: sym(a), b: U}, S, want, L, D)


# ------------------------------------------------------------------ additions and removals
def check_add(ctx):
    rid = 'C19.add'
    P, S = {SELF: ('inst', 'PriorityLevel')}, {SELF: ('inst', 'PrioritySet')}
    f = ctx.repo.func('PrioritySet.insert')
    AF, BE = sym('after'), sym('before')
    T = ups(TAG)

    def want(s, q):
        if q(('is', TAG, NONE)):
            return [Order(L)], None
        ref = None
        if not q(('is', AF, NONE)):
            ref, off = AF, 1
        elif not q(('is', BE, NONE)):
            ref, off = BE, 0
        if ref is None:
            return placed(L, s, T, ('end',)), T
        R = up(attr(ref, '_tag')) if q(isinst(ref, ('cls', 'PriorityLevel'))) else up(ref)
        if q(mk_eq(R, T)) or not q(isin(R, L)):
            return 'fails'
        return placed(L, s, T, ('near', R, off)), T
    operation(ctx, rid, f.qual, {'self': SELF, 'tag': TAG, 'after': AF, 'before': BE}, S, want, L, D)
    MY = NAME
    for name, off in (('addafter', 1), ('addbefore', 0)):
        g = ctx.repo.func('PriorityLevel.' + name)
        p = g.node.args.args[1].arg
        X = ups(sym(p))

        def want2(s, q, off=off, p=p, X=X):
            if q(('is', sym(p), NONE)):
                return [Order(PL)], None
            if q(mk_eq(MY, X)) or not q(isin(MY, PL)):
                return 'fails'
            return placed(PL, s, X, ('near', MY, off)), X
        operation(ctx, rid, g.qual, {'self': SELF, p: sym(p)}, P, want2, PL, PD, st=level_state())
    # several levels at the top
    f = ctx.repo.func('PrioritySet.extend')
    LV = sym('levels')

    def go():
        I = ctx.interp(types=S)
        st = State()
        st.attrs[(SELF, '_levels')] = L        # no level has this name
        _, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.vararg.arg: LV}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            recs = [e.label for e in s.events() if e.kind == 'loop' and touches(e.label, L)]
            if len(recs) != 1 or s.attrs.get((L[1], L[2])) != L or [op for op in s.ops(L) if op[0] != 'each']:
                if s.facts.get(truth(LV)) is False and not s.ops(L):
                    continue
                ctx.undec(rid, f.qual, 'the names are not added one by one')
                continue
            rec = recs[0]
            src = in_order(rec.order or rec.coll)
            ctx.need(rid, f.qual, src == LV, 'the names are taken in %s' % show(src), f.where(), taint=tainted(src) or src[0] == 'at')
            X = up(('elem', rec.lid))
            for ed in rec.edges:
                st = ed.st.copy()
                st.heap = dict(st.heap)
                ops = tuple(rec.delta(ed, L))
                good = ed.kind == 'next'
                marks = len(ed.st.ops(L)) - len(ops)
                try:
                    got = one_step(I, ed.st, ops, marks, X)
                except Unclear as e:
                    ctx.undec(rid, f.qual, 'a name: %s' % e)
                    continue
                ctx.need(rid, f.qual, good and got == 'last', 'a name %s when [%s]' % (got, '; '.join(showfact(a, v) for a, v in ed.conds)), f.where(), taint=any(tainted(a) for a, _ in ed.conds if a[0] != 'in'))
                for s3, has, v in I.lookup(ed.st, D, X):
                    ok = has and (v == item(D, X) or v[0] == 'call' and v[1] == 'new PriorityLevel' and dict(v[4]) == {'tagname': X, 'pset': SELF})
                    ctx.need(rid, f.qual, ok, 'the level object of a name is %s' % (show(v) if has else 'missing'), f.where(), taint=has and tainted(v) and v[0] != 'itemv')
    ctx.guard(rid, f.qual, go)
    several(ctx, rid, 'priorities', 'top')


def several(ctx, rid, module, name0):
    """Functions that add several levels next to another one."""
    TOP = ('glob', 'footprints.' + module, name0)
    for name, off, rev in (('set_before', 'before', False), ('set_after', 'after', True)):
        f = ctx.repo.func(module + ':' + name)
        ref = f.node.args.args[0].arg

        def go(f=f, off=off, rev=rev, ref=ref):
            I = ctx.interp(opaque={'PrioritySet.insert'}, types={TOP: ('inst', 'PrioritySet')})
            _, rows = execute(ctx, I, f.qual, {ref: sym(ref), f.node.args.vararg.arg: sym('args')})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                    continue
                n = 0
                for e in s.events():
                    if e.kind == 'call' and e.label.endswith('.insert'):
                        ctx.need(rid, f.qual, False, 'inserts %s' % show(e.res), f.where(), taint=tainted(e.res))
                    if e.kind != 'loop':
                        continue
                    rec = e.label
                    if not any(x.kind == 'call' and x.label.endswith('.insert') for ed in rec.edges for x in ed.events()):
                        continue
                    n += 1
                    coll = strip_view(rec.order or rec.coll)
                    back = False
                    while coll[0] == 'call' and coll[1] in ('reversed', 'slice') and coll[3]:
                        back = not back if coll[1] == 'reversed' or coll[3][1:] == (NONE, NONE, C(-1)) else None
                        coll = strip_view(coll[3][0])
                    ctx.need(rid, f.qual, coll == sym('args') and back == rev, 'goes through %s' % show(rec.order or rec.coll), f.where(), taint=back is None or tainted(rec.coll))
                    for ed in rec.edges:
                        calls = [x for x in ed.events() if x.kind == 'call' and x.label.endswith('.insert')]
                        ok = ed.kind == 'next' and len(calls) == 1 and calls[0].recv == TOP and {k: v for k, v in calls[0].kw if v != NONE} == {'tag': ('elem', rec.lid), off: sym(ref)} and not calls[0].args
                        ctx.need(rid, f.qual, ok, 'a name gives %s' % ([show(x.res) for x in calls] or 'nothing'), f.where(), taint=any(tainted(x.res) for x in calls))
                ctx.need(rid, f.qual, n == 1 or s.facts.get(truth(sym('args'))) is False, 'the levels are not inserted', f.where(), taint=n > 1)
        ctx.guard(rid, f.qual, go)


def in_order(c):
    while True:
        if c[0] == 'view' and c[1] == 'keys':
            c = c[2]
        elif c[0] == 'call' and c[1] in ('list', 'tuple', 'iter') and len(c[3]) == 1:
            c = c[3][0]
        else:
            return c


def touches(rec, b):
    return any(rec.delta(ed, b) for ed in rec.edges)


def one_step(I, s, ops, start, X):
    """What one name becomes: taken out wherever it is, then put last."""
    there = None
    names = {op[1] for op in ops if op[0] in ('app', 'ins')}
    if names and X not in names:
        return 'is added as %s' % ', '.join(show(x) for x in names)
    for i, op in enumerate(ops):
        if op[0] == 'rem' and op[1] == X:
            there = False
        elif op[0] == 'each':
            rec = op[2]
            for ed in rec.edges:
                for d in op[3](ed):
                    if d != ('rem', X):
                        raise Unclear('loop')
            if s.facts.get(isin(X, ('at', L, start + i + 1))) is not False:
                raise Unclear('loop')
            there = False
        elif op[0] == 'app' and op[1] == X:
            if there is None:
                there = s.facts.get(isin(X, ('at', L, start + i)))
            if there is not False:
                return 'may be there twice'
            there = 'last'
        elif op[0] in ('app', 'ins', 'rem'):
            return 'does: %s %s' % (op[0], ' '.join(show(x) for x in op[1:]))
        else:
            raise Unclear(op[0])
    return there if there == 'last' else 'is not added'


def check_remove(ctx):
    rid = 'C19.remove'
    S, P = {SELF: ('inst', 'PrioritySet')}, {SELF: ('inst', 'PriorityLevel')}
    f = ctx.repo.func('PrioritySet.remove')

    def gone(base, s, names):
        return [canon(s, Order(base, {n})) for n in names]

    def no_object(base, dic):
        # every name of the list has its level object
        return lambda s: any(a[0] == 'in' and not v and a[2] == dic and (s.facts.get(isin(a[1], base)) or s.facts.get(isin(a[1], ('at', base, 0)))) for a, v in s.facts.items())

    def want(s, q):
        if q(isinst(TAG, ('cls', 'PriorityLevel'))):
            n = [attr(TAG, '_tag'), up(attr(TAG, '_tag'))]
        else:
            n = [ups(TAG)]
        n = [x for x in n if isin(x, L) in s.facts] or n[:1]
        if not q(isin(n[0], L)):
            return 'fails'
        return gone(L, s, n), None
    operation(ctx, rid, f.qual, {'self': SELF, 'tag': TAG}, S, want, L, D, infeasible=no_object(L, D))
    f = ctx.repo.func('PriorityLevel.delete')
    MY = NAME

    def want2(s, q):
        n = [x for x in (MY,) if isin(x, PL) in s.facts] or [MY]
        if not q(isin(n[0], PL)):
            return 'fails'
        return gone(PL, s, n), None
    operation(ctx, rid, f.qual, {'self': SELF}, P, want2, PL, PD, st=level_state(), infeasible=no_object(PL, PD))


def run(ctx):
    ctx.rule('C19.compare', 'two levels compare as their current ranks; what is no level of the set is not equal to one')
    ctx.rule('C19.read', 'rank, neighbours, membership and listings follow the current order')
    ctx.rule('C19.move', 'a move takes the named level, and only this one, to the required place')
    ctx.rule('C19.add', 'an addition puts the upper-case name once, at the required place, with its level object')
    ctx.rule('C19.remove', 'a removal takes out the named level only')
    ctx.rule('C19.fail', 'an operation on an unknown level fails and leaves the set unchanged')
    check_compare(ctx)
    check_read(ctx)
    check_moves(ctx)
    check_add(ctx)
    check_remove(ctx)
