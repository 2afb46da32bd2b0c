"""Setups: each holds its own settings, and gives them to the setups made from it.

The constructor of setups is interpreted with any settings: what is stored, and under which name, is compared with what was
given.  The dictionary view is then interpreted on an object that holds exactly what the constructor stores, so that the
round trip setting -> stored -> viewed -> handed to a new setup is followed name by name.
"""
from .common import *

MINIMA = {'C34.kept': 200, 'C34.own': 60, 'C34.view': 13, 'C34.call': 15, 'C34.info': 2}
TECHNIQUE = ('abstract interpretation of the constructor, the dictionary view and the call of setups: round trip of each setting, name by name, and '
             'freshness of the containers a setup holds')
NOTE = 'The table of setups by tag belongs to the bronx library (modelled).'
CLS = 'FootprintSetup'
FLAGS = ('extended', 'shortnames', 'fatal', 'fastmode')
T = {SELF: ('inst', CLS)}
KW = sym('kw')
GIVEN = lambda n: ('sym', 'given_' + n)


def public(n):
    return n.lstrip('_')


def facts(s):
    return '; '.join(showfact(a, v) for a, v in s.facts.items())


def strip_at(t):
    return subst_deep(t, lambda x: strip_at(x[1]) if x[0] == 'at' else None)


def init_rows(ctx):
    f = ctx.repo.func(CLS + '.__init__')
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs][1:]
    I = ctx.interp(types=T, max_states=8000)
    f, rows = execute(ctx, I, f.qual, dict({n: GIVEN(n) for n in names}, **{f.node.args.args[0].arg: SELF}))
    return f, I, list(outcomes(rows)), names


def holds(I, s, v, n):
    """The value stored for a setting is the one given (or its truth, or a container of the same items)."""
    g = GIVEN(n)
    if v == g:
        return True
    if v[0] == 'call' and v[1] == 'bool' and v[3] == (g,):
        return n in FLAGS
    if is_c(v) and v[2] in (True, False) and n in FLAGS:
        return s.decide(truth(g)) is v[2]
    if v[0] == 'ref':
        ops = [o for o in s.ops(v) if o[0] != 'lit']
        if not ops:
            return s.decide(isnone(g)) is True or s.decide(truth(g)) is False
        if len(ops) == 1 and ops[0][0] in ('copy', 'upd', 'ext') and strip_at(strip_view(ops[0][1])) == g:
            return True
        ps = [p for s2, p in sequences(I, s, v)]
        if n not in ('defaults', 'proxies') and any(p[0] == 'gen' and len(p) > 3 and p[3] is not None for s2, p in I.iter_plan(s, v)):
            return False  # in another order
        return bool(ps) and all(p[0] == 'gen' and strip_at(strip_view(p[1])) == g and [(strip_at(w), c) for w, c in p[2]] == [(E0, [])] for p in ps)
    if v[0] == 'call' and len(v) == 6 and v[1].split('.')[-1] in ('LowerCaseDict', 'dict', 'set', 'tuple', 'frozenset'):
        ops = [e for e in s.events() if e.kind == 'mut' and strip_at(e.recv) == v]
        nothing = lambda x: x[0] == 'ref' and not [o for o in s.ops(x) if o[0] != 'lit']
        given = [x for x in v[3] + tuple(y for k, y in v[4]) + tuple(y for e in ops for y in e.args + tuple(z for k, z in e.kw)) if not nothing(x)]
        if any(e.label != 'update' for e in ops) or any(x != g for x in given):
            return False
        return bool(given) or s.decide(isnone(g)) is True or s.decide(truth(g)) is False
    return False


def check_init(ctx):
    R, O = 'C34.kept', 'C34.own'
    f, I, rows, names = init_rows(ctx)
    stored = {}
    for s, o in rows:
        if o[0] == 'exc':
            ctx.need(R, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
            continue
        mine = {public(n): (n, v) for (b, n), v in s.attrs.items() if b == SELF}
        for n in names:
            if n not in mine:
                ctx.need(R, f.qual, False, 'does not keep the setting %s when [%s]' % (n, facts(s)), f.where())
                continue
            stored.setdefault(mine[n][0], None)
            v = mine[n][1]
            ctx.need(R, f.qual, holds(I, s, v, n), 'keeps %s as %s when [%s]' % (show(v), n, facts(s)), f.where(), taint=tainted(v))
            if n in ('defaults', 'proxies'):
                fresh = v[0] == 'ref' or v[0] == 'call' and v[1] != 'bool'
                ctx.need(O, f.qual, fresh, 'shares its %s with the setup they come from' % n, f.where(), taint=tainted(v))
            if n == 'defaults':
                low = v[0] == 'call' and v[1].split('.')[-1] == 'LowerCaseDict' or v[0] == 'ref' and s.kind(v) == 'LowerCaseDict'
                ctx.need(O, f.qual, low, 'the names of the default settings depend on the letter case', f.where(), taint=v[0] != 'ref' and tainted(v))
        for e in s.events():
            bad = e.kind == 'mut' and strip_at(e.recv)[0] == 'sym' and strip_at(e.recv) != SELF
            if bad:
                ctx.need(O, f.qual, False, 'changes %s' % show(e.recv), f.where())
    return f, names, list(stored)


def holding(ctx, stored):
    """A state where a setup holds one value for each of these names."""
    I = ctx.interp(types=T, prints=True, opaque={CLS + '.info'})
    st = State()
    d = I.alloc(st, 'dict')
    vals = {}
    for n in stored:
        vals[public(n)] = v = sym('held_' + public(n))
        st.push(d, ('set', C(n), v))
        st.attrs[(SELF, n)] = v
    st.attrs[(SELF, '__dict__')] = d
    return I, st, d, vals


def check_view(ctx, names, stored):
    R = 'C34.view'
    for n in ['_tag'] + sorted(stored):
        I, st, d, vals = holding(ctx, [n])
        n = public(n)
        f, rows = execute(ctx, I, CLS + '.as_dict', {'self': SELF}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc' or o[0] != 'ref' or o == d:
                ctx.need(R, f.qual, False, 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] not in ('exc', 'ref'))
                continue
            for s2, has_, v in I.lookup(s, o, C(n)):
                ctx.need(R, f.qual, has_ and v == vals[n], 'gives %s for the setting %s when [%s]' % (show(v) if has_ else 'nothing', n, facts(s)), f.where(), taint=has_ and tainted(v))
            extra = [op for op in s.ops(o) if op[0] == 'set' and is_c(op[1]) and op[1][2] not in names + ['tag']]
            ctx.need(R, f.qual, not extra, 'gives %s, which is no setting' % [op[1][2] for op in extra], f.where())
            ctx.need(R, f.qual, not changes(s), 'changes the setup (%s)' % showchanges(changes(s)), f.where())


def check_call(ctx, names, stored):
    R = 'C34.call'
    f = ctx.repo.func(CLS + '.__call__')
    k = f.node.args.kwarg
    I, st, d, vals = holding(ctx, ['_tag'] + sorted(stored))
    kw = I.alloc(st, 'dict')
    f, rows = execute(ctx, I, f.qual, {'self': SELF, k.arg: kw}, st)
    for s, o in outcomes(rows):
        ctx.need(R, f.qual, o == SELF, 'without any setting, gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))
    new = sym('new')
    for given in ['_tag'] + sorted(stored):
        for other in ['_tag'] + sorted(stored):
            I, st, d, vals = holding(ctx, [other])
            kw = I.alloc(st, 'dict')
            st.push(kw, ('set', C(public(given)), new))
            f, rows = execute(ctx, I, f.qual, {'self': SELF, k.arg: kw}, st)
            called(ctx, f, I, rows, public(given), public(other), new if given == other else vals[public(other)])


def called(ctx, f, I, rows, given, n, want):
    R = 'C34.call'
    for s, o in outcomes(rows):
        made = [e for e in s.events() if e.kind == 'call' and (e.label in ('.__class__', 'new ' + CLS) or e.label == 'config:get')]
        ok = len(made) == 1 and o == made[0].res
        ctx.need(R, f.qual, ok, 'with some settings, gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))
        if not ok:
            continue
        e = made[0]
        for n in (n, given):
            got = [v for x, v in e.kw if x == n]
            for x, v in e.kw:
                if x == '**' and not got:
                    for s2, has_, w in I.lookup(s, v, C(n)):
                        got.append(w if has_ else NONE)
            w = sym('new') if n == given else want
            ctx.need(R, f.qual, got == [w], 'given %s, the setup that is made takes %s for the setting %s' % (given, [show(x) for x in got] or 'nothing', n), f.where(), taint=any(tainted(x) for x in got))
        bad = [c for c in changes(s)]
        ctx.need(R, f.qual, not bad, 'changes the setup it comes from (%s)' % showchanges(bad), f.where())


def check_info(ctx, names, stored):
    """Every setting is printed, once."""
    R = 'C34.info'
    f = ctx.repo.func(CLS + '.info')
    I = ctx.interp(types=T, prints=True, opaque={CLS + '.as_dict'})
    f, rows = execute(ctx, I, f.qual, {'self': SELF})
    view_of = lambda t: strip_at(t)[0] == 'call' and strip_at(t)[1].endswith('as_dict') and SELF in (strip_at(t)[2],) + strip_at(t)[3][:1]
    for s, o in outcomes(rows):
        loops, cut = [], []
        for e in s.events():
            if e.kind == 'loop' and e.label.coll is not None:
                t = strip_view(e.label.coll)
                t = strip_view(t[2]) if t[0] == 'view' and t[1] == 'items' else t
                if view_of(t):
                    loops.append(e.label)
                elif t[0] == 'call' and t[1] in ('slice', 'islice', 'itertools.islice') and mentions(t, view_of):
                    cut.append(t)
        if cut:
            ctx.need(R, f.qual, False, 'goes through some of the settings only', f.where())
            continue
        ctx.need(R, f.qual, o[0] != 'exc' and len(loops) == 1, 'goes %d times through the settings' % len(loops), f.where(), taint=o[0] != 'exc')
        for rec in loops:
            E = ('elem', rec.lid)
            for x in rec.edges:
                ps = [e for e in x.events() if e.kind == 'call' and e.label == 'print']
                ok = x.kind == 'next' and len(ps) == 1
                if ok:
                    t = subst_deep(('tup', tuple(ps[0].args)), lambda y: sym('value') if y[0] in ('item', 'itemv', 'getd') and y[2] == E else None)
                    ok = mentions(t, lambda y: y == sym('value')) and mentions(t, lambda y: y == E)
                ctx.need(R, f.qual, ok, 'does not print a setting once with its value', f.where(), taint=any(tainted(a) for a, v in x.conds))


def run(ctx):
    ctx.rule('C34.kept', 'a setup keeps every setting it is given under its own name')
    ctx.rule('C34.own', 'a setup has default settings and proxies of its own, and its default settings are insensitive to case')
    ctx.rule('C34.view', 'the dictionary view of a setup gives each of its settings, and its tag, under the name used to create it')
    ctx.rule('C34.call', 'calling a setup without settings gives itself; with settings, it asks for a setup with these and all its other ones, and is not changed')
    ctx.rule('C34.info', 'the summary prints every setting once')
    got = []
    ctx.guard('C34.kept', CLS + '.__init__', lambda: got.append(check_init(ctx)))
    for f, names, stored in got:
        ctx.guard('C34.view', CLS + '.as_dict', lambda: check_view(ctx, names, stored))
        ctx.guard('C34.call', CLS + '.__call__', lambda: check_call(ctx, names, stored))
        ctx.guard('C34.info', CLS + '.info', lambda: check_info(ctx, names, stored))
