"""When a class accepts a description.

`Footprint.checkonly`: one generic rule of the `only` clause is followed on all paths (the search over its allowed items
summarised) and the rule's verdict is compared with the required one.  `footprint_couldbe`: decision table of acceptance.
"""
from .common import *

MINIMA = {'C03.rule': 20, 'C03.verdict': 2, 'C03.accept': 4}
RD, REPORT, CACHE = sym('rd'), sym('report'), sym('resolvecache')
ONLY = item(FP, 'only')


def outer(t, f):
    """Calls f on the terms of t, outermost first; f tells when not to look inside."""
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and isinstance(t[0], str) and f(t):
            return
        for x in t:
            outer(x, f)


class OnlyEdge:
    """One path through the examination of one rule."""

    def __init__(self, edge, rec):
        self.edge, self.st = edge, edge.st
        self.k = ('elem', rec.lid)
        self.v = item(ONLY, self.k)
        self.values = set()
        self.params = set()         # where the default settings are looked up
        facts = self.st.facts

        def default(x, n):
            """x reads the default settings for the name n (whether or not they have it)."""
            return x[0] in ('getd', 'item') and x[2] == n and x[1] != RD and (x[0] == 'item' and facts.get(isin(n, x[1])) is True or x[0] == 'getd' and x[3] == NONE)

        def alone(x):
            """The resolved value is there, or the default settings have none."""
            return facts.get(isnone(x)) is False or any(a[0] == 'in' and a[1] == x[2] and a[2] not in (RD, ONLY) and not v for a, v in facts.items())

        def look(x):
            if x[0] == 'getd' and x[1] == RD and (default(x[3], x[2]) or facts.get(isin(x[2], RD)) is True or x[3] == NONE and alone(x)):
                self.values.add(x)
            elif x[0] == 'item' and x[1] == RD and facts.get(isin(x[2], RD)) is True:
                self.values.add(x)
            elif x[0] in ('getd', 'item') and x[1] not in (RD, ONLY) and facts.get(isin(x[2], RD)) is False and default(x, x[2]):
                self.values.add(x)
            else:
                return False
            return True
        for a, _ in edge.conds:
            outer(a, look)
        self.value = next(iter(self.values)) if len(self.values) == 1 else None
        self.name = self.value[2] if self.value is not None else None
        if not self.values:
            # found nowhere
            out = [a[1] for a, v in edge.conds if a[0] == 'in' and a[2] == RD and not v]
            if len(out) == 1 and any(a[0] == 'in' and a[1] == out[0] and a[2] != RD and not v for a, v in edge.conds):
                self.name, self.value = out[0], NONE
        if self.value is not None and self.value != NONE:
            v = self.value
            if v[1] == RD and v[0] == 'getd':
                v = v[3]
            if v[0] in ('getd', 'item') and v[1] != RD:
                self.params.add(v[1])
        elif self.value == NONE:
            self.params |= {a[2] for a, v in edge.conds if a[0] == 'in' and a[1] == self.name and a[2] != RD and not v}

    def name_ok(self, q):
        """Is the attribute looked up the right one?"""
        after, before = q(self.starts('after_')), q(self.starts('before_'))
        n = self.name
        if after or before:
            p = 'after_' if after else 'before_'
            good = {('call', 'after1', None, (self.k, C('_')), (), 0), ('slice', self.k, C(len(p)), NONE), ('call', '.removeprefix', self.k, (C(p),), (), 0)}
            if n in good:
                return True
            for name in ('x', 'run_step', 'after_x', 'before_x_y', 'after', '_x_'):
                try:
                    if worth(n, {self.k: p + name}) != name:
                        return False
                except NoValue:
                    return None
            return None
        return n == self.k

    def starts(self, p):
        return truth(('call', '.startswith', self.k, (C(p),), (), 0))

    def verdict(self, q):
        """True: the rule holds."""
        after, before = q(self.starts('after_')), q(self.starts('before_'))
        if after and before:
            return ANY
        val = self.value
        if q(isnone(val)):
            return 'fails'

        def cond(b, asq):
            if after:
                return asq(lt(val, b)) is False
            if before:
                return asq(lt(val, b)) is True
            if asq(has(b, 'match')):
                return asq(truth(('call', '.match', b, (val,), (), 0))) is True
            return asq(mk_eq(b, val)) is True

        def dnf(b):
            if after:
                return [[(lt(val, b), False)]]
            if before:
                return [[(lt(val, b), True)]]
            return [[(has(b, 'match'), True), (truth(('call', '.match', b, (val,), (), 0)), True)], [(has(b, 'match'), False), (mk_eq(b, val), True)]]
        if q(isinst(self.v, ('builtin', 'str'))) or not q(has(self.v, '__iter__')):
            ok = cond(self.v, q)
        else:
            ok = q(exists(self.v, dnf))
        return 'holds' if ok else 'fails'


def only_tables(ctx, report=None):
    I = ctx.interp(types={SELF: ('inst', 'Footprint')})
    st = memo_state(ctx, 'Footprint')
    if report is not None:
        st = st.assume(truth(REPORT), report, False)
    st = st.assume(isnone(CACHE), False, False)
    f, rows = execute(ctx, I, 'Footprint.checkonly', {'self': SELF, 'rd': RD, 'report': REPORT, 'resolvecache': CACHE}, st)
    recs = [r for r in I.loops.values() if r.coll in (ONLY, ('view', 'items', ONLY), ('view', 'keys', ONLY))]
    return I, f, rows, [OnlyEdge(e, r) for r in recs for e in r.edges]


def only_outcomes(rows, edges):
    """[(state, result, did a rule fail?)]; a result that depends on where the loop was left is taken there."""
    out = []
    for s, o in outcomes(rows):
        failed = not any(a[0] == 'exists' and a[1] == ONLY and not v for a, v in s.facts.items())
        at = [oe for oe in edges if oe.edge.kind == 'brk' and o[0] == 'phi' and oe.k == ('elem', o[1])] if failed else []
        vals = [(oe.st, oe.st.env().get(o[2]), True) for oe in at]
        if vals and all(v is not None and not tainted(v) for _, v, _ in vals):
            out += vals
        else:
            out.append((s, o, failed))
    return out


def check_only(ctx):
    f = ctx.repo.func('Footprint.checkonly')
    I, f, rows, edges = only_tables(ctx, False)
    outs = [(s, o) for s, o, _ in only_outcomes(rows, edges)]
    if not edges or any(o not in (RD, FALSE) for _, o in outs):
        bad = [o for _, o in outs if o not in (RD, FALSE)]
        for s, o in outs:
            if o not in (RD, FALSE) and not row_tainted(s, o):
                ctx.fail('C03.verdict', f.qual, 'gives %s' % showgot(o), f.where())
        ctx.undec('C03.rule', f.qual, 'no loop over the rules' if not edges else 'results %s' % [showgot(b) for b in bad][:3])
        return
    for oe in edges:
        if oe.edge.kind == 'exc':
            continue
        got = ('sym', 'holds' if oe.edge.kind == 'next' else 'fails')
        if oe.value is None:
            ctx.need('C03.rule', f.qual + ' (one rule)', False, 'the rule is decided without looking the attribute up in the resolved values, then in the default settings: [%s]' %
                     '; '.join(showfact(a, v) for a, v in oe.edge.conds), f.where(), taint=len(oe.values) > 1 or any(tainted(a) for a, v in oe.edge.conds))
            continue

        def want(q):
            n = oe.name_ok(q)
            w = oe.verdict(q)
            if w is ANY:
                return ANY
            if n is None:
                return Want('?', lambda s, g: None)
            if n is False:
                return Want('the rule is about another attribute', lambda s, g: False)
            return ('sym', w)
        ctx.conform('C03.rule', f.qual + ' (one rule)', [(oe.st, got)], want, f.where())
    for s, o, failed in only_outcomes(rows, edges):
        exhausted = not failed
        ctx.need('C03.verdict', f.qual, exhausted == (o == RD), 'gives %s although %s' % (showgot(o), 'no rule failed' if exhausted else 'a rule failed'), f.where())


def check_couldbe(ctx):
    f = ctx.repo.func('FootprintBase.footprint_couldbe')
    cls, rd = sym('cls'), sym('rd')
    I = ctx.interp(opaque={'Footprint.resolve', 'Footprint.checkonly'}, types={cls: ('type', 'FootprintBase')})
    f, rows = execute(ctx, I, 'FootprintBase.footprint_couldbe', {'cls': cls, 'rd': rd, 'report': REPORT, 'mkreport': sym('mkreport'), 'resolvecache': CACHE})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        calls = {n: [e for e in s.events() if e.kind == 'call' and e.label == 'Footprint.' + n] for n in ('resolve', 'checkonly')}
        if len(calls['resolve']) != 1:
            ctx.need('C03.accept', f.qual, False, 'the description is resolved %d times' % len(calls['resolve']), f.where(), taint=not calls['resolve'])
            continue
        res = calls['resolve'][0].res
        kw = dict(calls['resolve'][0].kw)
        guess, inp = item(res, 0), item(res, 1)
        ctx.need('C03.accept', f.qual, calls['resolve'][0].recv == attr(cls, '_footprint') and kw.get('desc') == rd, 'the description is not resolved by the footprint of the class',
                 f.where(), taint=kw.get('desc') is None)
        ctx.need('C03.accept', f.qual, kw.get('fatal') == FALSE, 'a description that the class cannot accept may raise an error (fatal=%s) instead of being refused' % show(kw.get('fatal', TRUE)), f.where(), taint='fatal' in kw and tainted(kw['fatal']) or '**' in kw)

        def want(q):
            if q(truth(guess)) and not q(exists(guess, lambda b: [[(mk_eq(item(guess, b), NONE), True)]])):
                def pred(s, g):
                    cs = calls['checkonly']
                    if g[0] != 'tup' or len(g[1]) != 2 or g[1][1] != inp:
                        return False
                    return len(cs) == 1 and g[1][0] == cs[0].res and dict(cs[0].kw).get('rd') == guess
                return Want('(checkonly(resolved values), inputs)', pred)
            return tup(FALSE, inp)
        ctx.conform('C03.accept', f.qual, [(s, o)], want, f.where())


def run(ctx):
    ctx.rule('C03.rule', 'a rule of the only clause holds iff a value is found and one of the allowed items accepts it')
    ctx.rule('C03.verdict', 'the resolved values are returned iff no rule failed, False otherwise')
    ctx.rule('C03.accept', 'a class accepts iff its resolved values hold no None and checkonly agrees')
    ctx.guard('C03.rule', 'Footprint.checkonly', lambda: check_only(ctx))
    ctx.guard('C03.accept', 'FootprintBase.footprint_couldbe', lambda: check_couldbe(ctx))
