"""What an accepted attribute value has gone through.

One generic iteration of the resolution queue is interpreted on all its paths; for each the final value of the attribute
is compared with the value required from the declared remap table, type, constructor arguments, values and outcast.
"""
from .resolving import *

MINIMA = {'C01.settle': 300, 'C01.remap': 300, 'C01.exit': 6, 'C01.final': 20, 'C01.in_values': 3, 'C01.pending': 2}


def remapped(it):
    """Is V at the end of its chain on this path?"""
    V, remap, s = it.V, item(it.kd, 'remap'), it.st
    if s.decide(isin(V, remap)) is False:
        return True
    for a, v in s.facts.items():
        if a[0] == 'in' and a[1] == V and v and a[2] != remap and a[2][0] in ('ref', 'at', 'sym'):
            return True                # already met in this chain
        if a[0] == 'raises' and v and a[1][0] == 'call' and a[1][1] == 'hash' and V in a[1][3]:
            return True                # cannot be a key
        if a[0] == 'exctype' and a[1][0] == 'call' and mentions(a[1], lambda x: x == V) and mentions(a[1], lambda x: x == remap):
            return True
    return False


def check_iters(ctx, R, rid='C01.settle'):
    name = R.f.qual + ' (queue iteration)'
    for it in R.iters:
        if it.ok is False:
            continue
        if it.V is None:
            v0 = it.V0()
            if v0 is None or it.st.decide(isnone(v0)) is not True:
                if it.edge.kind == 'exc' and it.final[1].call is not None and it.final[1].call[1] == 'hash':
                    ctx.ok('C01.settle', name)
                else:
                    ctx.need('C01.settle', name, False, 'a settled value is neither None nor examined: [%s]' % '; '.join(showfact(a, v) for a, v in it.edge.conds),
                             R.where, taint=v0 is None)
            else:
                ctx.ok('C01.settle', name)
            continue
        ctx.conform('C01.settle', name, [(it.st, it.final)], settle_spec_q(it), R.where, since=it.since, clear=it.clear())
        ctx.need('C01.remap', name, remapped(it) or it.st.decide(('is', it.V, UNKNOWN)) is True,
                 'the value examined may still have an entry in the remap table: [%s]' % '; '.join(showfact(a, v) for a, v in it.edge.conds), R.where)
        if it.edge.kind == 'brk':
            s = it.st
            ctx.need('C01.exit', name, it.final == NONE or s.decide(isnone(it.final)) is True, 'the queue is left before its end although the attribute has a value', R.where)
    ctx.need('C01.exit', name, True, '', R.where)


def settle_spec_q(it):
    f = settle_spec(it)
    return lambda q: f(q)


def in_values_table(ctx, rid='C01.in_values'):
    f = ctx.repo.func('Footprint.in_values')
    x, vals = sym('item'), sym('values')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Footprint')}, opaque={'Footprint._hashable'})
        f, rows = execute(ctx, I, 'Footprint.in_values', {'self': SELF, 'item': x, 'values': vals})
        eqd = exists(vals, lambda b: [[(mk_eq(b, x), True)]])

        def spec(q):
            if q.st.decide(isin(x, vals)) is True:
                return Want('true', lambda s, g: truthy(s, g) is True)
            e = q(eqd)
            return Want(str(e), lambda s, g: truthy(s, g) is e)
        ctx.conform(rid, f.qual, [(s, g) for s, g in outcomes(rows)], lambda q: spec(q), f.where())
    ctx.guard(rid, f.qual, go)


def truthy(s, g):
    if g == ('exc',) or (g and g[0] == 'exc'):
        return 'exc'
    if is_c(g):
        return bool(cval(g))
    return s.decide(truth(g))


def prior(s, got, guess):
    """The value of attribute K before the final pass: item or versioned item of guess at K."""
    found = []

    def look(x):
        if x[0] in ('item', 'itemv') and x[2] == K and (x[1] == guess or (x[1][0] == 'at' and x[1][1] == guess)):
            found.append(x)
        return False
    for a in list(s.facts):
        mentions(a, look)
    if isinstance(got, tuple) and got and isinstance(got[0], str) and got[0] != 'exc':
        mentions(got, look)
    return found[0] if found else item(guess, K)


def final_rows(R):
    return keyed(R.I, R.rets, lambda v: v[1][0]), (R.rets[0][1][1][0] if R.rets else None)


def final_spec(pv):
    def spec(q):
        if not q(isin(K, ATTRS)):
            return ANY
        if q(('eq', pv, C('None'))):
            return NONE
        if q(isnone(pv)):
            return NONE
        if q(isin(C('weak'), decl(K, 'access'))) and not q(('is', pv, UNKNOWN)) and not q(isinst(pv, ('ext', 'weakref.ProxyTypes'))):
            return call('weakref.proxy', None, pv)
        return pv
    return spec


def iskeys(x):
    return x[0] == 'attr' and x[2] == '_resolve_keys'


def run(ctx):
    ctx.rule('C01.settle', 'a settled attribute holds the remapped value converted to its declared type, within values and not outcast, or None')
    ctx.rule('C01.remap', 'the value examined has no further entry in the remap table (or cannot have one, or closes a cycle)')
    ctx.rule('C01.exit', 'the queue of attributes is only left early once an attribute has no value')
    ctx.rule('C01.final', 'the last pass over the attributes only turns null strings into None and wraps weak attributes')
    ctx.rule('C01.in_values', 'in_values(item, values) holds iff the item is in values or equal to one of them')
    ctx.rule('C01.pending', 'attributes are left out of the queue only when a mandatory attribute has no value')
    f = ctx.repo.func('Footprint.resolve')

    def go():
        R = Resolve(ctx)
        check_iters(ctx, R)
        rows, guess = final_rows(R)
        for s, got in rows:
            pv = prior(s, got, guess)
            ctx.conform('C01.final', f.qual + ' (last pass)', [(s, got)], lambda q: final_spec(pv)(q), f.where(), clear={pv})
        # the queue: either the complete set of keys, or empty because a value is missing
        for s, v in R.rets:
            g = v[1][0]
            ofg = lambda c: mentions(c, lambda x: x == guess or x == g)
            miss = any(b and ((a[0] == 'is' and a[2] == NONE and ofg(a[1]) and mentions(a[1], lambda x: x[0] == 'elem')) or
                              (a[0] == 'in' and a[1] == NONE and ofg(a[2])) or
                              (a[0] == 'exists' and ofg(a[1]) and all(any(x[0] == 'is' and x[2] == NONE and w for x, w in c) for c in a[2])))
                       for a, b in s.facts.items())
            empty = any(not b and a[0] == 'truth' and mentions(a[1], iskeys) for a, b in s.facts.items())
            ran = any(e.kind == 'loop' and e.label in R.queue for e in s.events())
            ctx.need('C01.pending', f.qual, miss or empty or ran, 'the attributes are not examined although none is missing: [%s]' % '; '.join(showfact(a, b) for a, b in s.conds()),
                     f.where(), taint=False)
        for it in R.iters:
            ctx.need('C01.pending', f.qual + ' (queue)', mentions(it.k, iskeys), 'the attribute examined is %s' % show(it.k), f.where(), taint=tainted(it.k))
    ctx.guard('C01.settle', f.qual, go)
    in_values_table(ctx)
