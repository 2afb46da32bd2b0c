"""Where an attribute's starting value comes from.

The first guess of every attribute is tabulated for a generic attribute and a generic description (all the branches
followed, the inner search over the aliases summarised by its fixpoint) and compared with the required precedence.
"""
from .common import *

MINIMA = {'C02.value': 12, 'C02.inputs': 12}


def run_firstguess(ctx):
    I = ctx.interp(types={SELF: ('inst', 'Footprint')}, open_dicts=[DESC])
    f, rows = execute(ctx, I, 'Footprint._firstguess', {'self': SELF, 'desc': DESC, 'resolvecache': sym('cache')}, memo_state(ctx, 'Footprint'))
    return I, f, returned(rows)


def guess_spec(params):
    opt, alias, dflt = truth(decl(K, 'optional')), decl(K, 'alias'), decl(K, 'default')

    def given_dnf(q):
        o = q(opt)
        return exists(alias, lambda x: [[(isin(x, DESC), True)] + ([(isnone(item(DESC, x)), False)] if o else [])])

    def given(q, x):
        return q(isin(x, DESC)) and not (q(opt) and q(isnone(item(DESC, x))))

    def from_alias(q0):
        def pred(s, got):
            a = item_of(got, DESC)
            if a is None or not elem_in(s, a, alias):
                return False
            return s.decide(isin(a, DESC)) is True and (s.decide(opt) is False or s.decide(isnone(item(DESC, a))) is False)
        return Want('the value given under one of its aliases', pred)

    def spec(q):
        if not q(isin(K, ATTRS)):
            return ('absent',)
        if given(q, K):
            return item(DESC, K)
        if q(given_dnf(q)):
            return from_alias(q)
        if q(isin(K, params)):
            return item(params, K)
        if not q(opt):
            return NONE
        if q(isnone(dflt)):
            return UNKNOWN
        if q(has(dflt, 'footprint_value')):
            return call('.footprint_value', dflt)
        return dflt

    def inputs(q):
        if not q(isin(K, ATTRS)):
            return FALSE
        return TRUE if (given(q, K) or q(given_dnf(q)) or q(isin(K, params))) else FALSE
    return spec, inputs


def run(ctx):
    ctx.rule('C02.value', 'starting value of a generic attribute: description, alias, default settings, declared default, nothing')
    ctx.rule('C02.inputs', 'an attribute counts as user input exactly when its value comes from the description, an alias or the default settings')
    f = ctx.repo.func('Footprint._firstguess')

    def go():
        I, f, rows = run_firstguess(ctx)
        spec, inputs = guess_spec(attr(sym('cache'), 'defaults'))
        rows = [(s, v) for s, v in rows if s.facts.get(isnone(sym('cache'))) is not True]
        pick = lambda i: (lambda v: v[1][i])
        if any(v[0] != 'tup' or len(v[1]) != 2 for _, v in rows):
            ctx.undec('C02.value', f.qual, 'result shape')
            return
        ctx.conform('C02.value', f.qual, keyed(I, rows, pick(0)), lambda q: spec(q), f.where())
        ctx.conform('C02.inputs', f.qual, members(I, rows, pick(1)), lambda q: inputs(q), f.where())
    ctx.guard('C02.value', f.qual, go)
