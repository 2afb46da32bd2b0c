"""Shared set-up of the effect analysis."""
from .common import *
from ..modref import ModRef


def prepare_resolve(I, st, a):
    kw = I.alloc(st, 'dict')
    for n in ('fatal', 'fast', 'report', 'resolvecache'):
        st.push(kw, ('set', C(n), sym(n)))
    a['kw'] = kw
    I.open.add(DESC)
    return st.assume(truth(sym('report')), True, False).assume(isnone(sym('resolvecache')), False, False)


def modref(ctx):
    if not hasattr(ctx, '_modref'):
        ctx._modref = ModRef(ctx, {'Footprint.resolve': prepare_resolve})
    return ctx._modref


def showpath(r, p):
    return '%s%s' % (r[-1] if len(r) > 1 else r[0], ''.join(p))


def forbid(ctx, rid, qual, bad, text):
    """No effect of the function, calls included, satisfies bad(root, path, what)."""
    f = ctx.repo.func(qual)

    def go():
        M = modref(ctx)
        eff = M.effects(f.qual)
        for q in M.reach:
            if M.sums[q].failed:
                ctx.undec(rid, f.qual, 'effects of %s unknown: %s' % (q, M.sums[q].failed))
        hits = [(w, ch) for w, ch in eff.items() if bad(*w)]
        for (r, p, what), ch in sorted(hits, key=str)[:3]:
            last = M.funcs[ch[-1]]
            ctx.need(rid, f.qual, False, '%s: %s of %s, through %s' % (text, ' '.join(what), showpath(r, p), ' > '.join(ch)), last.where())
        if not hits:
            ctx.ok(rid, f.qual, n=len(M.reach)) if False else ctx.ok(rid, f.qual)
    ctx.guard(rid, f.qual, go)
