"""Undefined optional attributes read as None."""
from .living import *
from .resolving import Resolve, settle_spec
from .storing import descriptors, run_op
from . import storing, c01, c02

MINIMA = {'C18.guess': 6, 'C18.resolve': 50, 'C18.read': 6, 'C18.undefs': 2, 'C18.view': 4, 'C18.restored': 2}
TECHNIQUE = 'static analysis: path-sensitive abstract interpretation, decision tables of every way an undefined value goes in and out of the storage'
FREE = Want('anything but the undefined marker', lambda s, got: got != UNKNOWN)


def check_guess(ctx):
    rid = 'C18.guess'
    f = ctx.repo.func('Footprint._firstguess')

    def go():
        I, f, rows = c02.run_firstguess(ctx)
        spec, _ = c02.guess_spec(attr(sym('cache'), 'defaults'))
        rows = [(s, v) for s, v in rows if s.facts.get(isnone(sym('cache'))) is not True]
        if any(v[0] != 'tup' or len(v[1]) != 2 for _, v in rows):
            ctx.undec(rid, f.qual, 'result shape')
            return

        def want(q):
            w = spec(q)
            return w if w == UNKNOWN else FREE
        ctx.conform(rid, f.qual, keyed(I, rows, lambda v: v[1][0]), want, f.where())
    ctx.guard(rid, f.qual, go)


def check_resolve(ctx):
    rid = 'C18.resolve'
    f = ctx.repo.func('Footprint.resolve')
    anything = Want('anything', lambda s, got: True)

    def go():
        R = Resolve(ctx)
        for it in R.iters:
            if it.ok is False or it.V is None:
                continue
            ctx.conform(rid, f.qual + ' (queue iteration)', [(it.st, it.final)], lambda q: it.V if q(('is', it.V, UNKNOWN)) else anything, R.where, since=it.since, clear=it.clear())
        rows, guess = c01.final_rows(R)
        for s, got in rows:
            pv = c01.prior(s, got, guess)
            ctx.conform(rid, f.qual + ' (last pass)', [(s, got)], lambda q: pv if q(isin(K, ATTRS)) and q(('is', pv, UNKNOWN)) else anything, f.where(), clear={pv})
    ctx.guard(rid, f.qual, go)


def check_read(ctx):
    rid = 'C18.read'
    for mode, cls in sorted(descriptors(ctx).items()):
        name = cls.name + '.__get__'

        def go():
            m, I, rows = run_op(ctx, cls, '__get__', {'owner': storing.OWNER}, pre=[isin(storing.NAME, storing.STORE)])

            held = item(storing.STORE, storing.NAME)

            def want(q):
                return NONE if q(('is', held, UNKNOWN)) or q(isnone(held)) else held
            ctx.conform(rid, name, [(s, o) for s, _, o in rows], want, m.where())
        ctx.guard(rid, name, go)


def check_undefs(ctx):
    rid = 'C18.undefs'
    f = ctx.repo.func('FootprintBase.footprint_undefs')

    def each(qual, want):
        f = ctx.repo.func(qual)

        def go():
            I = ctx.interp(types=OBJT)
            _, rows = execute(ctx, I, f.qual, {'self': SELF})
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                    continue
                check_seq(ctx, rid, f.qual, I, s, o, lambda c: same(s, storage_of(c), STORE), want, f.where())
        ctx.guard(rid, f.qual, go)
    held = item(STORE, E0)
    shown = subst_deep(GET, lambda x: E0 if x == K else None)

    def undef(q):
        """None for a value that is only equal to the marker."""
        return True if q(('is', held, UNKNOWN)) or q(isnone(held)) else None if q(mk_eq(held, UNKNOWN)) else False

    def values(q):
        u = undef(q)

        def good(got):
            return unver(got) == shown or got == (NONE if u else held) or got == held and q(isnone(held))
        good.__doc__ = 'None' if u else show(held)
        return None if u is None else [good]
    each('FootprintBase.footprint_undefs', lambda q: {True: [E0], False: [], None: None}[undef(q)])
    each('FootprintBase.footprint_attributes_values', values)


def storage_of(c):
    while True:
        c0 = c
        c = strip_view(c)
        if c[0] == 'view':
            c = c[2]
        if c[0] == 'call' and c[1] == 'sorted':
            c = c[3][0]
        if c == c0:
            return c


def check_views(ctx):
    rid = 'C18.view'
    for qual in ('FootprintBase.footprint_as_shallow_dict', 'FootprintBase.footprint_as_dict', 'FootprintBase.footprint_export'):
        f = ctx.repo.func(qual)

        def go():
            I = ctx.interp(types=OBJT)
            st = State().assume(isin(K, STORE), True, False).assume(('is', HELD, UNKNOWN), True, False)
            _, rows = execute(ctx, I, qual, {'self': SELF}, st)
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    continue
                if o[0] == 'call' and o[1] == 'copy.deepcopy':
                    o = o[3][0]
                for s2, b, v in I.lookup(s, o, K):
                    if s2.facts.get(('is', HELD, UNKNOWN)) is not True and s2.decide(('is', HELD, UNKNOWN)) is False:
                        continue
                    ctx.need(rid, f.qual, b, 'an undefined attribute has no entry', f.where())
                    if not b:
                        continue
                    leaks = mentions(subst_deep(v, lambda x: NONE if x == GET else None), lambda x: x in (HELD, UNKNOWN))
                    ctx.need(rid, f.qual, not leaks, 'an undefined attribute is shown as %s' % show(v), f.where(), taint=tainted(v))
        ctx.guard(rid, f.qual, go)


def check_restored(ctx):
    rid = 'C18.restored'

    def go():
        I, f, rows, given = restored(ctx)
        src = item(given, C('_attributes'))
        v0 = item(src, K)
        for s, c in rows:
            if c[0] == 'exc':
                continue
            for s2, b, v in I.lookup(s, c, K):
                if not b:
                    continue
                for s3, mark in completions(s2, lambda q: q(('is', attr(v0, '__class__'), ('builtin', 'str'))) and q(mk_eq(v0, UNKNOWN))):
                    if mark:
                        ctx.need(rid, f.qual, v == UNKNOWN, 'an undefined attribute holds %s, that is not the marker itself' % show(v), f.where(), taint=tainted(v))
                    else:
                        ctx.need(rid, f.qual, v != UNKNOWN or s3.decide(mk_eq(v0, UNKNOWN)) is True, 'a value becomes undefined', f.where())
    ctx.guard(rid, 'FootprintBase.__setstate__', go)


def run(ctx):
    ctx.rule('C18.guess', 'an optional attribute without value nor default starts as undefined, and only it')
    ctx.rule('C18.resolve', 'an undefined attribute stays so through resolution, whatever its type, values or access mode')
    ctx.rule('C18.read', 'every access mode reads an undefined attribute as None, and any other as its value')
    ctx.rule('C18.undefs', 'the undefined attributes are those that are undefined or None, and are listed as None among the values')
    ctx.rule('C18.view', 'the views and the export have an entry for undefined attributes, that never shows the marker')
    ctx.rule('C18.restored', 'restoring an object restores the identity of the undefined marker')
    check_guess(ctx)
    check_resolve(ctx)
    check_read(ctx)
    check_undefs(ctx)
    check_views(ctx)
    check_restored(ctx)
