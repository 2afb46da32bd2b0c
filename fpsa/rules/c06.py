"""The searches of a collector over its classes, for every reporting mode.

find_all and find_any are interpreted on all paths (the replay loop exactly, the search loops by their fixpoint).
"""
from .searching import *

MINIMA = {'C06.all': 8, 'C06.any': 6, 'C06.record': 8}


def log_events(s):
    out = []
    for e in s.events():
        if e.kind == 'call' and e.label == 'FootprintLog.add':
            out.append(('log', e.recv, dict(e.kw)))
        elif e.kind == 'call' and e.label == 'Collector._fasttrack_subsetting':
            out.append(('scan', e.recv, dict(e.kw)))
    return out


def check_all(ctx, rid='C06.all'):
    f = ctx.repo.func('Collector.find_all')
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque=SUBSET_OPAQUE)
    f, rows = execute(ctx, I, 'Collector.find_all', {'self': SELF, 'desc': DESC, 'resolvecache': RCACHE}, search_state())
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need(rid, f.qual, False, 'the search raises %s' % (o[1],), f.where(), taint=o[1].name is None)
            continue
        for s2, p in sequences(I, s, o):
            if p[0] != 'gen':
                ctx.undec(rid, f.qual, 'result %s' % (showgot(o)))
                continue
            calls = couldbe_of([v for v, _ in p[2]] + [a for _, cs in p[2] for a, _ in cs], E0)
            if len(calls) != 1:
                ctx.need(rid, f.qual, False, 'a candidate is not decided by its own footprint_couldbe on the description', f.where(),
                         taint=any(tainted(a) for _, cs in p[2] for a, _ in cs) or not p[2] and False)
                continue
            res = calls[0]
            check_seq(ctx, rid, f.qual, I, s, o, is_subset,
                      lambda q: [tup(E0, item(res, 0), item(res, 1))] if q(truth(item(res, 0))) else [], f.where())
    # the scan goes through every class
    for rec in I.loops.values():
        if rec.coll is not None and is_subset(rec.coll):
            for e in rec.edges:
                ctx.need(rid, f.qual + ' (scan)', e.kind in ('next', 'exc'), 'the scan of the classes is interrupted when [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), f.where(),
                         taint=any(tainted(hide_loop(a)) for a, v in e.conds))
    return I, f, rows


def hide_loop(t):
    """Terms built during the scan itself (the list of found classes) are known enough."""
    from ..state import subst_deep
    return subst_deep(t, lambda x: ('sym', '$scan') if x and x[0] == 'phi' else None)


def check_any(ctx, rid='C06.any'):
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque=SUBSET_OPAQUE)
    f, rows = execute(ctx, I, 'Collector.find_any', {'self': SELF, 'desc': DESC, 'resolvecache': RCACHE}, search_state())
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need(rid, f.qual, False, 'the search raises %s' % (o[1],), f.where(), taint=o[1].name is None)
        elif o == NONE:
            # the last scan found nothing
            neg = [a for a, v in s.facts.items() if a[0] == 'exists' and not v and is_subset(a[1])]
            good = [a for a in neg if len(a[2]) == 1 and all(len(c) == 1 for c in a[2]) and all(
                v and x[0] == 'truth' and x[1][0] == 'item' and x[1][2] == C(0) and couldbe(x[1][1][2])(x[1][1]) for c in a[2] for x, v in c)]
            ctx.need(rid, f.qual, bool(good), 'gives None although some class of the collector may accept the description: [%s]' %
                     '; '.join(showfact(a, v) for a, v in s.conds()), f.where(), taint=any(tainted(a) for a in neg))
        elif o[0] == 'call' and o[1] == 'apply':
            x = o[2]
            calls = couldbe_of([o], x)
            ok = x[0] == 'elem' and is_subset(s.loopcol.get(x[1], NONE)) and len(calls) == 1 and o[3] == (item(calls[0], 0),) and \
                dict(o[4]) == {'checked': TRUE} and s.decide(truth(item(calls[0], 0))) is True
            ctx.need(rid, f.qual, ok, 'gives %s' % show(o), f.where(), taint=tainted_f(o) and x[0] != 'elem')
        else:
            ctx.need(rid, f.qual, False, 'gives %s' % show(o), f.where(), taint=tainted(o))
    return I, f, rows


def recording(ctx, I, f, rows, all_, rid='C06.record'):
    """Which scans are made and with which log, per reporting mode."""
    R = attr(SELF, 'report')
    ONERR = C(1)
    for s, o in rows:
        seq = log_events(s)
        scans = [i for i, x in enumerate(seq) if x[0] == 'scan']

        def want(q):
            if not q(truth(R)):
                return (('scan',),)
            if not q(mk_eq(R, ONERR)):
                return (('log',), ('scan',))
            if len(scans) <= 1:
                # a single scan is enough only if it found something
                return Want('the failed search is replayed with recording', lambda s, g: g == (('scan',),) and not failed(s) and found(s))
            return Want('scan, then, as it failed, log and scan', lambda s, g: g == (('scan',), ('log',), ('scan',)) and failed(s))

        def found(s):
            return any(a[0] == 'exists' and v for a, v in s.facts.items()) or o not in (NONE, None) and o[0] == 'call' and o[1] == 'apply'

        def failed(s):
            return any(a[0] == 'exists' and not v for a, v in s.facts.items())
        got = tuple((x[0],) for x in seq)
        for st, w in completions(s, want):
            ok = w.pred(st, got) if isinstance(w, Want) else got == w
            ctx.need(rid, f.qual, ok, 'sequence %s; required %s [%s]' % (got, w.text if isinstance(w, Want) else w, '; '.join(showfact(a, v) for a, v in s.conds())), f.where(),
                     taint=any(tainted(a) for a, v in s.conds()) or not scans)
        for x in seq:
            if x[0] == 'log':
                ctx.need(rid, f.qual, x[1] == LOG and x[2].get('collector') == SELF, 'the search is recorded for %s' % (x[2],), f.where())
    # the report given to each class: the log exactly when the scan is recorded
    for rec in I.loops.values():
        if rec.coll is None or not is_subset(rec.coll):
            continue
        for e in rec.edges:
            seq = log_events(e.st)
            logged = bool(seq) and any(x[0] == 'log' for x in seq)
            for ev in e.events():
                if ev.kind == 'call' and ev.label == 'FootprintBase.footprint_couldbe':
                    rep = dict(ev.kw).get('report', NONE)
                    ctx.need(rid, f.qual + ' (class)', rep == (LOG if logged else NONE), 'a class is tried with report %s in a %s search' % (
                        show(rep), 'recorded' if logged else 'silent'), f.where(), taint=tainted(rep))
                    ctx.need(rid, f.qual + ' (class)', dict(ev.kw).get('resolvecache') == RCACHE or 'ResolveCache' in show(dict(ev.kw).get('resolvecache', NONE)),
                             'the resolution cache is not the one of the search', f.where(), taint=True)


def run(ctx):
    ctx.rule('C06.all', 'find_all gives exactly the scanned classes accepting the description, each with its own resolved values and inputs')
    ctx.rule('C06.any', 'find_any gives an object of a scanned class accepting the description, or None when no scanned class accepts it')
    ctx.rule('C06.record', 'scans and recordings per mode: none/light/full one scan, on-error a silent scan replayed once with recording when it failed')

    def go(fn, flag):
        I, f, rows = fn(ctx)
        recording(ctx, I, f, outcomes(rows), flag)
    ctx.guard('C06.all', 'Collector.find_all', lambda: go(check_all, True))
    ctx.guard('C06.any', 'Collector.find_any', lambda: go(check_any, False))
