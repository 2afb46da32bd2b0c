"""What the reports of a resolution say.

Every path of an iteration of the resolution queue, of the final pass over the attributes and of the examination of one
`only` rule: the entries it adds to the report are compared with the causes of rejection that hold on that path.
The tables of results are required to be the same with and without a report.
"""
from .resolving import *
from . import c01, c03, c06
from .purity import forbid
from ..terms import walk

TECHNIQUE = ('abstract interpretation (path-sensitive, loop summaries) of Footprint.resolve, checkonly, footprint_couldbe and of the searches; '
             'report entries of each path against the causes of rejection holding on it; mod-ref effects of the report')
MINIMA = {'C23.settle': 250, 'C23.last': 8, 'C23.only': 10, 'C23.try': 4, 'C23.search': 8, 'C23.same': 250}

WHYS = {'SUBCLASS': 'REPORT_WHY_SUBCLASS', 'RECLASS': 'REPORT_WHY_RECLASS', 'OUTSIDE': 'REPORT_WHY_OUTSIDE', 'OUTCAST': 'REPORT_WHY_OUTCAST',
        'MISSING': 'REPORT_WHY_MISSING', 'INVALID': 'REPORT_WHY_INVALID', 'NOTFOUND': 'REPORT_ONLY_NOTFOUND', 'NOTMATCH': 'REPORT_ONLY_NOTMATCH'}


def texts(ctx):
    out = {}
    m = ctx.repo.module('reporting')
    for n, g in WHYS.items():
        node = m.globals.get(g)
        out[n] = node.value if isinstance(node, ast.Constant) else None
    return out


NULLREPORT = attr(('glob', 'footprints', 'setup'), 'nullreport')


class Entries:
    """Entries added to a report by a list of events."""

    def __init__(self, T, events, report=REPORT):
        self.T = {v: n for n, v in T.items()}
        self.adds = [x for x in events if x.kind == 'call' and x.label.split('.')[-1] == 'add' and (x.recv == report) and x.kw]
        self.rows = []
        for x in self.adds:
            kw = dict(x.kw)
            self.rows.append((kw.get('attribute'), kw.get('why'), kw.get('only')))

    def named(self, k):
        """Reasons given for attribute k: (names, unknown terms)."""
        good, bad = [], []
        for a, w, o in self.rows:
            if a != k:
                bad.append(a)
                continue
            for t in (w, o):
                if t is not None:
                    if is_c(t) and cval(t) in self.T:
                        good.append((self.T[cval(t)], t is o))
                    else:
                        bad.append(t)
            if w is None and o is None:
                bad.append(NONE)
        return good, bad


def causes(it):
    """Causes of rejection of the attribute on this path, in the order they appear: want(q) -> tuple of names."""
    V, kt = it.V, it.type

    def want(q):
        if q(('is', V, UNKNOWN)):
            return ()
        out = []
        if q(it.isclass):
            if not q(isinst(V, ('builtin', 'type'))) or not q(issub(V, kt)):
                out.append('SUBCLASS')
                W = NONE
            else:
                W = V
        elif q(isinst(V, kt)):
            W = V
        else:
            conv = it.conversion()
            if conv is None:
                return None
            W = conv
            if q(raises(conv)):
                out.append('RECLASS')
                W = NONE
        if q(truth(it.values)) and not q(it.in_values(W, it.values)):
            out.append('OUTSIDE')
            W = NONE
        if q(truth(it.outcast)) and q(it.in_values(W, it.outcast)):
            out.append('OUTCAST')
        return tuple(out)
    return want


def marked(it, D):
    """Is attribute k added to the container D on this path?  None when unknown."""
    ops = it.rec.delta(it.edge, D)
    if ops is None:
        return None
    got = False
    for o in ops:
        if o[0] in ('set', 'add', 'app', 'ins') and it.k in o[1:]:
            got = True
        elif o[0] in ('set', 'add', 'app', 'del', 'rem', 'copy', 'lit'):
            if o[0] != 'lit':
                continue
        else:
            return None
    return got


def noted(R, D):
    """The values given to the entries of the container."""
    return [o[2] for it in R.iters for o in (it.rec.delta(it.edge, D) or ()) if o[0] == 'set' and o[1] == it.k]


def containers(R):
    """Containers the final pass looks an attribute up in before it makes an entry."""
    out = []
    for rec in finals(R):
        for e in rec.edges:
            for a, v in e.conds:
                if a[0] == 'in' and a[1] == ('elem', rec.lid) and strip_at(a[2]) not in (ATTRS, it_guess(R)) and a[2] not in out:
                    out.append(a[2])
    return out


def it_guess(R):
    return strip_at(R.rets[0][1][1][0]) if R.rets else None


def finals(R):
    """The loops over the attributes that come after the queue: those that may make entries or discard."""
    out = []
    for rec in R.I.loops.values():
        if rec.coll is not None and strip_view(rec.coll) in (ATTRS, ('view', 'items', ATTRS)) and rec not in R.queue:
            if any(x.kind == 'call' and x.label.split('.')[-1] == 'add' and x.recv in (REPORT, NULLREPORT) for e in rec.edges for x in e.events()):
                out.append(rec)
    return out


def check_settle(ctx, R, T):
    name = R.f.qual + ' (queue iteration)'
    Ds = [strip_at(d) for d in containers(R)]
    for it in R.iters:
        if it.edge.kind == 'exc':
            continue
        E = Entries(T, it.edge.events())
        good, bad = E.named(it.k)
        cond = '; '.join(showfact(a, v) for a, v in it.edge.conds)[:3000]
        if it.ok is False or it.V is None:
            v0 = it.V0()
            if it.ok is not False and not (v0 is not None and it.st.decide(isnone(v0)) is True):
                ctx.undec('C23.settle', name, 'value not found')
                continue
            ctx.need('C23.settle', name, not bad and all(g[0] == 'MISSING' and it.ok is not False for g in good),
                     'entries %s for an attribute that is %s [%s]' % (E.rows, 'pending' if it.ok is False else 'missing', cond), R.where)
        else:
            got = tuple(g[0] for g in good)

            def want(q):
                w = causes(it)(q)
                if w is None:
                    return Want('the conversion by the declared type', lambda s, g: None)

                def pred(s, g):
                    if bad or any(g[1] for g in good) or set(got) - set(w):
                        return False
                    return (w[0] in got) if w else True
                return Want('entries %s for the attribute' % (w,), pred)
            ctx.conform('C23.settle', name, [(it.st, ('c', 'entries', got + tuple(show(b) for b in bad if b)))], want, R.where, since=it.since, clear=it.clear())
        marks = []
        for D in Ds:
            if D[0] == 'ref' and D[1] not in it.st.heap and D not in it.st.heap:
                continue            # the container of another way to the queue
            m = marked(it, D)
            marks.append(m)
            ctx.need('C23.settle', name, m is False or m is True and bool(good),
                     'the attribute is noted as reported although it is not [%s]' % cond, R.where, taint=m is None)
        if marks and good and it.ok is not False and it.V is not None:
            ctx.need('C23.settle', name, any(marks), 'the rejection of the attribute is not noted: it is to be reported as missing too [%s]' % cond, R.where, taint=None in marks)


def strip_at(t):
    while t[0] == 'at':
        t = t[1]
    return t


def check_last(ctx, R, T, rid='C23.last'):
    name = R.f.qual + ' (final pass)'
    recs = finals(R)
    # the containers in which reported attributes are noted
    notes = [D for D in map(strip_at, containers(R)) if any(it.edge.kind != 'exc' and it.V is not None and it.ok is not False and Entries(T, it.edge.events()).named(it.k)[0] and marked(it, D) for it in R.iters)]
    if not recs:
        ctx.need(rid, name, False, 'nothing is said of the attributes left without a value', R.where)
    for s, v in R.rets:
        seen = [e.label for e in s.events() if e.kind == 'loop' and e.label in recs]
        ctx.need(rid, name, bool(seen), 'nothing is said of the attributes left without a value', R.where)
    for rec in recs:
        k = ('elem', rec.lid)
        for e in rec.edges:
            E = Entries(T, e.events())
            good, bad = E.named(k)
            got = set(g[0] for g in good)
            pv = c01_prior(rec, e, k)
            Ds = {a[2] for a, v in e.conds if a[0] == 'in' and a[1] == k and v and strip_at(a[2]) in notes}
            if pv is None:
                ctx.need(rid, name, not good and not bad, 'an entry is made for an attribute whatever its value [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), R.where, taint=True)
                continue

            # a path on which the note of an attribute reads as false, although every note is a true constant
            held = [x for a, v in e.conds for x in walk(a) if x[0] in ('item', 'itemv', 'getd') and x[2] == k and strip_at(x[1]) in notes] if Ds else []
            never = bool(held) and all(is_c(v) and bool(cval(v)) for D in {strip_at(x[1]) for x in held} for v in noted(R, D))

            def want(q):
                null = q(('eq', pv, C('None')))
                miss = not null and q(isnone(pv))

                def pred(s, g):
                    if bad or any(g[1] for g in good):
                        return False
                    if not null and not miss:
                        return not got
                    if got - ({'INVALID', 'MISSING'} if null else {'MISSING'}):
                        return False
                    if Ds:
                        return null or not got or never
                    return ('INVALID' if null else 'MISSING') in got
                return Want('entries of %s' % ('a null string' if null else 'a missing attribute' if miss else 'an accepted attribute'), pred)
            ctx.conform(rid, name, [(e.st, ('c', 'entries', tuple(sorted(got)) + tuple(show(b) for b in bad if b)))], want, R.where, clear={pv, *Ds, *held})


def c01_prior(rec, e, k):
    """The value of the attribute at the start of the pass."""
    found = []
    for a, v in e.conds:
        if a[0] in ('eq', 'is') and a[1][0] in ('item', 'itemv') and a[1][2] == k and a[2] in (C('None'), NONE) and a[1] not in found:
            found.append(a[1])
        if a[0] == 'in' and a[1][0] in ('item', 'itemv') and a[1][2] == k and a[1] not in found and a[2][0] == 'tup':
            found.append(a[1])
    return found[0] if found else None


def check_only(ctx, T):
    I, f, rows, edges = c03.only_tables(ctx, True)
    name = f.qual + ' (one rule)'
    if not edges:
        ctx.undec('C23.only', f.qual, 'no loop over the rules')
    for oe in edges:
        if oe.edge.kind == 'exc':
            continue
        E = Entries(T, oe.edge.events())
        holds = oe.edge.kind == 'next'
        if oe.value is None:
            ctx.need('C23.only', name, holds and not E.rows, 'entries %s for a rule decided without the value' % (E.rows,), f.where(), taint=True)
            continue
        good, bad = E.named(oe.name)
        got = tuple(g[0] for g in good)

        def want(q):
            if holds:
                w = ()
            else:
                w = ('NOTFOUND',) if oe.value == NONE or q(isnone(oe.value)) else ('NOTMATCH',)
            return Want('entries %s of attribute %s' % (w, show(oe.name)), lambda s, g: not bad and set(got) == set(w) and all(g[1] for g in good))
        ctx.conform('C23.only', name, [(oe.st, ('c', 'entries', got + tuple(show(b) for b in bad if b)))], want, f.where())


def check_only_same(ctx):
    """The verdict does not depend on the report."""
    for report in (True, False):
        only_same(ctx, report)


def only_same(ctx, report):
    I, f, rows, edges = c03.only_tables(ctx, report)
    for oe in edges:
        if oe.edge.kind == 'exc' or oe.value is None:
            continue
        got = ('sym', 'holds' if oe.edge.kind == 'next' else 'fails')

        def want(q):
            w = oe.verdict(q)
            return w if w is ANY else ('sym', w)
        ctx.conform('C23.same', f.qual + ' (one rule)', [(oe.st, got)], want, f.where())
    for s, o, failed in c03.only_outcomes(rows, edges):
        exhausted = not failed
        ctx.need('C23.same', f.qual, o == (c03.RD if exhausted else FALSE), 'gives %s although %s' % (showgot(o), 'no rule failed' if exhausted else 'a rule failed'), f.where(),
                 taint=row_tainted(s, o))


def check_try(ctx):
    f = ctx.repo.func('FootprintBase.footprint_couldbe')
    cls, rd, mk = sym('cls'), sym('rd'), sym('mkreport')
    I = ctx.interp(opaque={'Footprint.resolve', 'Footprint.checkonly', 'FootprintLog.add', 'reporting:get'},
                   types={cls: ('type', 'FootprintBase'), REPORT: ('inst', 'FootprintLog')})
    f, rows = execute(ctx, I, 'FootprintBase.footprint_couldbe', {'cls': cls, 'rd': rd, 'report': REPORT, 'mkreport': mk, 'resolvecache': CACHE})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        seq = [x for x in s.events() if x.kind == 'call' and x.label.split('.')[-1] in ('add', 'resolve', 'checkonly')]
        res = [x for x in seq if x.label == 'Footprint.resolve']
        if len(res) != 1:
            ctx.undec('C23.try', f.qual, '%d resolutions' % len(res))
            continue
        at = seq.index(res[0])
        before, after = seq[:at], seq[at + 1:]
        given = dict(res[0].kw).get('report', NONE)
        onl = [x for x in after if x.label == 'Footprint.checkonly']

        def want(q):
            rep = q(truth(REPORT))
            if any(a[0] == 'truth' and a[1][0] == 'call' and a[1] != given and not v and any(x.recv == a[1] for x in before) for a, v in s.facts.items()) or \
                    any(x.recv == given and set(dict(x.kw)) == {'collector'} for x in before) and s.decide(truth(given)) is False:
                return ANY          # a report with a collector is not empty
            mkr = not rep and q(truth(mk))

            def pred(s, g):
                adds = [(x.recv, dict(x.kw)) for x in before]
                if rep:
                    ok = [a for a in adds] == [(REPORT, {'candidate': cls})] and given == REPORT
                elif mkr:
                    ok = len(adds) == 2 and adds[0][0] == adds[1][0] == given and set(adds[0][1]) == {'collector'} and adds[1][1] == {'candidate': cls}
                else:
                    ok = not [a for a in adds if a[0] == REPORT] and (given in (NONE, REPORT, FALSE) or given[0] == 'attr' and given[2] == 'nullreport')
                ok = ok and not [x for x in after if x.label.endswith('.add')]
                return ok and all(dict(x.kw).get('report', NONE) == given or not rep and not mkr for x in onl)
            return Want('the class is recorded in the report before it is tried, with that report', pred)
        ctx.conform('C23.try', f.qual, [(s, ('c', 'events', tuple((x.label, show(x.recv) if x.recv else '', tuple((n, show(v)) for n, v in x.kw)) for x in seq)))], want, f.where())


def check_search(ctx):
    for fn in (c06.check_all, c06.check_any):
        I, f, rows = fn(ctx, 'C23.search')
        c06.recording(ctx, I, f, outcomes(rows), True, rid='C23.search')


def check_same(ctx, report):
    R = Resolve(ctx, report=report)
    name = R.f.qual + (' (with a report)' if report else ' (without report)')
    for it in R.iters:
        if it.ok is False or it.V is None or it.edge.kind == 'exc':
            continue
        ctx.conform('C23.same', name, [(it.st, it.final)], c01.settle_spec_q(it), R.where, since=it.since, clear=it.clear())
    rows, guess = c01.final_rows(R)
    for s, got in rows:
        pv = c01.prior(s, got, guess)
        ctx.conform('C23.same', name, [(s, got)], lambda q: c01.final_spec(pv)(q), R.where, clear={pv})
    for rec in finals(R):
        k = ('elem', rec.lid)
        for e in rec.edges:
            pv = c01_prior(rec, e, k)
            if pv is None:
                continue

            def want(q):
                if (q(('eq', pv, C('None'))) or q(isnone(pv))) and q(truth(FATAL)):
                    return C('FootprintFatalError')
                return C('goes on')
            if e.kind == 'exc' and e.value.name != 'FootprintFatalError' and e.value.call is not None:
                continue
            ctx.conform('C23.same', name + ' (final pass)', [(e.st, C(e.value.name if e.kind == 'exc' else 'goes on'))], want, R.where, clear={pv})
    for n, what in ((1, 'inputs'), (2, 'attributes seen')):
        for s, v in R.rets:
            ctx.need('C23.same', name, not mentions(v[1][n], lambda x: x == REPORT), 'the %s depend on the report' % what, R.where)
    return R


def run(ctx):
    ctx.rule('C23.settle', 'an attribute rejected when it is settled gets an entry with the first cause of its rejection, and only causes that hold; an accepted one gets none')
    ctx.rule('C23.last', 'an attribute left without a value gets a missing or invalid entry unless it already has one; an accepted one gets none')
    ctx.rule('C23.only', 'a failed only rule gets one entry naming the attribute: no value found, or do not match; a rule that holds gets none')
    ctx.rule('C23.try', 'the class tried is recorded before its resolution, and the report given to the resolution and to the only rules is that one')
    ctx.rule('C23.search', 'the collector searched is recorded before its classes are tried, each with that report')
    ctx.rule('C23.same', 'the same values, inputs and verdicts are required with and without a report')
    ctx.rule('C23.reasons', 'the texts of the reasons are distinct')
    ctx.rule('C23.effects', 'recording an entry changes nothing but the report')
    T = texts(ctx)
    ctx.need('C23.reasons', 'reporting', None not in T.values() and len(set(T.values())) == len(T), 'reasons %s' % T, 'src/footprints/reporting.py', taint=None in T.values())

    def resolve():
        R = check_same(ctx, True)
        check_settle(ctx, R, T)
        check_last(ctx, R, T)
    ctx.guard('C23.settle', 'Footprint.resolve', resolve)
    ctx.guard('C23.same', 'Footprint.resolve', lambda: check_same(ctx, False))
    ctx.guard('C23.only', 'Footprint.checkonly', lambda: check_only(ctx, T))
    ctx.guard('C23.same', 'Footprint.checkonly', lambda: check_only_same(ctx))
    ctx.guard('C23.try', 'FootprintBase.footprint_couldbe', lambda: check_try(ctx))
    ctx.guard('C23.search', 'Collector.find_all', lambda: check_search(ctx))
    bad = lambda root, path, what: root[0] not in ('fresh', 'new') and root != ('param', 'self')
    for q in ('FootprintLog.add', 'NullReport.add'):
        ctx.guard('C23.effects', q, lambda q=q: forbid(ctx, 'C23.effects', q, bad, 'recording an entry changes'))
