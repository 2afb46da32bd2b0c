"""What is reported of a failed selection, and how.

Picking up is interpreted on all its paths with the search left opaque: the sequence of what is shown on each path is compared
with the style asked for.  The accessors of a collector to its report are compared with the report itself.  The settings that a
new collector receives are followed from the global setup, through its creation, to the bound of its report.
"""
from .common import *
from . import defining

MINIMA = {'C33.quiet': 100, 'C33.show': 30, 'C33.access': 6, 'C33.settings': 20, 'C33.report': 6}
TECHNIQUE = ('abstract interpretation (path-sensitive) of picking up with the search opaque: sequence of what is shown on each path against the style asked for; '
             'data flow of the reporting settings from the setup to the report of a new collector')
NOTE = 'The content of each view is the business of C24 and C32.'
TAG, D = attr(SELF, 'tag'), sym('D')
LOG = attr(SELF, 'report_log')
OBJ = item(D, TAG)
EMPTY, ASKED, STYLE = C('_emptywarning'), C('_report'), C('_report_style')
VIEWS = {'lightdump', 'fulldump', 'orderedprint', 'dumper', 'softprint', 'printer', 'niceprinter', 'simpleprinter'}
SETTINGS = ('report', 'lreport_len', 'report_style')


def name_of(e):
    return e.label.rsplit('.', 1)[-1].rsplit(':', 1)[-1] if isinstance(e.label, str) else ''


def facts(s):
    return '; '.join(showfact(a, v) for a, v in s.facts.items())


def flatten(evs):
    for e in evs:
        if e.kind == 'loop':
            for x in e.label.edges:
                yield from flatten(x.events())
        else:
            yield e


def is_last(t):
    """The last search of the report."""
    t = strip_at(t)
    return t == attr(LOG, 'last') or t[0] in ('item', 'itemv') and t[1] == attr(LOG, '_log') and t[2] == C(-1)


def constants(ctx):
    """The values of the reporting modes and styles."""
    out = {}
    for n in ctx.repo.module('config').tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id.endswith(('_REPORTING', '_REPORTINGSTYLE')):
                    out[t.id] = n.value.value
    return out


def pick_rows(ctx):
    f = ctx.repo.func('Collector.pickup_and_cache')
    I = ctx.interp(types={SELF: ('inst', 'Collector'), OBJ: ('inst', 'FootprintBase')}, opaque={'Collector.find_best', 'FootprintBase.footprint_cleanup'}, max_states=8000, prints=True)
    I.maybe_false.add(OBJ)
    st = State().assume(truth(attr(LOG, '_log')), True, False)      # a search has just been recorded
    st = st.assume(mk_eq(D, C(())), False, False) or st
    for c in (EMPTY, ASKED, STYLE):
        st = st.assume(mk_eq(c, TAG), False, False)
    d = I.alloc(st, 'dict')
    st.push(d, ('upd', D))
    a = [x.arg for x in f.node.args.args]
    args = {n: sym(n) for n in a}
    args[a[0]], args[a[1]] = SELF, d
    return f, I, execute(ctx, I, f.qual, args, st)[1]


def shows(evs):
    """What is shown, in order: (kind, receiver, how it was prepared) | ('print', texts)."""
    out, prepared = [], {}
    for e in evs:
        if e.kind != 'call':
            continue
        n = name_of(e)
        if n == 'reshuffle':
            prepared[e.recv] = e
        elif n in VIEWS and e.recv is not None:
            out.append((n, e, prepared.get(e.recv)))
        elif n == 'print':
            out.append(('print', e, None))
    return out


def made(t, kind):
    """The view of this kind of the last search, made without anything else."""
    t = strip_at(t)
    return t[0] == 'call' and t[1].rsplit('.', 1)[-1] == kind and t[2] is not None and is_last(t[2]) and not t[3] and not t[4]


def sorting(I, s, e):
    """The sorting keys and the `skip` of a reshuffling."""
    kw = dict(e.kw)
    ks = e.args[0] if e.args else kw.get('sortlist')
    skip = e.args[1] if len(e.args) > 1 else kw.get('skip', TRUE)
    out = None
    if ks is not None:
        for s2, p in I.iter_plan(s, ks):
            out = tuple(p[1]) if p[0] == 'unroll' else None
    return out, skip


def check_display(ctx):
    Q, V = 'C33.quiet', 'C33.show'
    f, I, rows = pick_rows(ctx)
    K_ = constants(ctx)
    ctx.need(V, f.qual, len({K_.get(x) for x in ('RAW_REPORTINGSTYLE', 'FLAT_REPORTINGSTYLE', 'FACTORIZED1_REPORTINGSTYLE', 'FACTORIZED2_REPORTINGSTYLE')}) == 4, 'two styles have the same value', 'config.py')

    def scenario(q, found):
        """What has to be shown: None (nothing) or the name of a style."""
        warn = q(truth(item(D, EMPTY))) if q(isin(EMPTY, D)) else True
        if found or not warn:
            return None
        asked = q(truth(item(D, ASKED))) if q(isin(ASKED, D)) else q(truth(attr(SELF, 'report_auto')))
        if not asked or not q(truth(attr(SELF, 'report'))):
            return None
        style = item(D, STYLE) if q(isin(STYLE, D)) else attr(SELF, 'report_style')
        for n in ('RAW', 'FLAT', 'FACTORIZED1', 'FACTORIZED2'):
            if q(mk_eq(style, C(K_[n + '_REPORTINGSTYLE']))):
                return n
        return 'other'

    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need(Q, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
            continue
        search = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.find_best']
        found = True if not search else not s.decide(isnone(search[0].res)) if s.decide(isnone(search[0].res)) is not None else None
        evs = list(flatten(s.events()))
        got = shows(evs)
        if found is None:
            ctx.need(Q, f.qual, not got, 'something is shown whether an object was found or not', f.where(), taint=True)
            continue
        for s2, want in completions(s, lambda q: scenario(q, found)):
            if want is None:
                ctx.need(Q, f.qual, not got, 'shows something (%s) when [%s]' % (', '.join(x[0] for x in got), facts(s2)), f.where(), taint=unsure(s2))
            elif want != 'other':
                styled(ctx, f, I, s2, want, [x for x in got if x[0] != 'print'], facts(s2))


def unsure(s):
    return any(tainted(a) for a in s.facts)


def styled(ctx, f, I, s, want, got, when):
    V = 'C33.show'
    if want == 'FLAT':
        good = len(got) == 2 and all(n == 'fulldump' and made(e.recv, 'as_flat') and p is not None for n, e, p in got)
        how = {sorting(I, s, p) for n, e, p in got} if good else set()
        good = good and how == {((C('why'), C('attribute')), FALSE), ((C('only'), C('attribute')), FALSE)}
    elif want == 'RAW':
        good = len(got) == 1 and got[0][0] == 'lightdump' and is_last(got[0][1].recv)
    else:
        good = len(got) == 1 and got[0][0] == {'FACTORIZED1': 'orderedprint', 'FACTORIZED2': 'dumper'}[want] and made(got[0][1].recv, 'as_tree')
    seen = ', '.join('%s of %s%s' % (n, show(e.recv), ' sorted by %s' % [show(x) for x in p.args] if p else '') for n, e, p in got)
    ctx.need(V, f.qual, good, 'shows %s for the style %s when [%s]' % (seen or 'nothing', want, when), f.where(), taint=unsure(s) or any(tainted(e.recv) for n, e, p in got))


# -- accessors

def check_access(ctx):
    R = 'C33.access'
    for name, target in (('report_dump', 'fulldump'), ('report_whynot', 'whynot')):
        f = ctx.repo.func('Collector.' + name)
        given = f.node.args.args[1].arg
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'FootprintLog.' + target}, prints=True)
        f, rows = execute(ctx, I, f.qual, {'self': SELF, given: sym(given)})
        for s, o in outcomes(rows):
            calls = [e for e in s.events() if e.kind == 'call' and name_of(e) == target]
            ok = o[0] != 'exc' and len(calls) == 1 and strip_at(calls[0].recv) == LOG and (list(calls[0].args) + [v for k, v in calls[0].kw]) == [sym(given)]
            ok = ok and (target != 'whynot' or o == calls[0].res)
            ctx.need(R, f.qual, ok, 'does not ask its report for this', f.where(), taint=o[0] == 'exc' and o[1].name is None)
    f = ctx.repo.func('FootprintLog.fulldump')
    I = ctx.interp(types={SELF: ('inst', 'FootprintLog')}, opaque={'FootprintLog.as_dict'}, prints=True)
    given = f.node.args.args[1].arg
    f, rows = execute(ctx, I, f.qual, {'self': SELF, given: sym(given)})
    dumped(ctx, R, f, rows, 'FootprintLog.as_dict', lambda r: r == SELF, ('stamp', sym(given)))
    f = ctx.repo.func('Collector.report_dumplast')
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, prints=True)
    f, rows = execute(ctx, I, f.qual, {'self': SELF}, State().assume(truth(attr(LOG, '_log')), True, False))
    dumped(ctx, R, f, rows, '.as_dict', is_last, None)
    f = ctx.repo.func('Collector.report_last')
    I = ctx.interp(types={SELF: ('inst', 'Collector')})
    f, rows = execute(ctx, I, f.qual, {'self': SELF}, State().assume(truth(attr(LOG, '_log')), True, False))
    for s, o in outcomes(rows):
        ctx.need(R, f.qual, o[0] != 'exc' and is_last(o), 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))
    f = ctx.repo.func('Collector.report_sorted')
    I = ctx.interp(types={SELF: ('inst', 'Collector')})
    kw = f.node.args.kwarg
    f, rows = execute(ctx, I, f.qual, dict({'self': SELF}, **({kw.arg: sym('kw')} if kw else {})), State().assume(truth(attr(LOG, '_log')), True, False))
    for s, o in outcomes(rows):
        ok = o[0] == 'call' and o[1].endswith('as_tree') and o[2] is not None and is_last(o[2]) and not o[3] and [strip_at(v) for k, v in o[4]] == [sym('kw')]
        ctx.need(R, f.qual, ok, 'gives %s' % (o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and tainted(o))


def dumped(ctx, R, f, rows, view, base, need):
    for s, o in outcomes(rows):
        ps = [e for e in s.events() if e.kind == 'call' and e.label == 'print']
        seen = []
        for e in ps:
            for a in e.args:
                walk_calls(a, view, seen)
        good = o[0] != 'exc' and len(seen) == 1 and base(strip_at(seen[0][2]))
        if good and need:
            good = dict(seen[0][4]).get(need[0]) == need[1] or seen[0][3][1:2] == (need[1],)
        ctx.need(R, f.qual, good, 'does not print the dictionary asked for', f.where(), taint=o[0] == 'exc' and o[1].name is None)


def walk_calls(t, label, out):
    mentions(t, lambda x: out.append(x) if x[0] == 'call' and len(x) == 6 and x[1] == label and x not in out else False)


# -- settings of a new collector

SETUP = ('glob', 'footprints', 'setup')


def from_setup(t, name):
    return t[0] == 'attr' and t[2] == name and (t[1] == SETUP or t[1][0] == 'glob' and t[1][-1] == 'setup')


def asked_with(ctx, R, where_, e, line):
    kw = dict(e.kw)
    for n in SETTINGS:
        v = kw.get(n)
        ctx.need(R, where_, v is not None and from_setup(v, n), 'a collector is asked for with %s=%s' % (n, show(v) if v is not None else 'its default'), line, taint=v is not None and tainted(v))


def check_settings(ctx):
    R = 'C33.settings'
    for name in ('pickup', 'load', 'default'):
        f = ctx.repo.func('__init__:' + name)
        kw = f.node.args.kwarg
        args = {a.arg: sym(a.arg) for a in f.node.args.args}
        if kw:
            args[kw.arg] = sym('kw')
        I = ctx.interp(opaque={'collectors:get', 'Collector.pickup', 'Collector.load', 'Collector.default'})
        f, rows = execute(ctx, I, f.qual, args)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            new = [e for e in s.events() if e.kind == 'call' and e.label in ('collectors:get', 'new Collector')]
            ctx.need(R, f.qual, len(new) == 1, 'asks for %d collectors' % len(new), f.where(), taint=True)
            for e in new:
                asked_with(ctx, R, f.qual, e, f.where())
    dd = defining.Define(ctx)
    seen = set()
    for rec in dd.I.loops.values():
        for x in rec.edges:
            for e in x.events():
                if e.kind == 'call' and e.label in ('collectors:get', 'new Collector') and (e.args, e.kw) not in seen:
                    seen.add((e.args, e.kw))
                    asked_with(ctx, R, dd.f.qual, e, dd.where)
    ctx.need(R, dd.f.qual, bool(seen), 'the definition of a class does not ask for its collectors in a loop', dd.where, taint=True)


def check_report(ctx):
    """The report of a new collector."""
    R = 'C33.report'
    f = ctx.repo.func('Collector.__init__')
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'reporting:get', 'config:add2proxies', 'Collector._del_fasttrack'})
    KW = sym('kw')
    f, rows = execute(ctx, I, f.qual, {'self': SELF, f.node.args.kwarg.arg: KW})
    full = constants(ctx).get('FULL_REPORTING')
    own = lambda s, n: s.attrs.get((SELF, n), attr(SELF, n))
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need(R, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
            continue
        held = own(s, 'report')         # the keywords may have been completed first
        held = ('getd', held[1] if held[0] == 'getd' and strip_at(held[1]) == KW else KW, C('report_tag'), NONE)
        for n in SETTINGS + ('report_auto', 'report_tag'):
            v = own(s, n)
            good = v[0] == 'getd' and (strip_at(v[1]), v[2]) == (KW, C(n)) or n == 'report_tag' and s.decide(isnone(('getd', KW, C(n), NONE))) is not False
            ctx.need(R, f.qual, good, 'holds %s as %s, whatever it was given' % (show(v), n), f.where(), taint=tainted(v))
        auto = own(s, 'report_auto')
        if auto[0] == 'getd':
            ctx.need(R, f.qual, is_c(auto[3]) and bool(cval(auto[3])), 'a collector that was not told otherwise shows no report', f.where(), taint=tainted(auto[3]))
        logs = [e for e in s.events() if e.kind == 'call' and e.label in ('reporting:get', 'new FootprintLog')]
        ctx.need(R, f.qual, len(logs) == 1 and own(s, 'report_log') == logs[0].res, 'its report is %s' % show(own(s, 'report_log')), f.where(), taint=tainted(own(s, 'report_log')))
        if len(logs) != 1:
            continue
        kw = dict(logs[0].kw)
        n, tag = kw.get('log_maxlen', NONE), kw.get('tag', logs[0].args[0] if logs[0].args else NONE)
        for s2, w in completions(s, lambda q: q(mk_eq(own(s, 'report'), C(full)))):
            ctx.need(R, f.qual, n == (NONE if w else own(s, 'lreport_len')), 'keeps %s searches when [%s]' % (show(n), facts(s2)), f.where(), taint=tainted(n) or unsure(s2))
        for s2, w in completions(s, lambda q: q(isnone(held))):
            def whole(t):
                # two collectors have two reports: the tag is there in full
                return t == TAG or t[0] in ('strcat', 'tup') and any(whole(x) for x in t[1])
            good = whole(tag) if w else tag == held
            part = mentions(tag, lambda x: x[0] == 'item' and x[1] == TAG or x[0] == 'call' and x[1] == 'slice' and x[3][0] == TAG)
            if w and not good and not part and mentions(tag, lambda x: x == TAG):
                ctx.undec(R, f.qual, 'known as %s' % show(tag))
                continue
            ctx.need(R, f.qual, good, 'its report is known as %s when [%s]' % (show(tag), facts(s2)), f.where(), taint=tainted(tag) or unsure(s2))


def run(ctx):
    ctx.rule('C33.quiet', 'nothing is shown when an object is found, when the warning is disabled, when no report is asked for (by the description, else by the collector) or when the collector does not report')
    ctx.rule('C33.show', 'a failed pick-up shows the last search of the report, in the style of the description, else in the one of the collector')
    ctx.rule('C33.access', 'the accessors of a collector give, or print, its own report and the last search of it')
    ctx.rule('C33.settings', 'a collector is asked for with the reporting mode, length and style of the setup')
    ctx.rule('C33.report', 'a collector makes its own report, under its tag, with the length it was given, except in full mode')
    ctx.guard('C33.show', 'Collector.pickup_and_cache', lambda: check_display(ctx))
    ctx.guard('C33.access', 'Collector.report_dump', lambda: check_access(ctx))
    ctx.guard('C33.settings', '__init__:load', lambda: check_settings(ctx))
    ctx.guard('C33.report', 'Collector.__init__', lambda: check_report(ctx))
