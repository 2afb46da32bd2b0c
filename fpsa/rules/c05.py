"""Which candidate is instantiated.

Decision tables of Collector.find_best and footprint_weight; the selected candidate's term tells by which order it was
picked among the candidates, and the object built must come from its class with its resolved values.
"""
from .searching import *
from . import c06

MINIMA = {'C05.candidates': 1, 'C05.notice': 2, 'C05.best': 4, 'C05.weight': 1, 'C05.rank': 2, 'C05.level': 4}
ARG = None


def selection(st, sel, cands):
    """How a candidate was picked: ('first',) | ('max', key body) | None."""
    if sel[0] == 'item' and is_c(sel[2]):
        i, base = cval(sel[2]), sel[1]
        if base == cands and i == 0:
            return ('first',)
        if base[0] == 'sorted' and base[1] == cands and i in (0, -1) and is_c(base[3]):
            return ('max' if (i == 0) == bool(cval(base[3])) else 'min', base[2] if base[2] != NONE else None)
    return None


def key_ok(key):
    """The order is by level, then by number of inputs."""
    if key is None:
        return False
    body = key[1] if len(key) > 1 else key
    args = set()
    mentions(body, lambda x: x[0] == 'arg' and args.add(x) and False)
    if len(args) != 1:
        return None
    a = args.pop()
    cls, n = item(a, 0), call('len', None, item(a, 2))
    if body[0] == 'call' and body[1] in ('.footprint_weight', 'FootprintBase.footprint_weight') and body[2] == cls:
        return body[3] == (n,) or dict(body[4]).get('realinputs') == n
    if body[0] == 'tup' and len(body[1]) == 2 and body[1][1] == n:
        lv = body[1][0]
        if lv in (('call', '.footprint_pl', cls, (), (), 0),):
            return True
        if mentions(lv, lambda x: x == cls) and ('rank' in show(lv) or 'level' in show(lv)):
            return True
        return False
    return False


def check_best(ctx):
    f = ctx.repo.func('Collector.find_best')
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.find_all'})
    f, rows = execute(ctx, I, 'Collector.find_best', {'self': SELF, 'desc': DESC, 'resolvecache': RCACHE}, search_state())
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need('C05.best', f.qual, o[1].name is None, 'raises %s' % (o[1],), f.where())
            continue
        evs = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.find_all']
        if len(evs) != 1 or evs[0].recv != SELF or dict(evs[0].kw).get('desc') != DESC:
            ctx.need('C05.best', f.qual, False, 'the candidates are not those of find_all for the description', f.where(), taint=not evs)
            continue
        cands = evs[0].res
        n = call('len', None, cands)
        if o == NONE:
            ctx.need('C05.best', f.qual, s.decide(truth(cands)) is False, 'None although there are candidates', f.where())
            continue
        if not (o[0] == 'call' and o[1] == 'apply' and len(o[3]) == 1):
            ctx.need('C05.best', f.qual, False, 'gives %s' % show(o), f.where(), taint=tainted(o))
            continue
        cl, val = o[2], o[3][0]
        if not (cl[0] == 'item' and cl[2] == C(0)):
            ctx.need('C05.best', f.qual, False, 'instantiates %s' % show(cl), f.where(), taint=True)
            continue
        sel = cl[1]
        ctx.need('C05.best', f.qual, val == item(sel, 1), 'built with %s, not with the values resolved for the selected class' % show(val), f.where())
        ctx.need('C05.best', f.qual, dict(o[4]) == {'checked': TRUE}, 'the resolved values are resolved again', f.where())
        how = selection(s, sel, cands)
        if how is None:
            ctx.need('C05.best', f.qual, False, 'selects %s' % show(sel), f.where(), taint=tainted(sel) or sel[0] not in ('item',) or not mentions(sel, lambda x: x == cands))
        elif how[0] == 'first':
            single = s.decide(lt(C(1), n)) is False or s.decide(mk_eq(n, C(1))) is True or s.decide(lt(n, C(2))) is True
            ctx.need('C05.best', f.qual, single and s.decide(truth(cands)) is True, 'takes the first candidate although there may be several (or none)', f.where())
        else:
            k = key_ok(how[1])
            ctx.need('C05.best', f.qual, how[0] == 'max' and k is True, 'orders the candidates by %s (%s first)' % (show(how[1]) if how[1] else 'nothing', how[0]), f.where(), taint=k is None)
            ctx.need('C05.best', f.qual, s.decide(truth(cands)) is True, 'no test for an empty list of candidates', f.where())


LEVELS = {'logging.' + n.upper(): n for n in ('debug', 'info', 'warning', 'error', 'critical')}


def check_notice(ctx):
    """A choice between several candidates is notified, at a level that tells whether it is ambiguous."""
    R = 'C05.notice'
    f = ctx.repo.func('Collector.find_best')
    I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.find_all'}, logs=True)
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'desc': DESC, 'resolvecache': RCACHE}, search_state())
    for s, o in outcomes(rows):
        evs = [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.find_all']
        if o[0] == 'exc' or len(evs) != 1 or o == NONE:
            continue
        sel = o[2][1] if o[0] == 'call' and o[2] and o[2][0] == 'item' else NONE
        if selection(s, sel, evs[0].res) is None or sel[1][0] != 'sorted':
            continue
        pl = lambda i: call('.footprint_pl', item(item(sel[1], i), 0))
        got = [e.args[0] for e in s.events() if e.kind == 'call' and e.label == 'message']
        for e in s.events():
            if e.kind == 'loop':
                got += [x.args[0] for b in e.label.edges for x in b.events() if x.kind == 'call' and x.label == 'message']
        got = [LEVELS.get(show(x), cval(x) if is_c(x) else x) for x in got]
        got = [x for x in got if x not in ('debug', 'info')]
        plain = {mk_eq(pl(i), pl(j)) for i in (0, 1, -1) for j in (0, 1, -1)}
        size = call('len', None, evs[0].res)
        # whatever else the path decides about the candidates, or about something computed from them, is not looked at
        odd = any(a not in plain and a[0] != 'truth' and a[0] != 'is' and not (a[0] in ('lt', 'eq') and size in a) and mentions(a, lambda x: x == evs[0].res or x[0] in ('ref', 'phi', 'unk'))
                  or a[0] in ('truth', 'is') and a[1] != evs[0].res and mentions(a, lambda x: x == evs[0].res or x[0] in ('ref', 'phi', 'unk')) for a, v in s.facts.items()) or any(
            not isinstance(x, str) and x[0] != 'attr' for x in got)
        for st, w in completions(s, lambda q: 'warning' if q(mk_eq(pl(0), pl(1))) else attr(SELF, 'non_ambiguous_loglevel')):
            ctx.need(R, f.qual, bool(got) and set(got) == {w}, 'the choice is notified at level %s; required %s [%s]' % (
                [x if isinstance(x, str) else show(x) for x in got], w if isinstance(w, str) else show(w), '; '.join(showfact(a, v) for a, v in st.conds())), f.where(),
                taint=odd)


def run(ctx):
    ctx.rule('C05.notice', 'the choice is notified as a warning when the two first candidates have the same level, else at the level of the collector')
    ctx.rule('C05.best', 'the object is built from the candidate of highest weight, with its own resolved values; None without candidate')
    ctx.rule('C05.weight', 'a candidate weighs the rank of its current level, then its number of inputs')
    ctx.rule('C05.rank', 'the rank of a level is its position in the levels of its set')
    ctx.rule('C05.level', 'the level of a class is the current one of its footprint')
    ctx.rule('C05.candidates', 'the candidates are the classes accepting the description, each with its own resolved values and all its inputs')
    ctx.guard('C05.candidates', 'Collector.find_all', lambda: c06.check_all(ctx, 'C05.candidates'))
    ctx.guard('C05.best', 'Collector.find_best', lambda: check_best(ctx))
    cls = sym('cls')
    lv = item(item(attr(attr(cls, '_footprint'), '_fp'), 'priority'), 'level')
    ty = {cls: ('type', 'FootprintBase')}
    simple(ctx, 'C05.weight', 'FootprintBase.footprint_weight', {'cls': cls, 'realinputs': sym('n')}, lambda q: tup(attr(lv, 'rank'), sym('n')), ty)
    simple(ctx, 'C05.level', 'FootprintBase.footprint_pl', {'cls': cls}, lambda q: lv, ty)
    simple(ctx, 'C05.level', 'FootprintBase.footprint_level', {'cls': cls}, lambda q: attr(lv, 'tag'), ty)
    simple(ctx, 'C05.level', 'Footprint.level', {'self': SELF}, lambda q: item(item(FP, 'priority'), 'level'), {SELF: ('inst', 'Footprint')})
    simple(ctx, 'C05.level', 'Footprint.priority', {'self': SELF}, lambda q: item(FP, 'priority'), {SELF: ('inst', 'Footprint')})
    lvs = attr(attr(SELF, '_pset'), '_levels')
    tag = call('.upper', attr(SELF, '_tag'))

    def rank(q):
        return call('.index', lvs, tag) if q(isin(tag, lvs)) else raising('ValueError')
    simple(ctx, 'C05.rank', 'PriorityLevel.rank', {'self': SELF}, rank, {SELF: ('inst', 'PriorityLevel')})
    ctx.guard('C05.notice', 'Collector.find_best', lambda: check_notice(ctx))
