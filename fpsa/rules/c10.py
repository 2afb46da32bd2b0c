"""Footprints are inherited by merging and never altered afterwards.

Definition: the sequence of footprints a class gives to its own one is read from the list built (bases reversed, own definition
last); each step of the constructor is a decision table (what is merged, into what, in which order), as is the normal form given
to each attribute, one case of present and absent fields at a time. Isolation: interprocedural effect analysis of the package
(nothing writes inside a footprint but its constructor and the priority interface), plus the freshness of what is handed out.
"""
import ast

from .defining import *
from .purity import modref, showpath

TECHNIQUE = 'static analysis: decision tables of the merge and of the normal form, order of the merged sequence, interprocedural effect analysis of the writes to footprints, freshness of the copies'
MINIMA = {'C10.order': 4, 'C10.merge': 6, 'C10.start': 4, 'C10.fields': 60, 'C10.reclass': 8, 'C10.writes': 80, 'C10.copies': 7, 'C10.list2dict': 3}
S = {SELF: ('inst', 'Footprint')}
MERGE = 'bronx.syntax.dictmerge'
KW, ARGS = sym('KW'), sym('ARGS')
PARTS = ('attr', 'only')
SETUPDOC = truth(attr(('glob', 'footprints', 'setup'), 'docstrings'))


# ---------------------------------------------------------------------------------------------- order of the bases

def base_seq(coll, order):
    """The collection is a sequence of the bases: 1 as written, -1 reversed, None something else."""
    d = 1
    t = coll
    if order is not None and order[0] == 'call' and order[1] == 'reversed':
        d, order = -d, None
    while True:
        t = strip_view(t)
        if t[0] == 'call' and t[1] == 'reversed' and len(t[3]) == 1:
            d, t = -d, t[3][0]
        elif t[0] == 'call' and t[1] == 'slice' and t[3][1:] == (NONE, NONE, C(-1)):
            d, t = -d, t[3][0]
        elif t[0] == 'call' and t[1] == 'slice' and t[3][1:] in ((NONE, NONE, NONE), (NONE, NONE)):
            t = t[3][0]
        else:
            break
    return d if t == BASES else None


class Unread(Exception):
    pass


def segments(I, s, t, n=None):
    """What a list holds, in order: ('bases', +1 or -1, good), ('one', term), ('all', term)."""
    if t[0] == 'at':
        return segments(I, s, t[1], t[2])
    if t[0] == 'tup':
        return [('one', x) for x in t[1]]
    if t[0] == 'bin' and t[1] == '+':
        return segments(I, s, t[2]) + segments(I, s, t[3])
    d, u = 1, t
    if u[0] == 'call' and u[1] in ('list', 'tuple') and len(u[3]) == 1:
        return segments(I, s, u[3][0])
    if u[0] == 'call' and u[1] == 'reversed' or u[0] == 'call' and u[1] == 'slice' and u[3][1:] == (NONE, NONE, C(-1)):
        return flip(segments(I, s, u[3][0]))
    if t[0] != 'ref':
        return [('all', t)]
    out = []
    for op in s.ops(t)[:n]:
        k = op[0]
        if k in ('lit', 'clr'):
            out = []
        elif k == 'copy':
            out = segments(I, s, op[1], op[2]) if op[1][0] == 'ref' else [('all', op[1])]
        elif k == 'app':
            out = out + [('one', op[1])]
        elif k == 'ins' and op[1] == C(0):
            out = [('one', op[2])] + out
        elif k == 'appl':
            out = [('one', op[1])] + out
        elif k == 'ext':
            out = out + segments(I, s, op[1])
        elif k == 'reverse':
            out = flip(out)
        elif k == 'each':
            rec = op[2]
            d = base_seq(rec.coll, rec.order) if rec.coll is not None else None
            if d is None:
                src = strip_view(rec.coll) if rec.coll is not None else None
                if src is not None and src[0] == 'call' and src[1] == 'slice' and strip_view(src[3][0]) == BASES:
                    out = out + [('part', src)]
                    continue
                same_elems = src is not None and all(tuple(op[3](e)) == (('app', ('elem', rec.lid)),) for e in rec.edges if e.kind == 'next')
                if not same_elems:
                    raise Unread('elements added by a loop over %s' % (show(rec.coll) if rec.coll is not None else '?'))
                out = out + segments(I, s, src)
                continue
            where = None
            good = []
            for e in rec.edges:
                if e.kind == 'exc':
                    continue
                if e.kind != 'next':
                    raise Unread('a loop over the bases that stops early')
                ops = op[3](e)
                x = ('elem', rec.lid)
                D_ = attr(x, '__dict__')
                own = e.st.facts.get(isin(C('_footprint'), D_))
                val = None
                for o in ops:
                    if o[0] == 'app':
                        where, val = 'end', (val or []) + [o[1]]
                    elif o[0] in ('ins', 'appl') and (o[0] == 'appl' or o[1] == C(0)):
                        where, val = 'start', [o[-1]] + (val or [])
                    else:
                        raise Unread('%s on the list of footprints' % o[0])
                fp = item(D_, C('_footprint'))
                if val is None:
                    good.append((e, own is False, 'leaves out a base'))
                elif len(val) > 1:
                    good.append((e, False, 'adds several footprints for a base'))
                elif own is None and val[0][0] == 'getd' and val[0][1:3] == (D_, C('_footprint')) and empty(I, e.st, val[0][3]):
                    good.append((e, True, ''))
                elif own and val[0] == fp or own is False and empty(I, e.st, val[0]):
                    good.append((e, True, ''))
                else:
                    good.append((e, None if tainted(val[0]) else False, 'takes %s for a base' % show(val[0])))
            seg = ('bases', d if where != 'start' else -d, good)
            out = ([seg] + out) if where == 'start' else out + [seg]
        else:
            raise Unread('%s on the list of footprints' % k)
    return out


def flip(segs):
    out = []
    for x in reversed(segs):
        out.append(('bases', -x[1], x[2]) if x[0] == 'bases' else ('llb', x[1]) if x[0] == 'all' else ('all', x[1]) if x[0] == 'llb' else x)
    return out


def empty(I, s, t):
    if is_c(t):
        return not cval(t)
    return t[0] == 'tup' and not t[1] or t[0] == 'ref' and all(o[0] == 'lit' for o in s.ops(t))


def check_order(ctx):
    rid = 'C10.order'
    D = Define(ctx, False)
    name = D.f.qual
    own = item(BODY, C('_footprint'))

    def go():
        found = 0
        seen = set()
        for s, o in D.outs:
            evs = [e for e in s.events() if e.kind == 'call' and e.label == 'new Footprint']
            if o[0] == 'exc' and not evs:
                continue
            if not evs:
                ctx.need(rid, name, False, 'builds no footprint for the class', D.where)
                continue
            e = evs[0]
            present = s.facts.get(isin(C('_footprint'), BODY))
            try:
                segs = []
                for a in e.args:
                    segs += segments(D.I, s, a[1]) if a[0] == 'star' else [('one', a)]
            except Unread as x:
                ctx.undec(rid, name, str(x))
                continue
            local = [own, ('getd', BODY, C('_footprint'))]
            islocal = lambda t: t == own or t[0] == 'getd' and t[1:3] == (BODY, C('_footprint'))
            segs = [x for x in segs if not (x[0] in ('one', 'all') and empty(D.I, s, x[1]))]
            aslist = [v for a, v in s.facts.items() if a[0] in ('is', 'isinstance', 'eq') and mentions(a, lambda t: islocal(t)) and mentions(a, lambda t: t in (('builtin', 'list'), C(list)) or t[:1] == ('builtin',) and t[-1] == 'list')]
            key = repr((segs and [(x[0], x[1] if x[0] == 'bases' else show(x[1])) for x in segs], present, aslist))
            if key in seen:
                continue
            seen.add(key)
            found += 1
            bases = [x for x in segs if x[0] == 'bases']
            rest = [x for x in segs if x[0] != 'bases']
            if any(x[0] in ('part', 'llb') for x in segs):
                ctx.need(rid, name, False, 'the footprints merged are, in order: %s' % [(x[0], show(x[1])) if x[0] != 'bases' else x[:2] for x in segs], D.where, taint=any(tainted(x[1]) for x in segs if x[0] != 'bases'))
                continue
            what = [('bases' if x[1] > 0 else 'bases reversed') if x[0] == 'bases' else ('each of ' if x[0] == 'all' else '') + show(x[1]) for x in segs]
            if not bases and any(x[0] == 'all' and not islocal(x[1]) for x in rest):
                ctx.undec(rid, name, 'sequence of footprints not understood: %s' % what)
                continue
            ctx.need(rid, name, len(bases) == 1 and bases[0][1] == -1, 'the footprints merged are, in order: %s; the right-most base comes first' % what, D.where)
            for b in bases:
                for ed, g, why in b[2]:
                    ctx.need(rid, name, g, '%s when [%s]' % (why, '; '.join(showfact(*c) for c in ed.conds)), D.where, taint=g is None)
            if present is False:
                ctx.need(rid, name, not rest, 'merges %s although the class defines no footprint' % what, D.where)
                continue
            ctx.need(rid, name, segs and segs[-1][0] != 'bases' and len(rest) == 1 and islocal(rest[0][1]), 'the footprints merged are, in order: %s; the own footprint of the class comes last' % what, D.where,
                     taint=any(tainted(x[1]) for x in rest))
            if len(rest) == 1 and aslist:
                ctx.need(rid, name, (rest[0][0] == 'all') == aslist[0], 'the own footprint, %sa list, is merged as %s' % ('' if aslist[0] else 'not ', what), D.where)
            kw = dict(e.kw)
            ctx.need(rid, name, 'nodefault' not in kw or kw['nodefault'] == FALSE, 'asks for no default values', D.where)
            d = s.ops(BODY)
            last = [x for x in d if x[0] == 'set' and x[1] == C('_footprint')]
            new = [x for x in last if mentions(x[2], lambda t: t[:2] == ('call', 'new Footprint'))]
            ctx.need(rid, name, last and last[-1] in new, 'the footprint built is not the one of the class', D.where, taint=any(tainted(x[2]) for x in last))
        if not found:
            ctx.undec(rid, name, 'no footprint construction found')
    ctx.guard(rid, name, go)


# ---------------------------------------------------------------------------------------------- constructor

def construct(ctx, args, merging, case=None):
    f = ctx.repo.func('Footprint.__init__')
    I = ctx.interp(types=S, opaque={'util:list2dict', 'doc:format_docstring'}, max_states=20000)
    I.merging = merging
    case = case or {}

    def presume(a):
        if a == SETUPDOC:
            return False
        if a[0] == 'is' and a[2] == NONE and a[1][:2] in (('call', 'util:list2dict'), ('call', 'copy.deepcopy'), ('call', 'copy.copy')):
            return False        # list2dict gives a dictionary
        if a[0] == 'in' and is_c(a[1]):
            if a[2] == KW and cval(a[1]) == 'myclsname':
                return False
            if a[2] == KW and cval(a[1]) == 'nodefault':
                return case.get('nodefault', False)
            if merging and a[2][0] == 'item' and a[2][2][0] == 'elem' and cval(a[1]) in case:
                return case[cval(a[1])]
            if merging and cval(a[1]) == 'attr':
                return True
        return None
    I.presume = presume
    if not merging:
        # what is done for each attribute is the matter of C10.fields
        I.skip = lambda c: mentions(c, lambda t: t[0] in ('item', 'itemv') and t[2] == C('attr'))
    st = State()
    kw = I.alloc(st, 'dict')
    st.push(kw, ('upd', KW))
    a = f.node.args
    names = {a.args[0].arg: SELF, a.vararg.arg: args, a.kwarg.arg: kw}
    _, rows = execute(ctx, I, f.qual, names, st)
    return f, I, kw, outcomes(rows)


def data_field(ctx):
    """Name of the attribute of footprints which holds the definition."""
    I = ctx.interp(types=S)
    fget = ctx.repo.cls('Footprint').props['attr'][0]
    _, rows = execute(ctx, I, fget.qual, {fget.node.args.args[0].arg: SELF})
    for s, o in outcomes(rows):
        if o[0] == 'item' and o[2] == C('attr') and o[1][0] == 'attr' and o[1][1] == SELF:
            return o[1][2]
    return '_fp'


def check_merge(ctx, data):
    rid, ris = 'C10.merge', 'C10.start'
    f0 = ctx.repo.func('Footprint.__init__')
    name, where = f0.qual, f0.where()

    def go():
        for nodefault in (False, True):
            f, I, kw, outs = construct(ctx, ARGS, False, {'nodefault': nodefault})
            for s, o in outs:
                if o[0] == 'exc':
                    continue
                fp = s.attrs.get((SELF, data))
                if fp is None or fp[0] != 'ref':
                    ctx.need(rid, name, False, 'the definition kept is %s' % (show(fp) if fp else 'not set'), where, taint=fp is None or tainted(fp))
                    continue
                evs = [e for e in s.events() if e.kind == 'loop' or e.kind == 'call' and e.label == MERGE]
                loops = [e for e in evs if e.kind == 'loop' and e.label.coll is not None and strip_view(e.label.coll) == ARGS]
                merges = [e for e in evs if e.kind == 'call']
                if len(loops) != 1:
                    ctx.undec(rid, name, '%d loops over the footprints to merge' % len(loops))
                    continue
                rec = loops[0].label
                ctx.need(rid, name, rec.order is None, 'the footprints are merged in another order: %s' % (show(rec.order) if rec.order else ''), where)
                # what the caller adds comes last
                ctx.need(rid, name, len(merges) == 1 and merges[0].args[0] == fp and evs.index(merges[0]) > evs.index(loops[0]) and is_source(s, merges[0].args[1], kw),
                         'after the footprints given, the merges are %s; the named arguments come last' % [[show(a) for a in e.args] for e in merges], where,
                         taint=any(tainted(a) for e in merges for a in e.args))
                if not nodefault and s.facts.get(truth(item(KW, C('nodefault')))) is None:
                    start(ctx, ris, name, where, I, s, fp, kw, False)
                elif nodefault:
                    v = s.facts.get(truth(item(KW, C('nodefault'))))
                    if v is not None:
                        start(ctx, ris, name, where, I, s, fp, kw, v)
                for e in rec.edges:
                    if e.kind == 'exc':
                        continue
                    ctx.need(rid, name, e.kind == 'next', 'stops merging when [%s]' % econds(e), where)
                    if e.kind != 'next':
                        continue
                    x = ('elem', rec.lid)
                    isd = fact(e, 'isinstance', x, ('builtin', 'dict'))
                    isf = [v for a, v in e.conds if a[0] == 'isinstance' and a[1] == x and mentions(a[2], lambda t: t == ('cls', 'Footprint'))]
                    isf = isf[0] if isf else None
                    ms = [m for m in e.events() if m.kind == 'call' and m.label == MERGE]
                    got = [(show(m.args[0]), show(m.args[1])) for m in ms]
                    into = all(m.args[0] == fp for m in ms)
                    fill = [v for a, v in e.conds if a == truth(x)]
                    some = [v for a, v in e.conds for p_ in PARTS if a == truth(item(attr(x, data), C(p_)))]
                    l2d = [a for a, v in e.conds if a[:1] == truth(x)[:1] and a[1][0] == 'call' and a[1][1] in ('util:list2dict', 'copy.deepcopy', 'copy.copy') and not v]
                    if l2d:
                        continue        # merging an empty dictionary changes nothing
                    if isd and (not fill or fill[0]) and isf is not True:
                        ctx.need(rid, name, into and len(ms) == 1 and is_source(e.st, ms[0].args[1], x), 'for a dictionary, merges %s when [%s]' % (got, econds(e)), where, taint=any(tainted(hide(a, (x,))) for m in ms for a in m.args))
                    elif isf and (not some or any(some)):
                        if isd:
                            continue
                        ctx.need(rid, name, into and len(ms) == 1 and of_footprint(e.st, ms[0].args[1], attr(x, data)), 'for a footprint, merges %s' % got, where, taint=any(tainted(hide(a, (x,))) for m in ms for a in m.args))
                    elif isd is False and isf is False or isd and fill and not fill[0] or isf and len(some) == len(PARTS) and not any(some):
                        ctx.need(rid, name, not ms or isf and into and len(ms) == 1, 'merges %s when [%s]' % (got, econds(e)), where)
                    elif isf and some and not ms:
                        ctx.need(rid, name, False, 'merges nothing of a footprint when [%s]' % econds(e), where)
                    else:
                        ctx.undec(rid, name, 'a step of the merge not understood: [%s]' % econds(e))
                break
    ctx.guard(rid, name, go)


def econds(e):
    return '; '.join(showfact(a, v) for a, v in e.conds)


def fact(e, *atom):
    for a, v in e.conds:
        if a == atom or a[0] == atom[0] and a[1] == atom[1] and (a[2] == atom[2] or a[2][-1] == atom[2][-1]):
            return v
    return None


def is_source(s, t, x):
    """t is what list2dict makes of x, for both lists of parts."""
    if t[0] != 'call' or t[1] != 'util:list2dict':
        return False
    kw = dict(t[4])
    a, k = kw.get('a'), kw.get('klist')
    if a is not None and a[0] == 'at':
        a = a[1]
    if k is not None and k[0] == 'tup':
        ks = {cval(c) for c in k[1] if is_c(c)}
    elif k is not None and k[0] in ('ref', 'at'):
        ks = {cval(o[1]) for o in s.ops(k[1] if k[0] == 'at' else k) if o[0] in ('app', 'add') and is_c(o[1])}
    else:
        return False
    return a == x and ks >= set(PARTS)


def of_footprint(s, t, d):
    """t holds the definition d: itself, or a copy of it."""
    if t[0] == 'at':
        t = t[1]
    if t == d:
        return True
    if t[0] == 'call' and t[1] in ('copy.deepcopy', 'copy.copy', 'dict') and len(t[3]) == 1:
        return of_footprint(s, t[3][0], d)
    if t[0] == 'ref':
        ops = [o for o in s.ops(t) if o[0] != 'lit']
        return len(ops) == 1 and ops[0][0] in ('copy', 'upd') and of_footprint(s, ops[0][1], d)
    return False


def start(ctx, rid, name, where, I, s, fp, kw, nodefault):
    """What the definition holds before anything is merged."""
    for k, want in (('attr', 'dict'), ('bind', 'list'), ('info', C('Not documented')), ('only', 'dict'), ('priority', None)):
        for s2, has, v in I.lookup(s, fp, C(k)):
            if nodefault and k != 'attr':
                ctx.need(rid, name, not has, 'without default values, the field "%s" starts as %s' % (k, show(v) if has else ''), where)
                continue
            ok = has and (v == want if isinstance(want, tuple) else empty(I, s2, v) and v[0] in ('ref', 'tup') and (v[0] == 'tup') == (want == 'tuple') if want else prio(I, s2, v))
            ctx.need(rid, name, ok, 'the field "%s" starts as %s' % (k, show(v) if has else 'missing'), where, taint=has and tainted(v))


def prio(I, s, v):
    if v[0] != 'ref':
        return False
    return all(has and l[-1] == 'DEFAULT' and l[0] in ('attr', 'glob') or has and l[0] == 'attr' and l[2] == 'DEFAULT' for _, has, l in I.lookup(s, v, C('level')))


FIELDS = ('default', 'optional', 'access', 'doc_visibility', 'doc_zorder', 'alias', 'remap', 'values', 'outcast', 'type', 'args')
SIMPLE = {'default': NONE, 'optional': FALSE, 'access': C('rxx')}
SAMPLES = (-1000, -101, -100, -99, -1, 0, 1, 99, 100, 101, 1000)


def number(t, z, x):
    """Value of a term built on z with minima and maxima, for z = x."""
    if t == z:
        return x
    if is_c(t):
        return cval(t)
    if t[0] == 'call' and t[1] in ('min', 'max'):
        xs = [number(a, z, x) for a in t[3]]
        if len(xs) == 1 and t[3][0][0] == 'tup':
            xs = [number(a, z, x) for a in t[3][0][1]]
        return None if any(a is None for a in xs) else (min if t[1] == 'min' else max)(xs)
    if t[0] == 'item' and t[2][0] == 'c' and t[1][0] == 'call' and t[1][1] == 'sorted':
        a = t[1][3][0]
        if a[0] == 'tup':
            xs = [number(b, z, x) for b in a[1]]
            return None if any(b is None for b in xs) else sorted(xs)[cval(t[2])]
    return None


def check_fields(ctx, data):
    rid, rir = 'C10.fields', 'C10.reclass'
    f0 = ctx.repo.func('Footprint.__init__')
    name, where = f0.qual, f0.where()
    cases = [{k: False for k in FIELDS}, {k: True for k in FIELDS}]
    for k in FIELDS:
        cases.append({x: x == k for x in FIELDS})
        cases.append({x: x != k for x in FIELDS})

    def go(case):
        f, I, kw, outs = construct(ctx, ('tup', ()), True, case)
        recs = {}
        for s, o in outs:
            if o[0] == 'exc':
                continue
            fp = s.attrs.get((SELF, data))
            if fp is None or fp[0] != 'ref':
                ctx.undec(rid, name, 'no definition followed')
                continue
            M = [o_[1] for o_ in s.ops(fp) if o_[0] == 'upd' and o_[1][:2] == ('call', MERGE)]
            if not M:
                ctx.undec(rid, name, 'no merge found')
                continue
            A = item(M[-1], C('attr'))
            for r in I.loops.values():
                if r.coll is not None and strip_view(r.coll if not (r.coll[0] == 'view' and r.coll[1] in ('items', 'values')) else r.coll[2]) == A:
                    recs[r.lid] = (r, A)
        if not recs:
            ctx.undec(rid, name, 'no loop over the attributes of the definition')
            return
        # several loops in turn may share the work: only the single one is read
        tops = {r.line for r, _ in recs.values()}
        if len(tops) != 1:
            ctx.undec(rid, name, 'several loops over the attributes of the definition')
            return
        for r, A in list(recs.values())[:1]:
            x = ('elem', r.lid)
            cell = item(A, x)
            for e in r.edges:
                if e.kind == 'exc':
                    continue
                if e.kind != 'next':
                    ctx.need(rid, name, False, 'stops giving their fields to the attributes when [%s]' % econds(e), where)
                    continue
                fields(ctx, rid, rir, name, where, I, e, cell, case)
    for c in cases:
        ctx.guard(rid, name, lambda: go(c))


def short(case):
    on = [k for k in FIELDS if case[k]]
    return 'fields given: %s' % (', '.join(on) if len(on) < 6 else 'all but %s' % ', '.join(k for k in FIELDS if not case[k]) if len(on) < len(FIELDS) else 'all')


def fields(ctx, rid, rir, name, where, I, e, cell, case):
    s = e.st
    get = {}
    for k in FIELDS:
        r = [(s2, has, v) for s2, has, v in I.lookup(s, cell, C(k))]
        if len(r) != 1:
            ctx.undec(rid, name, 'field "%s" not followed' % k)
            return
        get[k] = r[0]
    was = lambda k: item(cell, C(k))
    for k in FIELDS:
        s2, has, v = get[k]
        given = case[k]
        if k in SIMPLE:
            ok = has and (same(s2, v, was(k)) if given else v == SIMPLE[k])
        elif k == 'doc_visibility':
            ok = has and (same(s2, v, was(k)) if given else v[0] in ('attr', 'glob') and v[-1] == 'DEFAULT' or v[0] == 'attr' and v[2] == 'DEFAULT')
        elif k == 'doc_zorder':
            ok = has
            if has:
                z = was(k) if given else ('none',)
                done = 0
                for n in SAMPLES if given else (0,):
                    hold = True
                    for a, w in e.conds:
                        if a[0] in ('lt', 'le') and mentions(a, lambda t: t == z):
                            l, r_ = number(a[1], z, n), number(a[2], z, n)
                            if l is None or r_ is None:
                                hold = None
                                break
                            if (l < r_ if a[0] == 'lt' else l <= r_) != w:
                                hold = False
                                break
                    if not hold:
                        continue
                    got = number(v, z, n)
                    if got is None:
                        if not tainted(v) and not mentions(v, lambda t: t == z):
                            ok = False
                            break
                        ctx.undec(rid, name, 'order of the documentation not understood: %s' % show(v))
                        done = None
                        break
                    done += 1
                    if got != min(100, max(-100, n)):
                        ok = False
                        break
                if done is None:
                    continue
        elif k in ('alias',):
            if not has or v[0] != 'ref':
                ok = False
            else:
                ok = s.kind(v) == 'set'
                y = sym('Y')
                for s3, m in I.member(s2, y, v):
                    inn = s3.facts.get(isin(y, was(k)))
                    ok = ok and (m is inn if given else m is False)
        elif k == 'remap':
            ok = remap(I, s2, has, v, was(k), given, e, cell)
        elif k in ('values', 'outcast'):
            ok = reclass(ctx, rir, name, where, I, s2, has, v, was(k), given, e, cell, case, k)
        else:
            ok = (has and same(s2, v, was(k))) if given else not has
        if ok is None:
            ctx.undec(rid, name, 'field "%s" not understood' % k)
            continue
        ctx.need(rid, name, ok, 'the field "%s" of an attribute becomes %s (%s)' % (k, show(v) if has else 'missing', short(case)), where,
                 taint=has and tainted(hide(v, (('elem', cell[2][1]),))) and k in SIMPLE)


def remap(I, s, has, v, was, given, e, cell):
    """A dictionary of its own, with the entries given but `autoremap`, and those of autoremap."""
    if not has or v[0] != 'ref' or s.kind(v) not in ('dict', None):
        return False
    auto = [w for a, w in e.conds if a[0] == 'in' and a[1] == C('first')]
    def filled(o):
        # entry by entry, or from a dictionary made entry by entry
        if o[0] in ('upd', 'copy') and strip_at(o[1])[0] == 'ref' and strip_at(o[1]) != v:
            own = [x for x in s.ops(strip_at(o[1])) if x[0] != 'lit']
            return own[0] if len(own) == 1 and own[0][0] == 'each' else o
        return o
    ops = [filled(o) for o in s.ops(v)]
    loops = [o for o in ops if o[0] == 'each']
    n = len(ops) if not loops else [o[0] for o in ops].index('each')
    if bool(loops) != bool(auto and auto[0]) or len(loops) > 1:
        return False
    for s2, h, _ in I.lookup(s, v, C('autoremap'), n=n):
        if h and not loops:
            return False
    y = sym('Y')
    for s2, h, x in I.lookup(s.assume(mk_eq(y, C('autoremap')), False) or s, v, y, n=n):
        src = s2.facts.get(isin(y, was)) if given else False
        if src is None and given:
            return None if h and tainted(x) else False
        if src is not h or h and x != item(was, y):
            return False
    for o in loops:
        rec = o[2]
        vals = item(cell, C('values'))
        src = rec.coll
        z = ('elem', rec.lid)
        src = strip_view(src) if src is not None else None
        if src is None or src[0] != 'call' or src[1] != 'slice' or src[3] != (vals, C(1), NONE, NONE):
            return False if src is not None and src[0] == 'call' and src[1] == 'slice' and src[3][0] == vals else None
        if any(tuple(o[3](ed)) != (('set', z, item(vals, C(0))),) for ed in rec.edges if ed.kind == 'next'):
            return False
    return True


def reclass(ctx, rid, name, where, I, s, has, v, was, given, e, cell, case, k):
    """A set of its own; what is not of the type of the attribute is replaced by its conversion."""
    if not has or v[0] != 'ref' or s.kind(v) != 'set':
        return False
    T = item(cell, C('type')) if case['type'] else ('builtin', 'str')
    G = item(cell, C('args')) if case['args'] else None
    ops = s.ops(v)
    if not given:
        return all(o[0] in ('lit', 'each') and not (o[0] == 'each' and o[2].coll is not None and o[2].coll[0] not in ('ref', 'at')) or o[0] in ('copy', 'upd', 'ext') and empty(I, s, o[1]) for o in ops)
    copied = False
    loops = []
    for o in ops:
        if o[0] == 'lit':
            continue
        if o[0] in ('copy', 'ext', 'upd') and strip_view(o[1]) == was:
            copied = True
        elif o[0] == 'each':
            loops.append(o)
        else:
            return None
    if len(loops) != 1:
        return False if not loops else None
    rec = loops[0][2]
    if rec.coll is None or strip_view(rec.coll) != was and not (strip_view(rec.coll)[0] in ('ref', 'at')):
        return None
    x = ('elem', rec.lid)
    for ed in rec.edges:
        if ed.kind == 'exc':
            continue
        if ed.kind != 'next':
            ctx.need(rid, name, False, 'stops converting the "%s" when [%s]' % (k, econds(ed)), where)
            continue
        good = [w for a, w in ed.conds if a[0] == 'isinstance' and a[1] == x]
        if not good or any(not typed(a[2], T) for a, w in ed.conds if a[0] == 'isinstance' and a[1] == x):
            ctx.need(rid, name, False, 'converts the "%s" when [%s]' % (k, econds(ed)), where, taint=any(tainted(hide(a, (x,))) for a, _ in ed.conds))
            continue
        keep, conv, other = copied, 0, 0
        for d in loops[0][3](ed):
            if d[0] == 'rem' and d[1] == x:
                keep = False
            elif d[0] == 'add' and d[1] == x:
                keep = True
            elif d[0] == 'add' and converted(s, d[1], T, x, G):
                conv += 1
            else:
                other += 1
        ctx.need(rid, name, not other and (keep and not conv if good[0] else not keep and conv),
                 'in the "%s", a value %sof the type of the attribute: %s (%s)' % (k, '' if good[0] else 'not ', [tuple(show(y) if isinstance(y, tuple) else y for y in d) for d in loops[0][3](ed)], short(case)), where,
                 taint=any(tainted(hide(y, (x,))) for d in loops[0][3](ed) for y in d if isinstance(y, tuple)))
    return True


def typed(t, T):
    return t == T or t[-1] == T[-1] if T[0] == 'builtin' else t == T or mentions(t, lambda y: y == T)


def converted(s, t, T, x, G):
    """t is T(x, **G)."""
    if t[0] != 'call':
        return False
    if T[0] == 'builtin':
        if t[1] not in (T[1], T[-1]) and not (t[1] == 'apply' and t[2] == T):
            return False
    elif not (t[1] == 'apply' and t[2] == T):
        return False
    if not t[3] or t[3][0] != x or len(t[3]) > 1:
        return False
    kw = dict(t[4])
    if G is not None:
        return set(kw) == {'**'} and (kw['**'] == G or kw['**'][0] == 'at' and kw['**'][1] == G)
    return not kw or set(kw) == {'**'}


# ---------------------------------------------------------------------------------------------- isolation

REMOVE = {'pop', 'popl', 'rem', 'del', 'clr', 'inv'}


def check_writes(ctx, data):
    rid = 'C10.writes'
    fcls = ctx.repo.cls('Footprint')
    parts = {'.' + p_ for p_ in ('attr', 'bind', 'only', 'priority', 'info', data)}
    sub = {c.name for c in ctx.repo.classes.values() if fcls in ctx.repo.mro(c)}

    resetting = private_to(ctx.repo, {'Collector.reset_package_level'})

    def inside(f, r, p):
        """The path below a footprint, or None."""
        at = None
        if r == ('param', 'self') and f.cls is not None and f.cls.name in sub:
            at = 0
        for i, x in enumerate(p):
            if x in ('._footprint', '[_footprint]', '.footprint'):
                at = i + 1
            elif x in ('.' + data,):
                at = i
        return None if at is None else p[at:]

    def go(f):
        M = modref(ctx)
        for (r, p, what), ch in sorted(M.effects(f.qual).items(), key=str):
            q = inside(f, r, p)
            if q is None:
                continue
            last = M.funcs[ch[-1]]
            if not q:
                bad = what[0] == 'attr' and what[1] == data and last.qual not in built or what[0] == 'op'
                if what[0] == 'op' and r == ('param', 'd'):
                    bad = True
            elif q[0] in parts or q[0].startswith('['):
                bad = True
                if what[0] == 'op' and what[1] == 'set' and resetting & set(ch) and (q[:1] == ('.priority',) or '[priority]' in q):
                    bad = False
            else:
                bad = what[0] == 'op' and what[1] in REMOVE
            ctx.need(rid, f.qual, not bad, 'alters a footprint: %s of %s, through %s' % (' '.join(what), showpath(r, p), ' > '.join(ch)), last.where())
        if f.qual == 'Footprint.__init__':
            for (r, p, what), ch in M.effects(f.qual).items():
                if r[0] == 'param' and r[1].startswith('*'):
                    ctx.need(rid, f.qual, False, 'alters what it is given: %s of %s' % (' '.join(what), showpath(r, p)), f.where())
        ctx.ok(rid, f.qual)
    callers = {}
    names = {}
    for f in ctx.repo.all_funcs():
        names.setdefault(f.name, []).append(f.qual)
    for f in ctx.repo.all_funcs():
        for n in ast.walk(f.node):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            for q in names.get(nm, ()):
                callers.setdefault(q, set()).add(f.qual)
    built = {'Footprint.__init__'}
    while True:
        # helpers of the constructor
        new = {q for q, cs in callers.items() if cs <= built and q.split('.')[-1].startswith('_')} - built
        if not new:
            break
        built |= new
    for f in ctx.repo.all_funcs():
        if f.qual not in built - {'Footprint.__init__'} and f.qual in modref(ctx).funcs:
            ctx.guard(rid, f.qual, lambda: go(f))


def check_copies(ctx, data):
    rid = 'C10.copies'
    D_ = attr(SELF, data)

    def fresh(meth, deep=False, kinds=('ref',)):
        f = ctx.repo.func('Footprint.' + meth)

        def go():
            I = ctx.interp(types=S)
            names = [a.arg for a in f.node.args.args]
            _, rows = execute(ctx, I, f.qual, dict({n: sym(n) for n in names}, **{names[0]: SELF}))
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    continue
                if deep:
                    ok = whole_copy(I, s, o, D_)
                    txt = 'a deep copy of the definition'
                else:
                    ok = o[0] == 'ref' or o[0] == 'tup' or o[0] == 'call' and o[1] in ('tuple', 'set', 'list', 'sorted', 'frozenset', 'copy.deepcopy', 'copy.copy', 'dict')
                    txt = 'a container of its own'
                ctx.need(rid, f.qual, ok, 'gives %s, not %s' % (show(o), txt), f.where(), taint=o[0] in ('unk', 'phi'))
                for b in s.heap:
                    if b[0] != 'ref' and len(s.ops(b)) > 0:
                        ctx.need(rid, f.qual, b[0] == 'attr' and b[1] == SELF and b[2] != data, 'changes %s' % show(b), f.where(), taint=tainted(b))
        ctx.guard(rid, f.qual, go)
    fresh('as_copy', deep=True)
    for m in ('as_dict', 'allkeys', 'as_opts', 'mandatory', 'track', 'get_values', 'get_outcast'):
        fresh(m)
    g = ctx.repo.func('FootprintBase.footprint_values')

    def listed():
        I = ctx.interp(types={sym('cls'): ('type', 'FootprintBase')})
        _, rows = execute(ctx, I, g.qual, {x.arg: sym(x.arg) for x in g.node.args.args})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            ok = o[0] == 'ref' or o[0] == 'tup' or o[0] == 'call' and (o[1] in ('tuple', 'set', 'list', 'sorted', 'frozenset', 'copy.deepcopy', 'copy.copy', 'dict') or o[1].endswith('get_values'))
            ctx.need(rid, g.qual, ok, 'gives %s, not a container of its own' % show(o), g.where(), taint=o[0] in ('unk', 'phi'))
    ctx.guard(rid, g.qual, listed)


def whole_copy(I, s, o, d):
    if o[0] == 'call' and o[1] == 'copy.deepcopy' and len(o[3]) == 1:
        a = o[3][0]
        return of_footprint(s, a, d)
    return False


def check_list2dict(ctx):
    rid = 'C10.list2dict'
    f = ctx.repo.func('util:list2dict')
    pa, pk = [a.arg for a in f.node.args.args][:2]
    A, KL = sym(pa), sym(pk)

    def go():
        I = ctx.interp()
        k1 = C('attr')
        _, rows = execute(ctx, I, f.qual, {pa: A, pk: ('tup', (k1,))})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            ctx.need(rid, f.qual, not s.ops(A), 'changes its argument: %s' % showchanges([(A, x) for x in s.ops(A)]), f.where())
            if o[0] != 'ref':
                ctx.need(rid, f.qual, False, 'gives %s, not a dictionary of its own' % show(o), f.where(), taint=o[0] in ('unk', 'phi'))
                continue
            # an entry not listed
            y = sym('Y')
            s1 = s.assume(mk_eq(y, k1), False)
            for s2, has, v in I.lookup(s1, o, y):
                inn = s2.facts.get(isin(y, A))
                ctx.need(rid, f.qual, has is inn and (not has or v == item(A, y)), 'an entry which is not to be reshaped becomes %s' % (show(v) if has else 'absent'), f.where(), taint=has and tainted(v))
            for s2, has, v in I.lookup(s, o, k1):
                inn = s2.facts.get(isin(k1, A))
                if not inn:
                    ctx.need(rid, f.qual, not has, 'makes up an entry', f.where())
                    continue
                isl = [w for a, w in s2.facts.items() if a[0] == 'isinstance' and a[1] == item(A, k1)]
                seq = any(isl)
                if not isl:
                    ctx.undec(rid, f.qual, 'no test of the kind of the entry')
                elif not seq:
                    ctx.need(rid, f.qual, has and v == item(A, k1), 'an entry which is not a sequence becomes %s' % (show(v) if has else 'absent'), f.where())
                    for ty in ('list', 'tuple'):
                        s3 = s2.assume(isinst(item(A, k1), ('builtin', ty)), True)
                        ctx.need(rid, f.qual, s3 is None, 'a %s is not reshaped' % ty, f.where())
                elif not has or v[0] != 'ref':
                    ctx.need(rid, f.qual, False, 'a sequence becomes %s' % (show(v) if has else 'absent'), f.where(), taint=has and tainted(v))
                else:
                    ops = [x for x in s2.ops(v) if x[0] != 'lit']
                    if len(ops) != 1 or ops[0][0] != 'each':
                        ctx.need(rid, f.qual, False, 'a sequence becomes %s' % [x[0] for x in ops], f.where(), taint=bool(ops))
                        continue
                    rec = ops[0][2]
                    x = ('elem', rec.lid)
                    good = rec.coll is not None and strip_view(rec.coll) == item(A, k1) and rec.order is None
                    ctx.need(rid, f.qual, good, 'the dictionaries are merged from %s' % (show(rec.coll) if rec.coll is not None else '?'), f.where(), taint=rec.coll is None or tainted(rec.coll))
                    for ed in rec.edges:
                        if ed.kind == 'exc':
                            continue
                        d = list(ops[0][3](ed))
                        if any(z[0] == 'each' for z in d):
                            z = d[0]
                            ok = len(d) == 1 and strip_view(z[2].coll if z[2].coll[0] != 'view' else z[2].coll[2]) == x
                            for e2 in z[2].edges:
                                if e2.kind != 'exc':
                                    dd = z[3](e2)
                                    ok = ok and e2.kind == 'next' and len(dd) == 1 and dd[0][0] == 'set' and dd[0][1] == ('elem', z[2].lid) and dd[0][2] in (item(x, dd[0][1]), ('itemv', x, dd[0][1]))
                            d_ok = ok
                        else:
                            d_ok = len(d) == 1 and d[0] == ('upd', x)
                        ctx.need(rid, f.qual, ed.kind == 'next' and d_ok, 'one of the dictionaries of the sequence adds %s' % d, f.where(), taint=any(tainted(hide(t, (x,))) for z in d for t in z[1:] if isinstance(t, tuple)))
    ctx.guard(rid, f.qual, go)


def check_decorators(ctx):
    rid = 'C10.copies'
    f = ctx.repo.func('DecorativeFootprint.__init__')

    def go():
        M = modref(ctx)
        for (r, p, what), ch in M.effects(f.qual).items():
            if r[0] == 'param' and (r[1].startswith('*') or r[1] in ('args', 'kw')):
                ctx.need(rid, f.qual, False, 'alters what it is given: %s of %s' % (' '.join(what), showpath(r, p)), f.where())
        ctx.ok(rid, f.qual)
    ctx.guard(rid, f.qual, go)


def run(ctx):
    ctx.rule('C10.order', 'the footprint of a class is made from those in the dictionaries of its bases, the right-most first, then its own (each one when a list), which become its footprint')
    ctx.rule('C10.merge', 'each dictionary or footprint given is merged in turn, by bronx dictmerge, into a new dictionary, and the named arguments last')
    ctx.rule('C10.start', 'the new dictionary starts with the documented fields and no other: attr, bind, info, only, priority; only attr without defaults')
    ctx.rule('C10.fields', 'each attribute gets the documented value of the fields it lacks and keeps the others; aliases, remapping, values and outcasts are containers of its own')
    ctx.rule('C10.reclass', 'accepted and refused values are converted to the type of the attribute, unless they are of this type already')
    ctx.rule('C10.writes', 'no function of the package writes in a footprint, but its constructor and the priority interface')
    ctx.rule('C10.copies', 'what footprints hand out as copies is made of new containers')
    ctx.rule('C10.list2dict', 'list2dict gives a new dictionary, the listed sequences being merged into new dictionaries, and leaves its argument alone')
    data = data_field(ctx)
    check_order(ctx)
    check_merge(ctx, data)
    check_fields(ctx, data)
    check_writes(ctx, data)
    check_copies(ctx, data)
    check_decorators(ctx)
    check_list2dict(ctx)
