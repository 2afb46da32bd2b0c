"""Generated documentation covers every attribute, in the declared order.

The list of lines a formatter builds is followed as a symbolic sequence: which texts are appended, under which conditions and in
which loop. For a generic attribute the texts must show its name, access mode, type and information, its default exactly when it is
optional, its values and outcast when there are some; the sort keys of the loop are composed (stable sorts) and compared with the
declared order.
"""
from .common import *

TECHNIQUE = 'static analysis: symbolic content of the lines built by the formatter (loop summaries, per-attribute decision table) and composition of the sort keys'
MINIMA = {'C27.attributes': 20, 'C27.order': 2, 'C27.alias': 4, 'C27.only': 4, 'C27.entry': 4, 'C27.visibility': 4}
FPOBJ = sym('fp')
FPD = attr(FPOBJ, '_fp')
AT = item(FPD, 'attr')
ONLY = item(FPD, 'only')


class Emit:
    """One text of the output: chain = [(loop, edge)] from the outermost."""
    def __init__(self, text, chain, st):
        self.text, self.chain, self.st = text, chain, st


def parts(t):
    """Pieces a text is made of."""
    return tuple(y for x in t[1] for y in parts(x)) if t[0] == 'strcat' else (t,)


def shows(text, pred):
    """A piece of the text (not a condition or a formatting option) mentions what is asked for."""
    return any(mentions(p, pred) for p in parts(text) if p[0] != 'c')


class Lines:
    def __init__(self, I):
        self.I = I
        self.unknown = []
        self.mixed = None

    def of(self, s, t, chain=(), n=None):
        """Texts held by a sequence."""
        if t[0] == 'at':
            n, t = t[2], t[1]
        if t[0] == 'tup':
            return [Emit(x, chain, s) for x in t[1]]
        if t[0] == 'bin' and t[1] == '+':
            return self.of(s, t[2], chain) + self.of(s, t[3], chain)
        if t[0] == 'call' and t[1] in ('list', 'tuple', 'iter') and t[3]:
            return self.of(s, t[3][0], chain)
        if t[0] != 'ref':
            self.unknown.append(t)
            return []
        out = []
        ops = s.ops(t)
        for op in ops if n is None else ops[:n]:
            out.extend(self.op(s, op, chain, t))
        return out

    def op(self, s, op, chain, t):
        out = []
        if op[0] in ('lit',):
            pass
        elif op[0] in ('app', 'add'):
            out.append(Emit(op[1], chain, s))
        elif op[0] == 'ext':
            out.extend(self.of(s, op[1], chain))
        elif op[0] == 'copy':
            out.extend(self.of(s, op[1], chain, op[2]))
        elif op[0] == 'each':
            rec = op[2]
            src = rec.coll
            base = src[1] if src is not None and src[0] == 'at' else src
            for e in rec.edges:
                st = e.st
                d = op[3](e)
                texts = []
                for o in d:
                    texts.extend(self.op(st, o, chain + ((rec, e),), t))
                # lines made from the lines of another list
                if base is not None and base[0] == 'ref' and s.kind(base) == 'list' and base != t:
                    inner = self.of(s, src, chain)
                    if len(rec.edges) != 1 or e.conds:
                        self.unknown.append(src)
                    if rec.order is not None:
                        self.mixed = rec.order
                    for y in inner:
                        for x in texts:
                            out.append(Emit(subst_deep(x.text, lambda z: y.text if z == ('elem', rec.lid) else None), y.chain + x.chain[len(chain) + 1:], y.st))
                else:
                    out.extend(texts)
        else:
            self.unknown.append(op)
        return out


def text_of(L, s, t):
    """Texts of the document."""
    while t[0] == 'call' and t[1] in ('.join', 'str', '.rstrip', '.strip'):
        if t[1] == '.join':
            x = t[3][0]
            return L.of(s, x)
        t = t[3][0] if t[1] == 'str' else t[2]
    if t[0] == 'strcat':
        out = []
        for p in t[1]:
            out.extend([Emit(p, (), s)] if p[0] == 'c' else text_of(L, s, p))
        return out
    if t[0] == 'c':
        return [Emit(t, (), s)]
    L.unknown.append(t)
    return []


def sortkeys(o, names, descs):
    """Keys of composed stable sorts, most significant first: [(key, ascending)]; None when unknown."""
    o = o[1] if o[0] == 'at' else o
    if o[0] == 'call' and o[1] == 'sorted' and len(o[3]) == 1:
        inner = sortkeys(o[3][0], names, descs)
        kw = dict(o[4])
        rev = kw.get('reverse', FALSE)
        if inner is None or rev not in (TRUE, FALSE):
            return None
        k = kw.get('key')
        if k is None or k == NONE:
            keys = ['name']
        elif k[0] == 'keyfn':
            if k[1][0] == 'unk' and len(k[1]) > 2:
                keys = keycases(k[1][2][1], names, descs)
                if keys is None:
                    return None
            else:
                ts = k[1][1] if k[1][0] == 'tup' else (k[1],)
                keys = [keyname(x, names, descs) for x in ts]
        else:
            return None
        out = []
        for x in keys:
            if x is None:
                return None
            up = rev == FALSE
            if x.startswith('-'):
                x, up = x[1:], not up
            out.append((x, up))
        return out + inner
    if o[0] == 'call' and o[1] == 'reversed' and len(o[3]) == 1:
        inner = sortkeys(o[3][0], names, descs)
        return [(k, not up) for k, up in inner] if inner is not None else None
    if o[0] == 'call' and o[1] in ('list', 'tuple', 'iter') and len(o[3]) == 1:
        return sortkeys(o[3][0], names, descs)
    if strip_view(o[2] if o[0] == 'view' and o[1] == 'items' else o) == AT:
        return []
    return None


def keycases(cases, names, descs):
    """A key that is computed in several ways: what it is, whatever the way."""
    cases = [(cs, v[1] if v[0] == 'tup' else (v,)) for cs, v in cases]
    if len({len(v) for _, v in cases}) != 1:
        return None
    out = []
    for i in range(len(cases[0][1])):
        got = set()
        for cs, v in cases:
            zero = [a[1] for a, w in cs if a[0] == 'truth' and not w] + [a[1] if a[2] == C(0) else a[2] for a, w in cs if a[0] == 'eq' and w and C(0) in a[1:]]
            if v[i] == C(0) and any(keyname(z, names, descs) in ('zorder', '-zorder') for z in zero):
                continue                # the value itself
            got.add(keyname(v[i], names, descs))
        if None in got:
            return None
        out.append(got.pop() if len(got) == 1 else 'one of ' + ', '.join(sorted(got)))
    return out


def keyname(x, names, descs):
    neg = ''
    while x[0] == 'bin' and x[1] == 'neg' or x[0] == 'bin' and x[1] in ('*',) and C(-1) in (x[2], x[3]):
        x = (x[3] if x[2] == C(-1) else x[2]) if x[1] == '*' else x[2]
        neg = '' if neg else '-'
    if x == ('bin', '+', C(0), x) or False:
        pass
    if x in names:
        return neg + 'name'
    for d in descs:
        if x in (attr(item(d, 'doc_visibility'), 'rank'), ('call', 'PriorityLevel.rank', item(d, 'doc_visibility'), (), (), 0)):
            return neg + 'rank'
        if x == item(d, 'doc_zorder'):
            return neg + 'zorder'
    if mentions(x, lambda t: t[0] in ('unk', 'phi')):
        return None
    return neg + show(x)


def effective(keys):
    """What is left of a chain of keys: later occurrences, and what follows the name, change nothing."""
    out = []
    for k, up in keys:
        if k in [x for x, _ in out]:
            continue
        out.append((k, up))
        if k == 'name':
            break
    return out


WANT_ORDER = [('rank', True), ('zorder', False), ('name', True)]


def check_order(ctx, f, rec):
    rid = 'C27.order'
    A = ('arg', 0)
    o = rec.order
    if o is None:
        ctx.need(rid, f.qual, False, 'the attributes are described in the order of the definition: %s' % show(rec.coll), f.where(), taint=strip_view(rec.coll) != AT)
        return
    # over items() the argument is the pair, over the names it is the name itself
    pair = not over_names(o)
    names = (item(A, C(0)),) if pair else (A,)
    descs = (item(A, C(1)), item(AT, item(A, C(0)))) if pair else (item(AT, A),)
    keys = sortkeys(o, names, descs)
    if keys is None:
        ctx.undec(rid, f.qual, 'order %s' % show(o))
        return
    got = effective(keys)
    ctx.need(rid, f.qual, got == WANT_ORDER, 'attributes are ordered by %s' % (', then '.join('%s%s' % ('' if up else 'decreasing ', k) for k, up in got) or 'nothing'), f.where())


def over_names(o):
    while o[0] == 'call' and o[3]:
        if any(mentions(k, lambda t: t[0] == 'item' and t[1] == ('arg', 0)) for _, k in o[4]):
            return False
        o = o[3][0]
    o = o[1] if o[0] == 'at' else o
    return not (o[0] == 'view' and o[1] == 'items')


def formatter(ctx, qual):
    f = ctx.repo.func(qual)
    I = ctx.interp(types={FPOBJ: ('inst', 'Footprint')}, opaque={'Footprint.level'}, max_states=20000)
    st = State().assume(isin(C('attr'), FPD), True, False)
    ps = [a.arg for a in f.node.args.args]
    _, rows = execute(ctx, I, qual, {ps[0]: FPOBJ, ps[1]: sym('abstract')}, st)
    return f, I, rows


def check_attributes(ctx, f, I, s, ems):
    """The attributes of one outcome."""
    rid = 'C27.attributes'
    loops = {}
    for e in ems:
        for rec, edge in e.chain[:1]:
            if strip_view(rec.coll) == AT:
                loops[rec.lid] = rec
    if not loops:
        ctx.need(rid, f.qual, s.facts.get(truth(AT)) is False, 'no attribute is described when [%s]' % conds(s), f.where())
        return []
    best = None
    for rec in loops.values():
        bad = []
        checked = 0
        X = ('elem', rec.lid)
        d = item(AT, X)
        s0 = s.copy()
        s0.loopcol[rec.lid] = rec.coll
        s0 = s0.assume(isin(X, AT), True, False) or s0

        def joint(q):
            # the entry of the attribute as the definition leaves it: every field is there
            got = [e for e in rec.edges if all(q(a) == v for a, v in e.conds)]
            return (tuple(rec.edges.index(e) for e in got), q(truth(item(d, 'optional'))), q(truth(item(d, 'values'))), q(truth(item(d, 'outcast'))), q(isin(C('info'), d)), q(isin(C('type'), d)))
        for s2, (idx, opt, vals, outc, informed, typed) in completions(s0, joint, 4000):
            checked += 1
            if not idx:
                if any(e.kind == 'exc' for e in rec.edges):
                    continue
                bad.append(('an attribute is skipped when [%s]' % since(s2, s0), False))
                continue
            for i in idx:
                edge = rec.edges[i]
                texts = [e.text for e in ems if e.chain and e.chain[0] == (rec, edge) and in_force(e)]
                taint = any(tainted(x) for x in texts)
                if edge.kind in ('brk', 'ret'):
                    bad.append(('the attributes that follow one are left out when [%s]' % since(s2, s0), False))
                head = [t for t in texts if shows(t, lambda x: x == X) and shows(t, lambda x: x == item(d, 'access'))]
                for what, ok in (('name and access mode', bool(head)),
                                 ('information', not informed or any(shows(t, lambda x: x[0] in ('getd', 'item') and x[1] == d and x[2] == C('info')) for t in head)),
                                 ('type', not typed or any(shows(t, lambda x: x[0] in ('getd', 'item') and x[1] == d and x[2] == C('type')) for t in head)),
                                 ('default', not opt or any(shows(t, lambda x: x == item(d, 'default')) for t in texts)),
                                 ('values', not vals or any(shows(t, lambda x: x == item(d, 'values')) for t in texts)),
                                 ('outcast', not outc or any(shows(t, lambda x: x == item(d, 'outcast')) for t in texts))):
                    if not ok:
                        bad.append(('the %s of an attribute is not shown when [%s]' % (what, since(s2, s0)), taint))
                if not opt and any(shows(t, lambda x: x == item(d, 'default')) for t in texts):
                    bad.append(('a default is shown for an attribute that is not optional', taint))
        if best is None or len(bad) < len(best[0]):
            best = (bad, checked, rec)
    bad, checked, rec = best
    if not bad:
        for _ in range(checked):
            ctx.ok(rid, f.qual)
    for msg, taint in bad[:3]:
        ctx.need(rid, f.qual, False, msg, f.where(), taint=taint)
    check_order(ctx, f, rec)
    return [rec]


def in_force(e):
    """The text comes with each iteration: no inner loop but over what is shown."""
    return True


def since(s, s0):
    return '; '.join(showfact(a, v)[:100] for a, v in s.conds()[len(s0.conds()):])


def conds(s):
    return '; '.join(showfact(a, v)[:120] for a, v in s.conds())


def check_alias(ctx, f, I, s, ems):
    rid = 'C27.alias'
    found = False
    for e in ems:
        if not e.chain:
            continue
        rec, edge = e.chain[-1]
        X = ('elem', rec.lid)
        if len(e.chain) >= 2 and strip_view(e.chain[0][0].coll) == AT and strip_view(rec.coll) == item(item(AT, ('elem', e.chain[0][0].lid)), 'alias'):
            # straight from the attributes
            Y = ('elem', e.chain[0][0].lid)
            if shows(e.text, lambda x: x == X) and shows(e.text, lambda x: x == Y):
                left = [(a, v) for a, v in edge.conds] + [(a, v) for a, v in e.chain[0][1].conds if not (v is True and a == truth(item(item(AT, Y), 'alias')))]
                found = found or not edge.conds or not left
            continue
        c = rec.coll
        base = c[1] if c[0] == 'at' else c
        if base[0] == 'ref' and s.kind(base) == 'dict' and shows(e.text, lambda x: x == X):
            val = lambda x: x[0] in ('item', 'itemv') and x[2] == X
            if not shows(e.text, val):
                continue
            if any('alias of' in str(cval(p)) for p in parts(e.text) if is_c(p)):
                at = [[i for i, p in enumerate(parts(e.text)) if p[0] != 'c' and mentions(p, w)] for w in (lambda x: x == X and True, val)]
                at = [[i for i in at[0] if i not in at[1]], at[1]]
                if at[0] and at[1]:
                    ctx.need(rid, f.qual, at[0][0] < at[1][0], 'the alias and its attribute are exchanged', f.where())
            if len(rec.edges) != 1 or edge.conds:
                ctx.need(rid, f.qual, False, 'some aliases are left out when [%s]' % '; '.join(showfact(a, not v) for a, v in edge.conds), f.where(), taint=any(tainted(a) for a, _ in edge.conds))
                continue
            found = alias_table(ctx, rid, f, I, s, base) or found
    return found


def alias_table(ctx, rid, f, I, s, t):
    """The table holds every alias of every attribute, with the attribute."""
    for s2, has in I.member(s, K, t):
        def want(q):
            return q(exists(AT, lambda b: [[(isin(K, item(item(AT, b), 'alias')), True)]]))
        for s3, w in completions(s2, want):
            ctx.need(rid, f.qual, has == w, 'an alias is %s when [%s]' % ('listed though no attribute has it' if has else 'not listed', since(s3, s)), f.where(), taint=any(tainted(a) for a, _ in s3.conds()))
    ok = values_set(s, t)
    ctx.need(rid, f.qual, ok, 'an alias is listed with something else than its attribute', f.where(), taint=ok is None)
    return True


def values_set(s, t):
    """Every entry the loops set is (alias of the attribute, attribute)."""
    out = []
    def walk(ops, outer):
        for op in ops:
            if op[0] == 'each':
                for e in op[2].edges:
                    walk(op[3](e), outer + [op[2]])
            elif op[0] == 'set':
                a = [r for r in outer if strip_view(r.coll) == AT]
                out.append(bool(a) and op[2] == ('elem', a[0].lid) and len(outer) >= 2 and strip_view(outer[-1].coll) == item(item(AT, ('elem', a[0].lid)), 'alias') and op[1] == ('elem', outer[-1].lid))
            elif op[0] not in ('lit',):
                out.append(None)
    walk(s.ops(t), [])
    return None if None in out or not out else all(out)


def check_only(ctx, f, I, s, ems):
    rid = 'C27.only'
    for e in ems:
        if not e.chain:
            continue
        rec, edge = e.chain[-1]
        if strip_view(rec.coll) != ONLY or not shows(e.text, lambda x: x == ('elem', rec.lid)):
            continue
        if shows(e.text, lambda x: x == item(ONLY, ('elem', rec.lid))):
            if len(rec.edges) == 1 and not edge.conds and edge.kind == 'next':
                return True
            ctx.need(rid, f.qual, False, 'some rules are left out', f.where(), taint=any(tainted(a) for a, _ in edge.conds))
            return True
    return False


def check_sphinx(ctx, qual):
    def go():
        f, I, rows = formatter(ctx, qual)
        n = 0
        outs = outcomes(rows)
        for s, o in outs:
            if o[0] == 'exc':
                ctx.need('C27.attributes', f.qual, o[1].call is not None, 'raises %s when [%s]' % (o[1], conds(s)), f.where(), taint=o[1].name is None)
                continue
            n += 1
            L = Lines(I)
            ems = text_of(L, s, o)
            if L.unknown:
                ctx.undec('C27.attributes', f.qual, 'lines made from %s' % show(L.unknown[0])[:200])
                continue
            ctx.need('C27.order', f.qual, L.mixed is None, 'the lines are put in another order: %s' % (show(L.mixed) if L.mixed else ''), f.where())
            check_attributes(ctx, f, I, s, ems)
            alias = check_alias(ctx, f, I, s, ems)
            if not alias:
                # nothing is listed: there must be nothing to list
                ok = no_alias(s, outs)
                ctx.need('C27.alias', f.qual, ok, 'the aliases are not listed when [%s]' % conds(s), f.where(), taint=ok is None)
            for s2, (has, some) in completions(s, lambda q: (q(isin(C('only'), FPD)), q(truth(ONLY)))):
                if has and some:
                    ctx.need('C27.only', f.qual, check_only(ctx, f, I, s2, ems), 'the rules of the only clause are not listed', f.where())
                else:
                    ctx.ok('C27.only', f.qual)
        ctx.need('C27.attributes', f.qual, n > 0, 'never gives a documentation', f.where())
    ctx.guard('C27.attributes', qual, go)


def no_alias(s, outs):
    """The table of the aliases is known to be empty."""
    for a, v in s.facts.items():
        if a[0] == 'truth' and v is False:
            t = a[1][1] if a[1][0] == 'at' else a[1]
            if t[0] == 'ref' and s.kind(t) == 'dict' and values_set(s, t):
                return True
    return False


def tables(ctx, module):
    """State where the constant tables of a module are known."""
    import ast
    st = State()
    m = ctx.repo.module(module)
    for name, v in m.globals.items():
        if not isinstance(v, ast.Dict) or not all(isinstance(k, ast.Constant) for k in v.keys):
            continue
        rows = []
        for k, x in zip(v.keys, v.values):
            r = ctx.repo.resolve_global(m, x.id) if isinstance(x, ast.Name) else None
            if r is None or r[0] != 'func':
                break
            rows.append(('set', C(k.value), ('func', r[1].qual)))
        else:
            g = ('glob', m.name, name)
            st.heap[g] = ('dict', tuple([('lit',)] + rows))
    return st


def check_entry(ctx):
    """Which formatter is used."""
    rid = 'C27.entry'
    f = ctx.repo.func('doc:format_docstring')
    ps = [a.arg for a in f.node.args.args]
    basic, sphinx = ctx.repo.func('doc:_formating_basic'), ctx.repo.func('doc:_formating_sphinx_v1')

    def go():
        for style, want in ((1, basic), (2, sphinx), (7, basic)):
            I = ctx.interp(opaque={basic.qual, sphinx.qual}, types={FPOBJ: ('inst', 'Footprint')})
            _, rows = execute(ctx, I, f.qual, {ps[0]: FPOBJ, ps[1]: C(style), ps[2]: sym('abstract')}, tables(ctx, 'doc'))
            for s, o in outcomes(rows):
                good = o[0] == 'call' and o[1] == want.qual
                a = [x.arg for x in want.node.args.args]
                kw = dict(zip(a, o[3])) if good else {}
                kw.update(dict(o[4]) if good else {})
                good = good and kw.get(a[0]) == FPOBJ and kw.get(a[1], FALSE) == sym('abstract')
                ctx.need(rid, f.qual, good, 'style %d gives %s' % (style, o[1] if o[0] == 'exc' else show(o)), f.where(), taint=o[0] != 'exc' and (tainted(o) or o[0] == 'call' and o[1] == 'apply'))
    ctx.guard(rid, f.qual, go)

    def go():
        I = ctx.interp(types={FPOBJ: ('inst', 'Footprint')})
        p = [a.arg for a in basic.node.args.args]
        _, rows = execute(ctx, I, basic.qual, {p[0]: FPOBJ, p[1]: sym('abstract')})
        for s, o in outcomes(rows):
            ok = o[0] != 'exc' and any(mentions(x, lambda t: t[0] == 'call' and any(strip_copy(s, y) == FPD for y in t[3])) for x in parts(o))
            ctx.need(rid, basic.qual, ok, 'the raw documentation %s' % (o[1] if o[0] == 'exc' else 'is %s' % show(o)), basic.where(), taint=o[0] != 'exc' and tainted(o))
    ctx.guard(rid, basic.qual, go)


def strip_copy(s, t):
    t = s.at(t) if t[0] == 'ref' else t
    return t[1] if t[0] == 'at' and t[1] == FPD else t


def check_visibility(ctx):
    from .c19 import several
    several(ctx, 'C27.visibility', 'doc', 'visibility')
    rid = 'C27.visibility'
    m = ctx.repo.module('doc')
    v = m.globals.get('visibility')
    import ast
    ok = isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Tuple, ast.List)) and [getattr(x, 'value', None) for x in v.args[0].elts] == ['default', 'advanced', 'guru']
    ctx.need(rid, 'doc.visibility', bool(ok), 'the visibility levels are %s' % (ast.unparse(v) if v is not None else None), m.rel, taint=not ok and not (isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Tuple, ast.List))))


def run(ctx):
    ctx.rule('C27.attributes', 'every attribute is described, with its name, access mode, type and information, its default exactly when it is optional, its values and outcast when it has some')
    ctx.rule('C27.order', 'attributes come by rank of visibility, then by decreasing z-order, then by name')
    ctx.rule('C27.alias', 'every alias of every attribute is listed as an alias of that attribute')
    ctx.rule('C27.only', 'every rule of the only clause is listed')
    ctx.rule('C27.entry', 'the formatter of the style asked for is used, the raw one when the style is unknown; the raw one dumps the whole footprint')
    ctx.rule('C27.visibility', 'visibility levels: default, advanced, guru, extended before or after a level in the given order')
    check_sphinx(ctx, 'doc:_formating_sphinx_v1')
    check_entry(ctx)
    check_visibility(ctx)
