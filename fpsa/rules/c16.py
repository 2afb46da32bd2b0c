"""Descriptions are left alone by selection, but for what a pick-up is meant to do."""
from .purity import *

MINIMA = {'C16.pure': 9, 'C16.entry': 4, 'C16.removed': 8, 'C16.single': 3}
TECHNIQUE = 'static analysis: interprocedural effect (mod-ref) analysis of access paths, and decision tables of the final content of the description'
TAG = attr(SELF, 'tag')
D = sym('D')          # what the description contains
OBJ = item(D, TAG)
OPTIONS = [C('_emptywarning'), C('_report'), C('_report_style')]
# what is given by the user and must be left as it is
GIVEN = {'Footprint.resolve': 'desc', 'Footprint.checkonly': 'rd', 'Footprint.track': 'desc', 'FootprintBase.footprint_couldbe': 'rd', 'FootprintBase.footprint_compatible': 'rd',
         'Collector.find_any': 'desc', 'Collector.find_all': 'desc', 'Collector.find_best': 'desc', 'Collector.load': '**desc', 'Collector.default': '**kw',
         'Collector.almost_clone': 'original'}


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + ['**' + a.kwarg.arg if a.kwarg else None]


def check_pure(ctx):
    rid = 'C16.pure'
    for q, p in GIVEN.items():
        f = ctx.repo.func(q)
        ps = params(f)
        p = ps[-1] if p.startswith('**') else ps[0]
        forbid(ctx, rid, q, lambda r, path, what: r == ('param', p) and not memo_of_object(path, what), 'modifies what it is given')
    f = ctx.repo.func('Collector.pickup')
    p = params(f)[0]
    forbid(ctx, rid, f.qual, lambda r, path, what: r == ('param', p) and path and not memo_of_object(path, what), 'modifies a value of the description')


def memo_of_object(path, what):
    """Private state of an object of the description (its own memoised views), not visible to the user."""
    return what[0] == 'attr' and what[1].startswith('_') or any(x.startswith('._') and x != '._attributes' for x in path)


def pick(ctx):
    I = ctx.interp(types={SELF: ('inst', 'Collector'), OBJ: ('inst', 'FootprintBase')}, opaque={'Collector.find_best'}, max_states=8000)
    f = ctx.repo.func('Collector.pickup')
    names = params(f)
    I.maybe_false.add(OBJ)
    st = State().assume(STARTS(TAG), False, False)
    for c in OPTIONS:
        st = st.assume(mk_eq(c, TAG), False, False)
    d = I.alloc(st, 'dict')
    st.push(d, ('upd', D))
    args = {'self': SELF, names[0]: d}
    for n in names[1:]:
        if n and not n.startswith('**'):
            args[n] = sym(n)
    return f, I, args, st, d


def obj_of(s):
    """The object found on a path: what was under the tag, or what the search gave."""
    return [e for e in s.events() if e.kind == 'call' and e.label == 'Collector.find_best']


def cases(rows):
    """The paths, with what was under the tag settled."""
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            yield s, o
            continue
        for s2, _ in completions(s, lambda q: q(isin(TAG, D)) and q(isnone(OBJ))):
            yield s2, o


def check_pickup(ctx):
    f, I, args, st, d = pick(ctx)

    def go():
        _, rows = execute(ctx, I, f.qual, args, st)
        seen = set()
        for s, o in cases(rows):
            if o[0] == 'exc':
                ctx.need('C16.entry', f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            ctx.need('C16.entry', f.qual, o == d or o[0] == 'call' and o[1] == '.footprint_cleanup', 'gives %s instead of the description' % show(o), f.where(), taint=tainted(o))
            key = (frozenset((a, v) for a, v in s.facts.items() if relevant(a)), s.ops(d), o)
            if key in seen:
                continue
            seen.add(key)
            search = obj_of(s)
            present = s.decide(isin(TAG, D)) is True and s.decide(isnone(OBJ)) is False
            ctx.need('C16.entry', f.qual, len(search) == (0 if present else 1), 'searches %d times while an object is %s' % (len(search), 'already there' if present else 'not there'), f.where())
            if not present and len(search) != 1:
                continue
            if search:
                dargs = dict(search[0].kw)
                ctx.need('C16.entry', f.qual, dargs.get('desc') == d or dargs.get('desc', NONE)[:2] == ('at', d), 'searches with %s' % show(dargs.get('desc', NONE)), f.where())
            obj = OBJ if present else search[0].res
            found = True if present else not s.decide(isnone(obj)) if s.decide(isnone(obj)) is not None else None
            removed(ctx, f, I, s, d, obj, found)
    ctx.guard('C16.entry', f.qual, go)


def relevant(a):
    return mentions(a, lambda x: x == TAG or x == D) or a[0] in ('none', 'is')


def removed(ctx, f, I, s, d, obj, found):
    rid = 'C16.removed'
    attrs = item(attr(attr(obj, '_footprint'), '_fp'), 'attr')
    alias = exists(attrs, lambda b: [[(isin(K, item(item(attrs, b), 'alias')), True)]])
    s0 = s.assume(mk_eq(K, TAG), False, False)
    for c in OPTIONS:
        s0 = s0 and s0.assume(mk_eq(K, c), False, False)
    if s0 is None:
        return
    for s2, b, v in I.lookup(s0, d, K):
        def want(q):
            if not q(isin(K, D)):
                return False
            if q(STARTS(K)):
                return False
            if found is None:
                fnd = not q(isnone(obj))
            else:
                fnd = found
            if fnd and (q(isin(K, attrs)) or q(alias)):
                return False
            return True
        for s3, w in completions(s2, want):
            ctx.need(rid, f.qual, b == w and (not b or v == item(D, K)), 'an entry is %s with [%s]' % (('kept as %s' % show(v)) if b else 'removed', '; '.join(showfact(a, x) for a, x in s3.facts.items() if mentions(a, lambda y: y == K))), f.where(), taint=b and tainted(v) or any(mentions(a, lambda y: y[0] == 'item' and y[1] == K and y[2] == C(0)) for a in s3.facts))
    for c in OPTIONS:
        for s2, b, v in I.lookup(s, d, c):
            ctx.need(rid, f.qual, not b, 'the option %s stays in the description' % show(c), f.where())


def STARTS(k):
    return truth(('call', '.startswith', k, (C('_'),), (), 0))


def check_tag(ctx):
    """What is finally found under the tag."""
    f, I, args, st, d = pick(ctx)
    rid = 'C16.single'

    def go():
        _, rows = execute(ctx, I, f.qual, args, st)
        seen = set()
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            key = (frozenset((a, v) for a, v in s.facts.items() if relevant(a)), s.ops(d))
            if key in seen:
                continue
            seen.add(key)
            search = obj_of(s)
            for s2, b, v in I.lookup(s, d, TAG):
                if not b:
                    ctx.ok(rid, f.qual)      # taken away as an attribute of the object (see C16.removed)
                    continue
                w = search[0].res if search else OBJ
                ctx.need(rid, f.qual, v == w, 'the entry of the collector is %s, required %s' % (show(v), show(w)), f.where(), taint=tainted(v))
            none = [x for x in search if s.decide(isnone(x.res)) is True]
            if none:
                for s2, b, v in I.lookup(s, d, TAG):
                    ctx.need(rid, f.qual, b, 'nothing is put under the tag when the search fails', f.where())
    ctx.guard(rid, f.qual, go)


def run(ctx):
    ctx.rule('C16.pure', 'no path from a search writes on the description, nor on what it holds')
    ctx.rule('C16.entry', 'a pick-up gives the description back, and searches unless an object is already there')
    ctx.rule('C16.removed', 'a pick-up removes the hidden options and what the footprint of the object consumed, and nothing else')
    ctx.rule('C16.single', 'a pick-up puts what was found under the tag of the collector')
    check_pure(ctx)
    check_pickup(ctx)
    check_tag(ctx)
