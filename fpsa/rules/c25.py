"""Settings, defaults, extras and proxies reach every resolution.

Every setting is followed from the setup object to the decisions it governs: what the setter stores is what the getter gives,
the per-search cache and the resolution read the setup at the time they run (no value is captured when the module is loaded),
and the extra information handed to the replacement step is, for a generic name, what the documented priorities say.
"""
from .common import *
from .resolving import OPAQUE
from .purity import forbid

TECHNIQUE = 'static analysis: path-sensitive provenance of the settings (setter to use), content of the extra information for a generic name, effect analysis'
MINIMA = {'C25.setup': 8, 'C25.cache': 4, 'C25.fresh': 8, 'C25.modes': 20, 'C25.extras': 20, 'C25.only': 4, 'C25.proxies': 10, 'C25.early': 10, 'C25.writers': 5}
CACHE = sym('resolvecache')
S = {SELF: ('inst', 'FootprintSetup')}
FIELDS = ('defaults', 'extended', 'fatal', 'fastmode', 'callback', 'extras', 'proxies')
LOWER = 'LowerCaseDict'
V = sym('V')


def conds(s):
    return '; '.join(showfact(a, v) for a, v in s.conds())


def is_setup(t):
    """The setup in force: the default one, obtained from the module variable or from the registry."""
    if t[0] == 'glob' and t[-1] == 'setup':
        return True
    if t[0] == 'call' and t[1] in ('new FootprintSetup', 'config:get') and not t[3]:
        return all(k == 'tag' and v in (C('default'), NONE) for k, v in t[4])
    return False


def setting(t, name):
    return t[0] == 'attr' and t[2].lstrip('_') == name and is_setup(t[1])


def public(ctx, cls, name):
    p = ctx.repo.cls(cls).props.get(name)
    return p


def run_func(ctx, f, args, st, opaque=()):
    """Runs a function of FootprintSetup with some positional arguments."""
    I = ctx.interp(types=S, opaque=set(opaque))
    ps = f.node.args
    names = [a.arg for a in ps.posonlyargs + ps.args]
    a, rest = {names[0]: SELF}, list(args)
    for n in names[1:]:
        if rest:
            a[n] = rest.pop(0)
    if ps.vararg:
        a[ps.vararg.arg] = ('tup', tuple(rest))
    if ps.kwarg:
        a[ps.kwarg.arg] = I.alloc(st, 'dict')
    return I, outcomes(I.run(f, a, st))


def lower_content(s, v, src):
    """v is a lower-case dictionary made by this call, holding src and nothing else (src None: empty)."""
    if not (v[0] == 'call' and v[1].endswith(LOWER)):
        return None if tainted(v) else False
    ops = [o for o in s.ops(v) if o[0] not in ('lit', 'phi')]
    got = list(v[3])
    for o in ops:
        if o[0] in ('upd', 'copy'):
            x = o[1]
            while x[0] == 'at':
                x = x[1]
            if x[0] == 'ref' and all(y == ('lit',) for y in s.ops(x)):
                continue
            got.append(x)
        else:
            return None
    got = [x[3][0] if x[0] == 'call' and x[1] == 'dict' and len(x[3]) == 1 else x for x in got]
    return got == ([src] if src is not None else [])


def check_setup(ctx):
    rid = 'C25.setup'
    # what is set is what is got
    for name in ('defaults', 'extended'):
        p = public(ctx, 'FootprintSetup', name)
        if p is None:
            ctx.need(rid, 'FootprintSetup.' + name, False, 'is no longer a property of the setup', ctx.repo.cls('FootprintSetup').where(), taint=True)
            continue

        def go(p=p, name=name):
            fget, fset = p[0], p[1]
            I0, r0 = run_func(ctx, fget, [], State())
            if len(r0) != 1 or r0[0][1][0] == 'exc':
                ctx.need(rid, fget.qual, False, 'the getter gives %s' % [showgot(o) if o[0] != 'exc' else str(o[1]) for _, o in r0], fget.where(), taint=any(o[0] != 'exc' and tainted(o) for _, o in r0))
                return
            old = r0[0][1]
            ctx.need(rid, fget.qual, old[0] == 'attr' and old[1] == SELF and not changes(r0[0][0]), 'the getter gives %s, not what was set' % showgot(old), fget.where(), taint=tainted(old))
            st = State()
            _, r1 = run_func(ctx, fset, [V], st)
            for s, o in r1:
                if o[0] == 'exc':
                    ctx.need(rid, fset.qual, False, 'the setter fails: %s' % (o[1],), fset.where(), taint=o[1].name is None)
                    continue
                _, r2 = run_func(ctx, fget, [], s.copy())
                for s2, got in r2:
                    if name == 'defaults':
                        ok = lower_content(s2, got, V)
                        ctx.need(rid, fset.qual, ok, 'after setting V the default settings are %s holding %s' % (showgot(got), [tuple(show(x) if isinstance(x, tuple) else x for x in op) for op in s2.ops(got)]), fset.where(), taint=ok is None)
                    else:
                        none = s2.decide(isnone(V))
                        if none:
                            ctx.need(rid, fset.qual, got == old, 'setting None changes the switch to %s' % showgot(got), fset.where(), taint=tainted(got))
                        else:
                            t = s2.decide(truth(V))
                            ok = none is False and (got == C(t) if t is not None else got in (call('bool', None, V),))
                            ctx.need(rid, fset.qual, ok, 'after setting V [%s] the switch is %s' % (conds(s2), showgot(got)), fset.where(), taint=tainted(got))
        ctx.guard(rid, 'FootprintSetup.' + name, go)
    # the constructor
    f = ctx.repo.func('FootprintSetup.__init__')

    def init():
        names = [a.arg for a in f.node.args.args]
        I = ctx.interp(types=S)
        _, rows = execute(ctx, I, f.qual, {n: sym(n) for n in names})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'fails: %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            for n in ('extended', 'fatal', 'fastmode'):
                v = s.attrs.get((SELF, n)) or s.attrs.get((SELF, '_' + n))
                t = s.decide(truth(sym(n)))
                ok = v in (sym(n), call('bool', None, sym(n))) or t is not None and v == C(t)
                ctx.need(rid, f.qual, ok, 'the switch %s becomes %s when [%s]' % (n, show(v) if v else 'nothing', conds(s)), f.where(), taint=v is not None and tainted(v))
            v = s.attrs.get((SELF, 'callback'))
            ctx.need(rid, f.qual, v == sym('callback'), 'the callback becomes %s' % (show(v) if v else 'nothing'), f.where(), taint=v is not None and tainted(v))
            v = s.attrs.get((SELF, '_defaults')) or s.attrs.get((SELF, 'defaults'))
            none = s.decide(isnone(sym('defaults')))
            if none is None:
                none = s.decide(truth(sym('defaults'))) is False
            ok = v is not None and (lower_content(s, v, None if none else sym('defaults')) or none and lower_content(s, v, sym('defaults')))
            ctx.need(rid, f.qual, ok, 'the default settings start as %s' % (show(v) if v else 'nothing'), f.where(), taint=ok is None)
            v = s.attrs.get((SELF, 'proxies'))
            ctx.need(rid, f.qual, v is not None, 'keeps no set of proxies', f.where())
    ctx.guard(rid, f.qual, init)
    # the callback
    f2 = ctx.repo.func('FootprintSetup.extras')
    cb = attr(SELF, 'callback')

    def extras():
        I = ctx.interp(types=S)
        _, rows = execute(ctx, I, f2.qual, {'self': SELF})
        for s, o in outcomes(rows):
            t = s.decide(truth(cb))
            if t is None and s.decide(isnone(cb)) is not None:
                t = not s.decide(isnone(cb))
            called = o[0] == 'call' and (o[1] == '.callback' and o[2] == SELF or o[1] == 'apply' and o[2] == cb) and not o[3] and not o[4]
            empty = o[0] == 'ref' and all(x == ('lit',) for x in s.ops(o))
            copied = o[0] == 'ref' and [x for x in s.ops(o) if x[0] in ('copy', 'upd') and x[1][0] == 'call' and x[1][1] in ('.callback', 'apply')]
            ok = (called or bool(copied)) if t else empty if t is False else False
            ctx.need(rid, f2.qual, ok, 'gives %s when [%s]' % (o[1] if o[0] == 'exc' else showgot(o), conds(s)), f2.where(), taint=o[0] == 'exc' and o[1].name is None or o[0] != 'exc' and tainted(o))
            ctx.need(rid, f2.qual, not changes(s), 'changes the setup: %s' % showchanges(changes(s)), f2.where())
    ctx.guard(rid, f2.qual, extras)


def check_cache(ctx):
    rid = 'C25.cache'
    f = ctx.repo.func('ResolveCache.__init__')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'ResolveCache')}, opaque={'FootprintSetup.extras'})
        _, rows = execute(ctx, I, f.qual, {'self': SELF})
        for s, o in outcomes(rows):
            d, x = s.attrs.get((SELF, 'defaults')), s.attrs.get((SELF, 'extras'))
            ok = d is not None and (setting(d, 'defaults') or d[0] == 'ref' and len([y for y in s.ops(d) if y[0] != 'lit']) == 1 and any(setting(y[1], 'defaults') for y in s.ops(d) if y[0] in ('copy', 'upd')))
            ctx.need(rid, f.qual, ok, 'the defaults of a search are %s, not those of the setup at that time' % (show(d) if d else 'not kept'), f.where(), taint=d is not None and tainted(d))

            def from_cb(t):
                return t[0] == 'call' and t[1] == 'FootprintSetup.extras' and is_setup(t[2])
            ok = x is not None and (from_cb(x) or x[0] == 'ref' and any(y[0] in ('copy', 'upd') and from_cb(y[1]) for y in s.ops(x)))
            ctx.need(rid, f.qual, ok, 'the extra information of a search is %s, not what the setup gives at that time' % (show(x) if x else 'not kept'), f.where(), taint=x is not None and tainted(x))
    ctx.guard(rid, f.qual, go)
    g = ctx.repo.func('ResolveCache.get_shallow_fp')
    obj = sym('obj')

    def shallow():
        # on the miss the object itself is asked, and kept alive with what it answered; on a hit that answer is given
        I = ctx.interp(types={SELF: ('inst', 'ResolveCache')})
        st = State()
        _, rows = execute(ctx, I, g.qual, {'self': SELF, g.node.args.args[1].arg: obj}, st)
        seen, begun = [], None
        I2 = ctx.interp(types={SELF: ('inst', 'ResolveCache')}, opaque={'FootprintSetup.extras'})
        begun = [s.attrs for s, o in outcomes(execute(ctx, I2, f.qual, {'self': SELF})[1]) if o[0] != 'exc']
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, g.qual, False, 'fails: %s' % (o[1],), g.where(), taint=o[1].name is None)
                continue
            asked = o[0] == 'call' and o[1].endswith('footprint_as_shallow_dict') and o[2] == obj
            stored = [(b, op) for b, op in changes(s) if op[0] == 'set']
            if asked:
                for b, op in stored:
                    # kept in a container of this search, made with it
                    own = b[0] == 'attr' and b[1] == SELF and all((SELF, b[2]) in a and (a[(SELF, b[2])][0] == 'ref' or a[(SELF, b[2])][0] == 'call') for a in begun)
                    ctx.need(rid, g.qual, own, 'the answers are kept in %s, which outlives the search' % show(b), g.where(), taint=tainted(b))
                    key_by_id = op[1] == call('id', None, obj)
                    val = op[2]
                    keeps = val[0] == 'tup' and obj in val[1] and o in val[1]
                    seen.append((b, op[1], val))
                    ctx.need(rid, g.qual, keeps if key_by_id else op[1] == obj and val == o, 'the answer is kept under %s as %s: another object may get it' % (show(op[1]), show(val)), g.where(), taint=tainted(op[1]) or tainted(val))
                ctx.ok(rid, g.qual)
            else:
                seen.append(('hit', s, o))
        for h in [x for x in seen if x[0] == 'hit']:
            s, o = h[1], h[2]
            ok = False
            for b, k, val in [x for x in seen if x[0] != 'hit']:
                for e in (item(b, k), ('getd', b, k, NONE)):
                    found = s.decide(isin(k, b)) is True if e[0] == 'item' else s.decide(isnone(e)) is False or s.decide(truth(e)) is True
                    want = [item(e, i) for i, y in enumerate(val[1]) if y != obj] if val[0] == 'tup' else [e]
                    ok = ok or o in want and found
            ctx.need(rid, g.qual, ok, 'gives %s when [%s]' % (show(o), conds(s)), g.where(), taint=tainted(o))
    ctx.guard(rid, g.qual, shallow)


ENTRIES = [('Footprint.resolve', {'Footprint._firstguess', 'Footprint._findextras', 'Footprint._addextras', 'Footprint._replacement'}, True), ('Footprint.checkonly', set(), False),
           ('Collector.find_any', {'FootprintBase.footprint_couldbe', 'Collector._fasttrack_subsetting', 'FootprintLog.add'}, False),
           ('Collector.find_all', {'FootprintBase.footprint_couldbe', 'Collector._fasttrack_subsetting', 'FootprintLog.add'}, False),
           ('Collector.find_best', {'Collector.find_all'}, False), ('Collector.pickup', {'Collector.find_best'}, False), ('Collector.pickup_and_cache', {'Collector.find_best'}, False),
           ('FootprintBase.footprint_couldbe', {'Footprint.resolve', 'Footprint.checkonly'}, False)]


def check_fresh(ctx):
    rid = 'C25.fresh'
    for qual, opaque, inkw in ENTRIES:
        f = ctx.repo.func(qual)

        def go(f=f, opaque=opaque, inkw=inkw):
            ty = {SELF: ('inst', f.cls.name), sym('cls'): ('type', f.cls.name)}
            I = ctx.interp(types=ty, opaque=set(opaque) | {'Footprint._resolve_keys', 'Footprint.in_values'}, open_dicts=[DESC], max_states=8000)
            st = memo_state(ctx, 'Footprint') if f.cls.name == 'Footprint' else State()
            a = {x.arg: sym(x.arg) for x in f.node.args.args}
            if 'rd' in a:
                st = st.assume(truth(sym('rd')), True, False)
            if inkw:
                a['kw'] = I.alloc(st, 'dict')
                for n in ('fatal', 'fast', 'report'):
                    st.push(a['kw'], ('set', C(n), sym(n)))
            elif 'resolvecache' in a:
                a['resolvecache'] = NONE
            _, rows = execute(ctx, I, f.qual, a, st)
            seen = set()

            def look(e):
                if e.kind != 'call':
                    return
                for n, v in e.kw:
                    if n == 'resolvecache':
                        seen.add((e.label, v))
            kept = []
            for s, o in outcomes(rows):
                for e in s.events():
                    look(e)
                for b, op in changes(s):
                    if any(isinstance(t, tuple) and t and holds_cache(t) for t in op[1:]):
                        kept.append((b, op))
            for rec in I.loops.values():
                for e in rec.edges:
                    for x in e.events():
                        look(x)
                kept.extend((b, op) for b, op in loop_changes(rec) if any(isinstance(t, tuple) and t and holds_cache(t) for t in op[1:]))
            for label, v in sorted(seen, key=str):
                ctx.need(rid, f.qual, v == NONE or is_cache(v), 'without a cache from the caller, %s is given %s: settings changed since then are ignored' % (label, show(v)), f.where(), taint=tainted(v))
            ctx.need(rid, f.qual, not kept, 'keeps the settings of this search: %s' % showchanges(kept), f.where())
        ctx.guard(rid, f.qual, go)


def holds_cache(t):
    if t[0] == 'tup':
        return any(holds_cache(x) for x in t[1])
    return is_cache(t) or t[0] == 'attr' and is_cache(t[1])


def is_cache(t):
    return t[0] == 'call' and t[1] == 'new ResolveCache' and not t[3] and not t[4]


class Tables:
    """Footprint.resolve, a search cache being given, the modes given or not."""

    def __init__(self, ctx, given, opaque):
        self.I = I = ctx.interp(types={SELF: ('inst', 'Footprint'), CACHE: ('inst', 'ResolveCache')}, open_dicts=[DESC], max_states=8000, opaque=opaque)
        st = memo_state(ctx, 'Footprint')
        kw = I.alloc(st, 'dict')
        st.push(kw, ('set', C('resolvecache'), CACHE))
        for n in given:
            st.push(kw, ('set', C(n), sym(n)))
        st = st.assume(isnone(CACHE), False, False)
        self.f, self.rows = execute(ctx, I, 'Footprint.resolve', {'self': SELF, 'desc': DESC, 'kw': kw}, st)
        self.queue = []
        for rec in I.loops.values():
            es = [(e, [x for x in e.events() if x.kind == 'call' and x.label == 'Footprint._replacement']) for e in rec.edges]
            if any(x for _, x in es):
                self.queue.append((rec, [(e, x[-1]) for e, x in es if x]))


def decided(st, pred):
    """Value of the decided truth atom on a term satisfying pred: True, False, None (not decided)."""
    for a, v in st.facts.items():
        if a[0] == 'truth' and pred(a[1]):
            return v
    return None


def check_modes(ctx):
    rid = 'C25.modes'
    for given in ((), ('fatal', 'fast')):
        def go(given=given):
            T = Tables(ctx, given, OPAQUE)
            f = T.f
            is_fatal = (lambda t: t == sym('fatal')) if given else (lambda t: setting(t, 'fatal'))
            is_fast = (lambda t: t == sym('fast')) if given else (lambda t: setting(t, 'fastmode'))
            what = 'the one given' if given else 'the one of the setup'
            n = 0
            for s, o in outcomes(T.rows):
                if o[0] == 'exc' and o[1].name == 'FootprintFatalError':
                    n += 1
                    ctx.need(rid, f.qual, decided(s, is_fatal) is True, 'refuses an incomplete description when [%s], not when the fatal mode (%s) says so' % (conds(s), what), f.where(), taint=any(tainted(a) and a[0] == 'truth' for a, v in s.conds()))
            ctx.need(rid, f.qual, n > 0, 'never refuses an incomplete description', f.where(), taint=True)
            # an attribute without a value that would be refused in fatal mode is accepted only out of it
            for rec in T.I.loops.values():
                exc = [e for e in rec.edges if e.kind == 'exc' and e.value is not None and getattr(e.value, 'name', None) == 'FootprintFatalError']
                for e in exc:
                    rest = {(a, v) for a, v in e.conds if not (a[0] == 'truth' and is_fatal(a[1]))}
                    for g in rec.edges:
                        if g.kind == 'next' and rest <= set(g.conds):
                            ctx.need(rid, f.qual, decided(g.st, is_fatal) is False, 'an attribute without a value is let through in fatal mode (%s)' % what, f.where())
                if exc:
                    el = ('elem', rec.lid)
                    guesses = {dict(c.kw).get('guess') for _, es in T.queue for _, c in es}
                    for g in rec.edges:
                        if g.kind != 'next' or len(guesses) != 1:
                            continue
                        for s2, has_, v in T.I.lookup(g.st, list(guesses)[0], el):
                            if has_ and (v == NONE or s2.decide(isnone(v)) is True):
                                ctx.need(rid, f.qual, decided(g.st, is_fatal) is False, 'an attribute without a value is let through in fatal mode (%s) when [%s]' % (what, '; '.join(showfact(a, w) for a, w in g.conds)), f.where())
            # fast mode stops at the first attribute that is refused
            from .resolving import Iter
            for rec, es in T.queue:
                for e, c in es:
                    kw = dict(c.kw)
                    if 'k' not in kw or 'guess' not in kw or e.kind == 'exc':
                        continue
                    R = type('R', (), {'I': T.I})()
                    it = Iter(R, rec, e, c, kw['k'], kw['guess'], kw)
                    if it.ok is not True or it.V is None:
                        continue
                    fast = decided(e.st, is_fast)
                    if e.kind == 'brk':
                        none = it.final == NONE or e.st.decide(isnone(it.final)) is True
                        ctx.need(rid, f.qual, none, 'stops at an attribute that is not refused: %s' % (show(it.final) if it.final[0] != 'exc' else it.final[1],), f.where(), taint=tainted(it.final) and not mentions(it.final, lambda x: x == it.guess))
                        other = [a for a, v in e.conds if v and a[0] == 'truth' and mentions(a[1], lambda x: x[0] in ('popped', 'pop') or x[0] == 'item')]
                        ctx.need(rid, f.qual, fast is True or bool(other), 'stops at an attribute although neither the fast mode (%s) nor its key says so' % what, f.where(), taint=any(tainted(a) for a in other))
                    elif it.final == NONE:
                        ctx.need(rid, f.qual, fast is False, 'goes on after a refused attribute although the fast mode (%s) may be on' % what, f.where())
        ctx.guard(rid, 'Footprint.resolve', go)


def check_extras(ctx):
    rid = 'C25.extras'

    def go():
        T = Tables(ctx, ('fatal', 'fast'), (OPAQUE - {'Footprint._findextras', 'Footprint._addextras'}) | {'ResolveCache.get_shallow_fp'})
        f, I = T.f, T.I
        conts = {dict(c.kw).get('extras') for _, es in T.queue for _, c in es}
        if len(conts) != 1 or None in conts:
            ctx.undec(rid, f.qual, 'the extra information used is %s' % [c and show(c) for c in conts])
            return
        X = conts.pop()
        if X[0] == 'phi' and X[1] in I.loops:
            # rebuilt by a loop: each turn starts again from what the previous ones gathered
            for e in I.loops[X[1]].edges:
                v = e.st.env().get(X[2])
                if e.kind == 'next' and v is not None and v[0] in ('call', 'attr', 'item'):
                    ctx.need(rid, f.qual, mentions(v, lambda x: x == X), 'the extra information gathered so far is replaced by %s' % show(v), f.where(), taint=any(x[0] == 'unk' for x in [v]))
        G = {dict(c.kw).get('guess') for _, es in T.queue for _, c in es}
        G = G.pop() if len(G) == 1 else None
        done = set()
        for s, o in outcomes(T.rows):
            if o[0] == 'exc':
                continue
            queue = {rec for rec, _ in T.queue}
            if any(e.kind == 'loop' and e.label in queue for e in s.events()):
                continue            # the replacement step may complete the extra information: what counts is what it starts from
            for s2, hasit, v in I.lookup(s, X, K):
                facts = frozenset((a, w) for a, w in s2.facts.items() if mentions_key(a)) | {s2.decide_ext() if hasattr(s2, 'decide_ext') else None}
                check_one(ctx, rid, f, I, s2, X, G, hasit, v)
                done.add(facts)
        ctx.need(rid, f.qual, len(done) > 3, 'no extra information is gathered', f.where(), taint=True)
    ctx.guard(rid, 'Footprint.resolve', go)


def mentions_key(a):
    return mentions(a, lambda x: x == K)


def shallow_of(t, coll, b):
    """t is the content of the object found under b in the description."""
    while t[0] == 'at':
        t = t[1]
    ok = (item(DESC, b),) if coll != ('view', 'values', DESC) else (item(DESC, b), b)
    if t[0] != 'call':
        return False
    a = t[3][0] if t[3] else dict(t[4]).get('obj')
    if t[1] == 'ResolveCache.get_shallow_fp' and t[2] in (CACHE,):
        return a in ok
    return t[1].endswith('footprint_as_shallow_dict') and t[2] in ok


def objects_atom(a):
    """exists x in the description: (x is a footprint object) and (K in its content)."""
    if a[0] != 'exists' or strip_view(a[1]) != DESC and a[1] not in (('view', 'values', DESC), ('view', 'items', DESC)) or not mentions_key(a):
        return False
    for c in a[2]:
        good = {0: False, 1: False}
        for b, v in c:
            if b[0] == 'in' and b[1] == K and v and b[2][0] in ('call', 'at') and mentions(b[2], lambda x: x == DESC or x[0] == 'bv'):
                bv = [None]
                mentions(b[2], lambda x: x[0] == 'bv' and bv.__setitem__(0, x) or False)
                good[0] = bv[0] is not None and shallow_of(b[2], a[1], bv[0])
            elif b[0] == 'isinstance' and v and 'FootprintBase' in show(b[2]):
                good[1] = True
            else:
                return False
        if not all(good.values()):
            return False
    return True


def gives(s, rec, o):
    """One operation copies the whole content of the object at hand."""
    el = ('elem', rec.lid)
    if o[0] == 'upd':
        return shallow_of(o[1], rec.coll, el)
    if o[0] != 'each' or o[2].coll is None:
        return False
    inner, src = o[2], o[2].coll
    items = src[0] == 'view' and src[1] == 'items'
    src = src[2] if items else strip_view(src)
    k = ('elem', inner.lid)
    if not shallow_of(src, rec.coll, el) or not inner.edges:
        return False
    for e in inner.edges:
        d = o[3](e)
        if e.kind != 'next' or len(d) != 1 or d[0][0] != 'set':
            return False
        if d[0][1:3] not in ((k, item(src, k)), (item(k, 0), item(k, 1))):
            return False
    return True


def check_one(ctx, rid, f, I, s, X, G, hasit, v):
    cb = attr(CACHE, 'extras')
    got = v if hasit else ('absent',)
    inguess = s.facts.get(isin(K, G)) if G is not None else None
    if inguess is None:
        for a, w in s.facts.items():
            if a[0] == 'in' and a[1] == K and mentions(a[2], lambda x: x[0] == 'call' and x[1] == 'Footprint._firstguess'):
                inguess = w
    obj = None
    for a, w in s.facts.items():
        if objects_atom(a):
            obj = w
        elif a[0] == 'exists' and mentions_key(a):
            ctx.need(rid, f.qual, False, 'the objects of the description are searched with [%s]' % showfact(a, w), f.where(), taint=tainted(a))
            return
    ext = decided(s, lambda t: setting(t, 'extended'))
    D = None
    indef = None
    for a, w in s.facts.items():
        if a[0] == 'in' and a[1] == K and (setting(a[2], 'defaults') or a[2] == attr(CACHE, 'defaults')):
            D, indef = a[2], w
    indesc = s.facts.get(isin(K, DESC))
    incb = s.facts.get(isin(K, cb))
    clearly = {v} if hasit and v[0] == 'itemv' else set()
    tnt = hasit and tainted(hide(v, clearly)) or any(tainted(a) for a, w in s.facts.items() if mentions_key(a))
    where = f.where()
    text = '; '.join(showfact(a, w) for a, w in s.facts.items() if mentions_key(a) or 'extended' in showfact(a, w))

    def need(cond, want):
        ctx.need(rid, f.qual, cond, 'the extra information for a name is %s, required %s, when [%s]' % (show(v) if hasit else 'missing', want, text), where, taint=tnt)
    if hasit and v[0] == 'itemv':
        # given by an object of the description: the last one that has it
        at = v[1]
        op = s.ops(at[1])[at[2] - 1]
        srcs = [(e, o) for e in op[2].edges for o in op[3](e)] if op[0] == 'each' else []
        good = bool(srcs) and all(gives(s, op[2], o) for e, o in srcs)
        need(good and obj is True and v[2] == K, 'that of an object found in the description')
        return
    if obj is True:
        need(inguess is True, 'that of an object found in the description')
        return
    if hasit and v == item(cb, K):
        need(obj is False, 'that of an object found in the description, if any')
        return
    if incb is True:
        need(inguess is True, 'that of the callback')
        return
    if hasit and inguess is True:
        return                  # hidden by the attribute itself
    if hasit and v == item(DESC, K):
        need(obj is False and incb is False and indesc is True, 'that of an object or of the callback, if any')
        return
    if hasit and D is not None and v == item(D, K):
        need(obj is False and incb is False and indesc is False and ext is True, 'a default setting in extended mode only, when nothing else provides it')
        return
    if not hasit:
        if inguess is True:
            need(True, '')
            return
        need(indesc is False and obj in (False, None) and incb is False or indesc is False and inguess is False and obj is False and incb is False, 'that of the description')
        if indesc is False and inguess is not True:
            need(ext is False or indef is False, 'the default setting')
        return
    need(False, 'one of the documented sources')


def check_only(ctx):
    rid = 'C25.only'
    from .c03 import only_tables

    def go():
        I, f, rows, edges = only_tables(ctx, False)
        n = 0
        for oe in edges:
            if oe.value is None:
                continue
            for base in oe.params:
                n += 1
                ctx.need(rid, f.qual, base == attr(CACHE, 'defaults') or setting(base, 'defaults'), 'a rule on a name that is not an attribute looks in %s, not in the default settings' % show(base), f.where(), taint=tainted(base))
        ctx.need(rid, f.qual, n > 0, 'no default setting is looked up', f.where(), taint=not edges or any(tainted(a) for oe in edges for a, v in oe.edge.conds))
    ctx.guard(rid, 'Footprint.checkonly', go)


def plural(t, name):
    return t in (call('str', None, ('bin', '+', name, C('s'))), ('bin', '+', name, C('s')), ('strcat', (name, C('s'))), ('strcat', (('fmt', name), C('s'))))


def sets_of(events, recv):
    out = []
    for e in events:
        if e.kind == 'call' and e.label == 'setattr' and e.recv == recv and len(e.args) == 2:
            out.append((e.args[0], e.args[1]))
        elif e.kind == 'setattr' and e.recv == recv:
            out.append((C(e.label), e.args[0]))
    return out


def is_plural(t, name):
    """The text name + 's'."""
    if plural(t, name):
        return True
    while t[0] == 'call' and t[1] == 'str' and len(t[3]) == 1:
        t = t[3][0]
    if t[0] == 'strcat':
        parts = [x[3][0] if x[0] == 'call' and x[1] == 'str' and len(x[3]) == 1 else x[1] if x[0] == 'fmt' else x for x in t[1]]
        return parts == [name, C('s')]
    return t[0] == 'bin' and t[1] == '+' and t[2] == name and t[3] == C('s')


def is_load(v, c):
    return v == attr(c, 'load') or v[0] in ('bm', 'bound') and v[-1] in ('load', 'Collector.load') and c in v or v[0] == 'bm' and mentions(v, lambda x: x == c) and 'Collector.load' in showgot(v)


def check_proxies(ctx):
    rid = 'C25.proxies'
    f = ctx.repo.func('config:add2proxies')
    c = sym(f.node.args.args[0].arg)

    def every():
        I = ctx.interp(types={c: ('inst', 'Collector')})
        st = State()
        kw = I.alloc(st, 'dict')
        _, rows = execute(ctx, I, f.qual, {c[1]: c, 'kw': kw}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'fails: %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            recs = [e.label for e in s.events() if e.kind == 'loop' and e.label.coll is not None and setting(strip_view(e.label.coll), 'proxies')]
            if not recs:
                ctx.need(rid, f.qual, False, 'does not go through the proxies of the setup', f.where(), taint=any(e.kind == 'loop' for e in s.events()))
                continue
            load, whole = True, True
            for rec in recs:
                el = ('elem', rec.lid)
                for ed in rec.edges:
                    ctx.need(rid, f.qual, ed.kind == 'next', 'stops before the last proxy (%s)' % ed.kind, f.where(), taint=any(tainted(a) for a, _ in ed.conds))
            tag = {attr(c, 'tag'), attr(c, '_tag')}
            for kind in ('load', 'plural'):
                done = False
                for rec in recs:
                    el = ('elem', rec.lid)
                    ok = True
                    for ed in rec.edges:
                        sets = sets_of(ed.events(), el)
                        if kind == 'load':
                            hit = [v for n, v in sets if n in tag]
                            ok = ok and len(hit) == 1 and is_load(hit[0], c)
                        else:
                            hit = [v for n, v in sets if any(is_plural(n, t) for t in tag)]
                            ok = ok and hit == [c]
                    done = done or ok and bool(rec.edges)
                ctx.need(rid, f.qual, done, 'a registered proxy does not get the %s of a new collector in every case: %s' % ('load function' if kind == 'load' else 'collector itself',
                         [[(show(n), showgot(v)) for n, v in sets_of(ed.events(), ('elem', rec.lid))] for rec in recs for ed in rec.edges][:3]), f.where())
    ctx.guard(rid, f.qual, every)
    # every new collector is announced, once it has its tag
    g = ctx.repo.func('Collector.__init__')

    def announced():
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'config:add2proxies'})
        st = State()
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', sym('KW')))
        _, rows = execute(ctx, I, g.qual, {'self': SELF, 'kw': kw}, st)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                continue
            ev = s.events()
            at = [i for i, e in enumerate(ev) if e.kind == 'call' and e.label == 'config:add2proxies' and (dict(e.kw).get(c[1]) == SELF or e.args[:1] == (SELF,))]
            ctx.need(rid, g.qual, len(at) >= 1, 'a new collector is not given to the registered proxies when [%s]' % conds(s), g.where())
            for i in at:
                e = ev[i]
                extra = [n for n, v in e.kw if n not in (c[1],) and not (n == '**' and v[0] == 'ref')]
                ctx.need(rid, g.qual, not extra, 'is given to the proxies of another setup (%s)' % extra, g.where())
    ctx.guard(rid, g.qual, announced)
    # registration
    h = ctx.repo.func('FootprintSetup.add_proxy')
    obj = sym(h.node.args.args[1].arg)

    def register():
        I = ctx.interp(types=S)
        a = {x.arg: sym(x.arg) for x in h.node.args.args}
        _, rows = execute(ctx, I, h.qual, a)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, h.qual, s.decide(isinst(obj, ('builtin', 'object'))) is False, 'refuses a proxy when [%s]' % conds(s), h.where(), taint=o[1].name is None)
                continue
            added = [op for op in s.ops(attr(SELF, 'proxies')) if op[0] == 'add' and op[1] == obj]
            known = s.decide(('in', obj, attr(SELF, 'proxies'))) is True
            ctx.need(rid, h.qual, bool(added) or known, 'a proxy is not registered for the collectors to come when [%s]' % conds(s), h.where())
            # its own attributes are kept unless asked to clear them
            recs = [e.label for e in s.events() if e.kind == 'loop']
            byk, whole = [], {'load': False, 'plural': False}
            for rec in recs:
                if rec.coll is None or not mentions(rec.coll, lambda x: x[0] == 'call' and x[1] in ('.tag_items', '.tag_keys', '.tag_values', 'Collector.tag_items')):
                    continue
                el = ('elem', rec.lid)
                k, v = item(el, 0), item(el, 1)
                okk = {'load': bool(rec.edges), 'plural': bool(rec.edges)}
                for ed in rec.edges:
                    ctx.need(rid, h.qual, ed.kind == 'next', 'stops before the last collector', h.where(), taint=any(tainted(a) for a, _ in ed.conds))
                    sets = sets_of(ed.events(), obj)
                    clear = decided(ed.st, lambda t: t == sym('clear'))
                    for kind, mine in (('load', lambda n: n == k), ('plural', lambda n: is_plural(n, k))):
                        hits = [x for n, x in sets if mine(n)]
                        own = [w for a, w in ed.st.facts.items() if a[0] in ('hasattr', 'has') and a[1] == obj and mine(a[2])]
                        good = len(hits) == 1 and (is_load(hits[0], v) if kind == 'load' else hits[0] == v)
                        if hits:
                            okk[kind] = okk[kind] and good
                        else:
                            okk[kind] = okk[kind] and own == [True] and clear is False
                for kind in whole:
                    whole[kind] = whole[kind] or okk[kind]
            for kind in whole:
                ctx.need(rid, h.qual, whole[kind], 'a new proxy does not get the %s of every existing collector it has no attribute for' % ('load function' if kind == 'load' else 'object'), h.where(),
                         taint=any(tainted(a) for rec in recs for ed in rec.edges for a, _ in ed.conds))
    ctx.guard(rid, h.qual, register)
    # the generic proxy
    P = {SELF: ('inst', 'FootprintProxy')}
    tags = lambda x: isin(call('.rstrip', x, C('s')), call('.tag_keys', ('cls', 'Collector')))
    x = sym('tag')
    simple(ctx, rid, 'FootprintProxy.exists', {'self': SELF, 'tag': x}, lambda q: TRUE if q(tags(x)) else FALSE, P)
    y = sym('item')
    simple(ctx, rid, 'FootprintProxy.__contains__', {'self': SELF, 'item': y}, lambda q: TRUE if q(tags(y)) else FALSE, P)
    cont = lambda z: call('new Collector', None, tag=z)
    known = lambda q, z: q(tags(z))
    ga = ctx.repo.func('FootprintProxy.__getattr__')
    z = sym(ga.node.args.args[1].arg)

    def generic():
        I = ctx.interp(types=P)
        m = ctx.repo.find_method(ctx.repo.cls('FootprintProxy'), '__contains__')
        _, rows = execute(ctx, I, ga.qual, {'self': SELF, z[1]: z})
        for s, o in outcomes(rows):
            last = [v for a, v in s.facts.items() if a[0] == 'eq' and {a[1], a[2]} == {item(z, C(-1)), C('s')}]
            if last:
                s = s.copy()
                s.facts[truth(call('.endswith', z, C('s')))] = last[0]

            def want(q):
                there = q(isin(z, SELF)) if isin(z, SELF) in s.facts else q(tags(z))
                if q(truth(call('.startswith', z, C('_')))) or not there:
                    return NONE
                if q(truth(call('.endswith', z, C('s')))):
                    return Want('the collector of that tag', lambda s2, g: collector_of(g, z))
                return Want('the load function of the collector of that tag', lambda s2, g: g[0] in ('bm', 'bound', 'attr') and 'load' in showgot(g) and mentions(g, lambda t: collector_of(t, z)))
            ctx.conform(rid, ga.qual, [(s, o)], want, ga.where())
            if o == NONE:
                ctx.need(rid, ga.qual, not any(e.kind == 'call' and e.label == 'new Collector' for e in s.events()), 'creates a collector for a name that has none', ga.where())
    ctx.guard(rid, ga.qual, generic)
    gi = ctx.repo.func('FootprintProxy.getitem')

    def gen2():
        I = ctx.interp(types=P)
        _, rows = execute(ctx, I, gi.qual, {'self': SELF, 'item': y, 'value': sym('value')})
        for s, o in outcomes(rows):
            def want(q):
                there = q(isin(y, SELF)) if isin(y, SELF) in s.facts else q(tags(y))
                if there:
                    return Want('the collector of that tag', lambda s2, g: collector_of(g, y))
                return sym('value')
            ctx.conform(rid, gi.qual, [(s, o)], want, gi.where())
    ctx.guard(rid, gi.qual, gen2)


def collector_of(t, z):
    if t[0] == 'call' and t[1] in ('new Collector', 'collectors:get') and not t[3] and len(t[4]) == 1 and t[4][0][0] == 'tag':
        a = t[4][0][1]
        return a == z or a == call('.rstrip', z, C('s'))
    return False


def check_early(ctx):
    """No function, class or module captures a setting when it is loaded."""
    rid = 'C25.early'
    for m in ctx.repo.modules.values():
        spots = []

        def scan(body, inclass):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None] + n.decorator_list:
                        spots.append((n.name, d))
                    inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not n]
                    del inner
                elif isinstance(n, ast.ClassDef):
                    scan(n.body, True)
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    for part in ('body', 'orelse', 'finalbody'):
                        scan(getattr(n, part, []) or [], inclass)
                else:
                    spots.append(('module' if not inclass else 'class', n))
        scan(m.tree.body, False)
        for name, node in spots:
            bad = None
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and x.attr.lstrip('_') in FIELDS and isinstance(x.ctx, ast.Load) and refers_setup(ctx, m, x.value):
                    bad = 'setup.%s' % x.attr
                elif isinstance(x, ast.Call):
                    t = x.func
                    nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ''
                    if nm == 'ResolveCache':
                        bad = 'ResolveCache()'
            # deferred code (lambda) is not read at load time
            if bad and any(isinstance(x, ast.Lambda) for x in ast.walk(node)):
                continue
            ctx.need(rid, '%s:%s' % (m.short, name), bad is None, 'reads %s when the module is loaded: later changes are ignored' % bad, '%s:%d' % (m.rel, node.lineno))
    # memoised functions
    for f in ctx.repo.all_funcs():
        for d in f.node.decorator_list:
            t = ast.unparse(d)
            if 'cache' in t and 'cached_property' not in t or 'memo' in t:
                reads = any(isinstance(x, ast.Attribute) and x.attr.lstrip('_') in FIELDS for x in ast.walk(f.node))
                calls = any(isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')) in ('extras', 'ResolveCache', 'callback', 'get') for x in ast.walk(f.node))
                ctx.need(rid, f.qual, not (reads or calls), 'is memoised (%s) although it depends on the settings' % t, f.where())


def refers_setup(ctx, m, node):
    if isinstance(node, ast.Name):
        return node.id == 'setup'
    if isinstance(node, ast.Attribute):
        return node.attr == 'setup'
    if isinstance(node, ast.Call):
        t = node.func
        nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ''
        if nm == 'FootprintSetup':
            return True
        return nm == 'get' and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'config'
    return False


READERS = ['Footprint.resolve', 'Footprint.checkonly', 'Collector.load', 'Collector.find_any', 'FootprintBase.footprint_couldbe', 'FootprintProxy.__getattr__']


def check_writers(ctx):
    rid = 'C25.writers'

    def bad(root, path, what):
        p = [x for x in path if x != '*']
        names = [x.lstrip('._') for x in p]
        if root[0] in ('new', 'glob') and (root[-1] in ('FootprintSetup', 'setup')):
            # the proxies themselves are populated, not the set that holds them
            return not (names[:1] == ['proxies'] and len(p) > 1)
        if root == ('param', 'resolvecache'):
            return names[:1] in (['defaults'], ['extras']) or names[:1] == ['_shallow_cache'] and len(names) > 1
        return False
    for q in READERS:
        forbid(ctx, rid, q, bad, 'a resolution changes the settings')


def run(ctx):
    ctx.rule('C25.setup', 'what is stored in the setup is what later readers get: default settings, extended switch, modes, callback')
    ctx.rule('C25.cache', 'a search reads the default settings and calls the callback when it starts; what an object provides is kept for that object only')
    ctx.rule('C25.fresh', 'each search that is not given a cache builds its own, and keeps it nowhere')
    ctx.rule('C25.modes', 'fatal and fast modes are those of the call, else those of the setup at that time')
    ctx.rule('C25.extras', 'extra information comes from the objects of the description, the callback, the description, then (extended) the default settings')
    ctx.rule('C25.only', 'a name that is not an attribute is looked up in the default settings by the only clause')
    ctx.rule('C25.proxies', 'registered proxies get the load function and the object of every collector, the generic one on the fly')
    ctx.rule('C25.early', 'no setting is captured when a module is loaded')
    ctx.rule('C25.writers', 'no resolution writes the settings')
    for fn in (check_setup, check_cache, check_fresh, check_modes, check_extras, check_only, check_proxies, check_early, check_writers):
        fn(ctx)
