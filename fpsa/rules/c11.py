"""Access modes of the attributes.

Every operation of every descriptor class is interpreted with the storage methods of the object inlined, and its effect on
the storage compared with what its access mode allows.  The storage methods are interpreted with any authorization.  The
class definition must install, for each attribute, the descriptor of its access mode with the authorization of the class,
and nothing else in the package may write in the storage of an object.
"""
from .storing import *
from . import defining

MINIMA = {'C11.mode': 20, 'C11.auth': 4, 'C11.install': 60, 'C11.table': 3, 'C11.writers': 3, 'C11.own': 3}


def judge(ctx, name, m, rows, want):
    """want(q) -> 'same' | 'value' | exception name | ('del',) for each outcome (state, changes, result)."""
    for s, ch, o in rows:
        exc = o[1] if o[0] == 'exc' else None
        for s2, w in completions(s, want):
            facts = '; '.join(showfact(a, s2.facts[a]) for a in s2.facts)
            tnt = any(tainted(a) for a in s.facts) or exc is not None and exc.name is None
            if w == 'AttributeError':
                ok = not ch and exc is not None and exc.name is not None and exc_isa(exc.name, w)
            elif w == 'delete':
                ok = exc is None and len(ch) == 1 and ch[0][0] == STORE and ch[0][1][:2] in (('del', NAME), ('rem', NAME))
            elif w == 'read':
                ok = exc is None and not ch
            elif w == 'store':
                ok = exc is None and len(ch) == 1 and ch[0][0] == STORE and ch[0][1][0] == 'set' and ch[0][1][1] == NAME
            else:
                ok = True
            ctx.need('C11.mode', name, ok, 'required %s; when [%s] %s: writes %s' % (w, facts, 'raises %s' % exc if exc else 'gives %s' % showgot(o), showchanges(ch)), m.where(), taint=tnt)


def check_modes(ctx):
    ds = descriptors(ctx)
    for mode in MODES:
        ctx.need('C11.mode', 'access mode ' + mode, mode in ds, 'no descriptor class for this access mode', 'src/footprints/access.py')
        if mode not in ds:
            continue
        cls = ds[mode]
        present = isin(NAME, STORE)

        def dele(q):
            if mode[2] == 'd':
                return 'delete' if q(present) else 'AttributeError'
            return 'AttributeError'

        def read(q):
            return 'read' if mode[1] != 'w' or q(present) else 'AttributeError'

        def go(op, args, want):
            m = ctx.repo.find_method(cls, op)
            ctx.need('C11.mode', '%s.%s' % (cls.name, op), m is not None, 'no %s in the descriptor' % op, 'src/footprints/access.py')
            if m is not None:
                m, I, rows = run_op(ctx, cls, op, args)
                ctx.need('C11.mode', '%s.%s' % (cls.name, op), bool(rows), 'no outcome', m.where(), taint=True)
                judge(ctx, '%s.%s' % (cls.name, op), m, rows, want)
        ctx.guard('C11.mode', cls.name + '.__delete__', lambda: go('__delete__', {}, dele))
        ctx.guard('C11.mode', cls.name + '.__get__', lambda: go('__get__', {'owner': OWNER}, read))
        if mode[1] != 'w':
            ctx.guard('C11.mode', cls.name + '.__set__', lambda: go('__set__', {'value': VALUE}, lambda q: 'AttributeError'))
        else:
            # an accepted assignment stores, a refused one changes nothing (details: C12)
            def sets():
                m, I, rows = run_op(ctx, cls, '__set__', {'value': VALUE})
                n = 0
                for s, ch, o in rows:
                    if o[0] == 'exc':
                        ctx.need('C11.mode', cls.name + '.__set__', not ch, 'a refused assignment writes %s' % showchanges(ch), m.where())
                    else:
                        n += 1
                        ok = len(ch) == 1 and ch[0][0] == STORE and ch[0][1][0] == 'set' and ch[0][1][1] == NAME
                        ctx.need('C11.mode', cls.name + '.__set__', ok, 'an accepted assignment writes %s' % showchanges(ch), m.where())
                        if ok and mode.endswith('-weak'):
                            v = ch[0][1][2]
                            real = s.decide(isnone(v)) is not True and s.decide(isinst(v, ('ext', 'weakref.ProxyTypes'))) is not True
                            ctx.need('C11.mode', cls.name + '.__set__', not real or v[0] == 'call' and v[1] == 'weakref.proxy', 'a weak attribute stores %s' % show(v), m.where())
                ctx.need('C11.mode', cls.name + '.__set__', n > 0, 'no assignment is ever accepted', m.where())
            ctx.guard('C11.mode', cls.name + '.__set__', sets)
    def init():
        for name in sorted({c.name for c in ds.values()}):
            m = ctx.repo.find_method(ctx.repo.cls(name), '__init__')
            I = ctx.interp(types={SELF: ('inst', name)})
            for s, o in outcomes(I.run(m, {'self': SELF, 'attr': sym('attr'), 'doc': sym('doc'), 'auth': sym('auth')}, State())):
                ok = s.attrs.get((SELF, '_attr')) == sym('attr') and s.attrs.get((SELF, '_auth')) == sym('auth')
                ctx.need('C11.mode', name + '.__init__', ok, 'the descriptor does not keep its attribute name and authorization', m.where())
    ctx.guard('C11.mode', 'FootprintAttrDescriptor.__init__', init)


def check_auth(ctx):
    obj, a, v, au = sym('self'), sym('attr'), sym('value'), sym('auth')
    store, own = attr(obj, '_attributes'), attr(obj, '_fp_auth')
    for qual, args, want in (('FootprintBase.footprint_setattr', {'value': v}, ('set', a, v)), ('FootprintBase.footprint_delattr', {}, ('del', a))):
        def go():
            f = ctx.repo.func(qual)
            I = ctx.interp(types={obj: ('inst', 'FootprintBase')})
            rows = I.run(f, dict({'self': obj, 'attr': a, 'auth': au}, **args), State())
            for s, o in outcomes(rows):
                ch = changes(s)
                for s2, ok in completions(s, lambda q: q(mk_eq(au, own))):
                    exc = o[1] if o[0] == 'exc' else None
                    facts = '; '.join(showfact(x, s2.facts[x]) for x in s2.facts)
                    if not ok:
                        good = not ch and exc is not None and exc.name is not None and exc_isa(exc.name, 'AttributeError')
                    elif want[0] == 'del' and s2.decide(isin(a, store)) is False:
                        good = not ch
                    else:
                        good = exc is None and len(ch) == 1 and ch[0][0] == store and tuple(ch[0][1][:len(want)]) == want
                    ctx.need('C11.auth', f.qual, good, '%s authorization: when [%s] writes %s%s' % ('valid' if ok else 'invalid', facts, showchanges(ch), ', raises %s' % exc if exc else ''), f.where(),
                             taint=any(tainted(x) for x in s.facts))
        ctx.guard('C11.auth', qual, go)


def check_install(ctx):
    rid = 'C11.install'
    D = defining.Define(ctx)
    name, d = D.f.qual, defining.BODY
    E = None
    ranlids = set()
    for rec in D.I.loops.values():
        if rec.coll is None:
            continue
        coll, E = strip_view(rec.coll), ('elem', rec.lid)
        hit = [e for e in rec.edges if any(op[0] == 'set' and op[1] == E and op[2][0] == 'call' and op[2][1] == 'apply' for op in rec.delta(e, d))]
        if not hit:
            # other additions to the body of the class do not replace what it holds
            for e in rec.edges:
                for op in rec.delta(e, d):
                    if op[0] in ('set', 'del', 'upd', 'clr', 'rem'):
                        ok = op[0] == 'set' and (e.st.decide(isin(op[1], d)) is False or notin(e.st, op[1], d) or is_c(op[1]))
                        ctx.need(rid, name + ' (other additions)', ok, 'the body of the class is changed: %s' % [show(x) if isinstance(x, tuple) else x for x in op[:2]], D.where, taint=True)
            continue
        ranlids.add(rec.lid)
        fpok = coll[0] == 'item' and coll[2] == C('attr') and coll[1][0] == 'attr' and coll[1][2] == '_fp' and coll[1][1][0] == 'call' and coll[1][1][1] == 'new Footprint'
        ctx.need(rid, name, fpok, 'descriptors are installed for %s' % show(coll), D.where, taint=tainted(coll))
        mode = item(item(coll, E), 'access')
        for e in rec.edges:
            if e.kind == 'exc':
                continue
            ops = [op for op in rec.delta(e, d) if len(op) > 1 and op[1] == E]
            facts = '; '.join(showfact(a, v) for a, v in e.conds)
            if e.kind != 'next' or not ops or ops[-1][0] != 'set':
                ctx.need(rid, name, False, 'no descriptor for an attribute when [%s]' % facts, D.where, taint=any(tainted(a) for a, v in e.conds))
                continue
            v = ops[-1][2]
            own = e.st.decide(isinst(mode, ('cls', 'FootprintAttrDescriptor')))
            good = v[0] == 'call' and v[1] == 'apply' and (v[3][:1] == (E,) or dict(v[4]).get('attr') == E)
            facc = v[2] if v[0] == 'call' else None
            src = facc is not None and (facc == mode or facc[0] in ('item', 'getd') and facc[2] == mode and facc[1][0] == 'call' and facc[1][1] == 'access:attr_descriptors')
            if facc == mode and own is not True:
                src = False
            au = dict(v[4]).get('auth') if v[0] == 'call' else None
            if au is None and v[0] == 'call' and len(v[3]) == 3:
                au = v[3][2]
            stored = [op[2] for op in e.st.ops(d) if op[0] == 'set' and op[1] == C('_fp_auth')]
            auok = au is not None and (au[0] in ('item', 'itemv') and (au[1] == d or au[1][0] == 'at' and au[1][1] == d) and au[2] == C('_fp_auth') or au in stored)
            for x in {y for y in stored}:
                proper(ctx, rid, name, e.st, x, d, D.where)
            ctx.need(rid, name, good and src and auok and bool(stored), 'an attribute receives %s' % show(v), D.where, taint=tainted(hide(v, {au} if auok else ())))
    for s, o in D.outs:
        if o[0] == 'exc':
            continue
        ran = [e.label.lid for e in s.events() if e.kind == 'loop' and e.label.lid in ranlids]
        new = [e for e in s.events() if e.kind == 'call' and e.label == 'super.__new__']
        ctx.need(rid, name, len(ran) == 1, 'the descriptors of the attributes are not installed', D.where, taint=len(ran) > 1)
        ctx.need(rid, name, len(new) == 1 and d in new[0].args, 'the class is not made from its body', D.where, taint=True)
    return D


def proper(ctx, rid, where_, st, auth, d, line):
    """The authorization belongs to the class: it depends on its module and its name, or is an object made for it."""
    named = mentions(auth, lambda x: x == defining.NAME or x[0] in ('item', 'getd') and x[2] == C('__qualname__'))
    placed = mentions(auth, lambda x: x[0] in ('item', 'itemv', 'getd') and x[2] == C('__module__')) or notin(st, C('__module__'), d)
    fresh = auth[0] in ('ref', 'call') and not (auth[0] == 'call' and auth[1] in ('hash', 'str', 'repr', 'id', 'int', 'tuple')) and not named
    plain = not mentions(auth, lambda x: x[0] == 'call' and x[1] not in ('hash', 'str', 'repr', 'tuple', 'format', 'int'))
    ctx.need(rid, where_ + ' (authorization)', named and placed or fresh, 'the authorization of the class is %s, which other classes can have' % show(auth), line, taint=tainted(auth) or not plain)


def notin(st, x, d):
    return any(a[0] == 'in' and a[1] == x and (a[2] == d or a[2][0] == 'at' and a[2][1] == d) and v is False for a, v in st.facts.items())


def check_table(ctx):
    rid = 'C11.table'
    f = ctx.repo.func('access:attr_descriptors')
    I = ctx.interp()
    rows = I.run(f, {'refresh': sym('refresh')}, State())
    mode = sym('M')
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            ctx.need(rid, f.qual, False, 'raises %s' % o[1], f.where(), taint=True)
            continue
        loops = [e.label for e in s.events() if e.kind == 'loop']
        if not loops:
            cached = any(a[0] == 'truth' and v and mentions(a[1], lambda x: x == o or x[0] == 'default') for a, v in s.facts.items())
            ctx.need(rid, f.qual, cached and s.decide(truth(sym('refresh'))) is not True, 'gives %s without looking for the descriptors' % show(o), f.where())
            continue
        for rec in loops:
            for e in rec.edges:
                xs = set()
                for a, v in e.conds:
                    if a[0] == 'hasattr' and a[2] == C('access_mode'):
                        xs.add(a[1])
                for b in e.st.heap:
                    for op in rec.delta(e, b):
                        if op[0] in ('app', 'add'):
                            xs.discard(op[1])       # kept for a later loop
                            if op[1][0] == 'tup' and len(op[1][1]) == 2:
                                op = ('set',) + tuple(op[1][1])
                        if op[0] != 'set':
                            continue
                        x = op[2]
                        ctx.need(rid, f.qual, op[1] == attr(x, 'access_mode') and mentions(x, lambda y: y == ('elem', rec.lid)), 'the access mode %s is given %s' % (show(op[1]), show(x)), f.where(), taint=tainted(x))
                        xs.discard(x)
                for x in xs:
                    left = e.st.decide(has(x, 'access_mode')) is False or e.st.decide(isnone(attr(x, 'access_mode'))) is True
                    ctx.need(rid, f.qual, left and e.kind == 'next', 'a descriptor class is left out when [%s]' % '; '.join(showfact(a, v) for a, v in e.conds), f.where(), taint=any(tainted(a) for a, v in e.conds))
    n = {}
    for c in ctx.repo.module('access').classes.values():
        v = c.assigns.get('access_mode')
        if isinstance(v, ast.Constant) and v.value is not None:
            n.setdefault(v.value, []).append(c.name)
    for mode, cs in n.items():
        ctx.need(rid, 'access mode ' + mode, len(cs) == 1, 'several descriptor classes for one mode: %s' % cs, 'src/footprints/access.py')


WRITERS = {'FootprintBase.__init__', 'FootprintBase.__setstate__', 'FootprintBase.footprint_setattr', 'FootprintBase.footprint_delattr'}
MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault', '__setitem__', '__delitem__'}


def storage_writes(node):
    def isstore(x):
        return isinstance(x, ast.Attribute) and x.attr == '_attributes'
    for n in ast.walk(node):
        tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in tg:
            for x in ast.walk(t):
                if isstore(x) and (x is t or isinstance(t, (ast.Subscript, ast.Tuple, ast.List))):
                    yield n.lineno
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isstore(n.func.value):
            yield n.lineno


def check_writers(ctx):
    rid = 'C11.writers'
    funcs = list(ctx.repo.all_funcs())
    callers = {}
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                callers.setdefault(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id, set()).add(f.qual)
    for f in funcs:
        ws = list(storage_writes(f.node))
        if not ws:
            ctx.ok(rid, 'rest of the package', 0)
            continue
        allowed, seen, work = True, set(), [f]
        while work:
            g = work.pop()
            if g.qual in seen or g.qual in WRITERS:
                continue
            seen.add(g.qual)
            cs = callers.get(g.name, set())
            if g.name.startswith('_') and not g.name.endswith('__') and cs:
                work.extend(h for h in funcs if h.qual in cs)
            elif g.qual not in WRITERS:
                allowed = False
        ctx.need(rid, f.qual, allowed, 'writes in the storage of an object (lines %s) without authorization' % ws, f.where(ws[0]))


def check_quiet(ctx):
    """No method of an object other than the authorized ones changes a storage, even through a local name."""
    rid = 'C11.writers'
    for name, f in ctx.repo.cls('FootprintBase').methods.items():
        if f.qual in WRITERS or name.startswith('_') and not name.endswith('__') or f.decos and not (f.is_property or f.is_classmethod):
            continue

        def go():
            for base, op in effects(ctx, f, opaque={'Footprint.resolve', 'Footprint.checkonly', 'FootprintBase.footprint_setattr', 'FootprintBase.footprint_delattr', 'FootprintLog.add'}):
                ctx.need(rid, f.qual, not (base[0] == 'attr' and base[2] == '_attributes') and not (op[0] in ('setattr', 'delattr') and op[1] == '_attributes'), 'changes %s' % showchanges([(base, op)]), f.where(), taint=False)
            ctx.ok(rid, f.qual)
        ctx.guard(rid, f.qual, go)


def check_own(ctx):
    """Each object has a storage of its own."""
    rid = 'C11.own'
    for qual, args in (('FootprintBase.__init__', None), ('FootprintBase.__setstate__', {'state': sym('state')})):
        f = ctx.repo.func(qual)

        def go():
            I = ctx.interp(types={SELF: ('inst', 'FootprintBase')}, opaque={'Footprint.resolve', 'FootprintBase.footprint_riseup'})
            st = State()
            a = args
            if a is None:
                a = {'self': SELF, 'args': sym('args'), 'kw': I.alloc(st, 'dict')}
                st.push(a['kw'], ('upd', sym('KW')))
            rows = I.run(f, dict({'self': SELF}, **a), st)
            for s, o in outcomes(rows):
                if o[0] == 'exc':
                    continue
                v = s.attrs.get((SELF, '_attributes'))
                fresh = v is not None and (v[0] == 'ref' or v[0] == 'item' and v[1][0] == 'call' and v[1][1] == 'Footprint.resolve')
                ctx.need(rid, f.qual, fresh, 'the storage of the object is %s' % (show(v) if v else 'not its own'), f.where(), taint=v is not None and tainted(v))
        ctx.guard(rid, qual, go)

    def guess():
        f = ctx.repo.func('Footprint._firstguess')
        I = ctx.interp(types={SELF: ('inst', 'Footprint')}, open_dicts=[DESC])
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'desc': DESC, 'resolvecache': sym('resolvecache')}, memo_state(ctx, 'Footprint'))
        for s, v in returned(rows):
            ctx.need(rid, f.qual, v[0] == 'tup' and v[1][0][0] == 'ref', 'the first guess is not a new dictionary', f.where(), taint=tainted(v))
    ctx.guard(rid, 'Footprint._firstguess', guess)


def run(ctx):
    ctx.rule('C11.mode', 'each operation of each descriptor does to the storage what its access mode allows, or raises AttributeError and changes nothing')
    ctx.rule('C11.auth', 'the storage accepts writes and deletions only with the authorization of the class')
    ctx.rule('C11.install', 'every attribute receives the descriptor of its access mode, with the authorization of the class')
    ctx.rule('C11.table', 'the table of descriptors gives each access mode its class')
    ctx.rule('C11.writers', 'nothing else writes in the storage of an object')
    ctx.rule('C11.own', 'the storage of an object belongs to it alone')
    check_modes(ctx)
    check_auth(ctx)
    ctx.guard('C11.install', 'FootprintBaseMeta.__new__', lambda: check_install(ctx))
    ctx.guard('C11.table', 'access:attr_descriptors', lambda: check_table(ctx))
    ctx.guard('C11.writers', 'package', lambda: check_writers(ctx))
    check_quiet(ctx)
    check_own(ctx)
