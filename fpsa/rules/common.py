"""Shared set-ups of the rules: symbols of the analysed objects and helpers to query final containers."""
import ast

from ..spec import *     # noqa: F401,F403
from ..interp import Exc
from ..terms import subst
from ..state import subst_deep

SELF = sym('self')
DESC = sym('desc')
FP = attr(SELF, '_fp')
ATTRS = item(FP, 'attr')
K = sym('K')


def decl(k, field, base=ATTRS):
    """Declaration field of attribute k."""
    return item(item(base, k), field)


def memo_state(ctx, clsname, selft=SELF, st=None):
    """State where the memo fields set to None by the constructor are still empty."""
    st = st or State()
    init = ctx.repo.find_method(ctx.repo.cls(clsname), '__init__')
    seen, work = set(), [init]
    while work:
        f = work.pop()
        if f is None or f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        st.attrs[(selft, t.attr)] = NONE
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr.startswith('_'):
                work.append(ctx.repo.find_method(ctx.repo.cls(clsname), n.func.attr))
    return st


def execute(ctx, I, qual, args, st=None):
    f = ctx.repo.func(qual)
    return f, I.run(f, args, st)


def returned(rows):
    return [(s, o[1]) for s, o in rows if o[0] == 'ret']


def outcomes(rows):
    """[(state, term | ('exc', Exc))]"""
    return [(s, o[1] if o[0] == 'ret' else ('exc', o[1])) for s, o in rows]


def keyed(I, rows, pick, key=K, absent=('absent',), coll=None):
    """Value of a returned mapping at a generic key: [(state, value | absent)]."""
    out = []
    for s, v in rows:
        for s2, hasit, val in I.lookup(s, pick(v), key):
            out.append((s2, val if hasit else absent))
    return out


def members(I, rows, pick, x=K):
    out = []
    for s, v in rows:
        for s2, b in I.member(s, x, pick(v)):
            out.append((s2, TRUE if b else FALSE))
    return out


def elem_in(s, t, coll):
    return t[0] == 'elem' and s.loopcol.get(t[1]) == coll or s.facts.get(('in', t, coll)) is True


def item_of(got, base):
    """got == base[x] -> x"""
    if got[0] == 'item' and got[1] == base:
        return got[2]
    return None


E0 = ('elem', 0)


def sequences(I, s, t):
    """What a built sequence (or set) contains: [(state, ('unroll', terms) | ('gen', collection, [(value of E0, conditions)]))]."""
    out = []
    for s2, p in I.iter_plan(s, t):
        if p[0] == 'unroll':
            out.append((s2, p))
            continue
        rows = []
        for mk, conds in p[2]:
            cs = []
            for a, v, lid0 in conds:
                cs.append((subst_deep(a, lambda x: (x[0], 0) + x[2:] if len(x) > 1 and x[0] in ('elem', 'idx') and x[1] == lid0 else None), v))
            rows.append((mk(0), cs))
        out.append((s2, ('gen', p[1], rows)))
    return out


def check_seq(ctx, rid, name, I, s, t, coll, want, where, clear=()):
    """The sequence t holds, for each element E0 of coll, the values want(q) gives (a list)."""
    for s2, p in sequences(I, s, t):
        if p[0] != 'gen':
            ctx.undec(rid, name, 'not a generated sequence: %s' % (p,))
            continue
        good = coll(p[1]) if callable(coll) else same(s2, strip_view(p[1]), coll)
        if not good:
            ctx.need(rid, name, False, 'is built from %s' % show(p[1]), where, taint=good is None or tainted(p[1]))
            continue
        s3 = s2.copy()
        s3.loopcol[0] = p[1]

        def joint(q):
            got = []
            for v, cs in p[2]:
                if all(q(a) == w for a, w in cs):
                    got.append(v)
            return tuple(got), want(q)
        for s4, (got, w) in completions(s3, joint):
            if w is None:
                continue
            ok = len(got) == len(w) and all(b(a) if callable(b) else same(s4, a, b) for a, b in zip(got, w))
            if ok:
                ctx.ok(rid, name)
                continue
            tnt = any(tainted(hide(g, clear)) for g in got) or any(tainted(hide(a, clear)) for v, cs in p[2] for a, _ in cs)
            facts = '; '.join(showfact(a, s4.facts[a]) for a in s4.facts if a not in s2.facts)
            ctx.need(rid, name, False, 'an element with [%s] gives %s, required %s' % (facts, [show(g) for g in got], [x.__doc__ if callable(x) else show(x) for x in w]), where, taint=tnt)


def strip_at(t):
    """A term without the moments its containers are looked at."""
    return subst_deep(t, lambda x: strip_at(x[1]) if x[0] == 'at' else None)


def strip_view(c):
    while True:
        if c[0] == 'view' and c[1] == 'keys':
            c = c[2]
        elif c[0] == 'call' and c[1] in ('list', 'tuple', 'iter', 'set') and len(c[3]) == 1:
            c = c[3][0]
        else:
            return c


def unver(t):
    """Forgets which of several identical calls a term comes from."""
    return subst_deep(t, lambda x: ('call', x[1], unver(x[2]) if x[2] else x[2], unver(x[3]), unver(x[4]), 0) if len(x) == 6 and x[0] == 'call' and x[5] != 0 else None)


def simple(ctx, rid, qual, args, want, types=None, opaque=(), st=None, clear=()):
    f = ctx.repo.func(qual)

    def go():
        I = ctx.interp(types=types or {}, opaque=set(opaque))
        _, rows = execute(ctx, I, qual, args, st)
        ctx.conform(rid, f.qual, outcomes(rows), lambda q: want(q), f.where(), clear=clear)
    ctx.guard(rid, f.qual, go)


def changes(s):
    """Everything written on a path on what existed before: [(base, op)]."""
    out = []
    for b in s.heap:
        if b[0] == 'ref':
            continue
        for op in s.ops(b):
            if op[0] not in ('lit', 'phi'):
                out.append((b, op))
    for e in s.events():
        if e.kind in ('setattr', 'delattr') and e.recv[0] != 'ref':
            out.append((e.recv, (e.kind, e.label) + tuple(e.args)))
        elif e.kind == 'call' and e.label == 'setattr':
            out.append((e.recv, ('setattr', '*') + tuple(e.args)))
        elif e.kind == 'loop':
            out.extend(loop_changes(e.label))
    return out


def loop_changes(rec):
    out = []
    for ed in rec.edges:
        for b in ed.st.heap:
            if b[0] != 'ref':
                out.extend((b, op) for op in rec.delta(ed, b) if op[0] not in ('lit', 'phi'))
        for e in ed.events():
            if e.kind in ('setattr', 'delattr') and e.recv[0] != 'ref':
                out.append((e.recv, (e.kind, e.label) + tuple(e.args)))
            elif e.kind == 'call' and e.label == 'setattr':
                out.append((e.recv, ('setattr', '*') + tuple(e.args)))
    return out


def effects(ctx, f, opaque=(), types=None, args=None, st=None, **kw):
    """Everything a function may write on what existed before it was called: [(base, op)], over all its paths and loops."""
    ps = f.node.args
    names = [a.arg for a in ps.posonlyargs + ps.args + ps.kwonlyargs]
    ty = dict(types or {})
    if f.cls is not None and names and not f.is_static:
        ty[sym(names[0])] = ('type' if f.is_classmethod or names[0] == 'cls' else 'inst', f.cls.name)
    I = ctx.interp(types=ty, opaque=set(opaque), **kw)
    st = st or State()
    a = {n: sym(n) for n in names}
    if ps.vararg:
        a[ps.vararg.arg] = sym(ps.vararg.arg)
    if ps.kwarg:
        a[ps.kwarg.arg] = I.alloc(st, 'dict')
        st.push(a[ps.kwarg.arg], ('upd', sym(ps.kwarg.arg)))
    a.update(args or {})
    out = []
    for s, o in I.run(f, a, st):
        out.extend(changes(s))
    for rec in I.loops.values():
        out.extend(loop_changes(rec))
    seen, res = set(), []
    for b, op in out:
        k = (b, op[:2] if len(op) > 1 and isinstance(op[1], (tuple, str)) else op[:1])
        if k not in seen:
            seen.add(k)
            res.append((b, op))
    return res


def showchanges(ch):
    return ', '.join('%s %s' % (show(b), ' '.join(x if isinstance(x, str) else show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in op)) for b, op in ch) or 'nothing'


def private_to(repo, allowed):
    """The functions of this set, and the private ones that nothing else refers to."""
    funcs = list(repo.all_funcs())
    users = {}
    for f in funcs:
        for n in ast.walk(f.node):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm is not None:
                users.setdefault(nm, set()).add(f.qual)
    out = set(allowed)
    while True:
        more = {f.qual for f in funcs if f.qual not in out and f.name.startswith('_') and not f.name.endswith('__') and users.get(f.name) and users[f.name] - {f.qual} <= out}
        if not more:
            return out
        out |= more


class NoValue(Exception):
    pass


def worth(t, env):
    """The constant that the string expression t is worth when the terms of env have the given values (NoValue when not known)."""
    if t in env:
        return env[t]
    if is_c(t):
        return cval(t)
    if t[0] == 'tup':
        return tuple(worth(x, env) for x in t[1])
    if t[0] == 'strcat':
        return ''.join(worth(x, env) for x in t[1])
    if t[0] == 'slice' and len(t) == 4:
        return worth(t[1], env)[worth(t[2], env):worth(t[3], env)]
    try:
        if t[0] == 'item':
            return worth(t[1], env)[worth(t[2], env)]
        if t[0] == 'bin' and t[1] in '+-*':
            a, b = worth(t[2], env), worth(t[3], env)
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
        if t[0] == 'call' and not t[4]:
            args = [worth(x, env) for x in t[3]]
            if t[1] == 'after1':
                return args[0].partition(args[1])[2]
            if t[1] == 'slice':
                return args[0][args[1]:args[2]:args[3] if len(args) > 3 else None]
            if t[1] == 'len':
                return len(args[0])
            if t[1] in ('.split', '.rsplit', '.partition', '.rpartition', '.removeprefix', '.removesuffix', '.replace', '.lstrip', '.rstrip', '.strip',
                        '.upper', '.lower', '.find', '.index', '.rfind', '.join', '.startswith', '.endswith', '.title', '.capitalize'):
                return getattr(worth(t[2], env), t[1][1:])(*args)
    except NoValue:
        raise
    except Exception:
        raise NoValue
    raise NoValue
