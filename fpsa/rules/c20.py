"""Frozen priority orders are snapshots.

The values stored in, and taken from, the recorded orders are followed as references: a record is a fresh copy of the whole
current list, the list restored is a fresh copy of the record; an effect analysis of the package shows that nothing else
writes the records.
"""
from .c19 import *
from .purity import modref, forbid

TECHNIQUE = 'static analysis: alias and content analysis of the recorded orders, interprocedural effect analysis of who writes them'
MINIMA = {'C20.freeze': 2, 'C20.restore': 3, 'C20.apart': 10, 'C20.writes': 8}
F = attr(SELF, '_freeze')
S = {SELF: ('inst', 'PrioritySet')}


def low(x):
    return call('.lower', x)


def fresh_copy(I, s, v, of, n):
    """v is a list of its own holding the n-first-operations content of `of`: (good, what it is)."""
    if v[0] == 'call' and v[1] == 'tuple':
        try:
            o = canon(s, read(I, s, v[3][0]))
        except Unclear as e:
            return None, str(e)
        return o == Order(of), repr(o)
    if v[0] != 'ref':
        return (None if tainted(v) else False), show(v)
    try:
        o = canon(s, order(I, s, v))
    except Unclear as e:
        return None, str(e)
    return o == Order(of), repr(o)


def state(*fresh):
    st = State()
    return st


def check_freeze(ctx):
    rid = 'C20.freeze'
    f = ctx.repo.func('PrioritySet.freeze')
    p = f.node.args.args[1].arg
    T = low(sym(p))

    def go():
        I = ctx.interp(types=S)
        _, rows = execute(ctx, I, f.qual, {'self': SELF, p: sym(p)})
        for s, o in outcomes(rows):
            dflt = s.facts.get(mk_eq(T, C('default')))
            ops = []
            for op in s.ops(F):
                src = op[1][1] if op[0] == 'upd' and op[1][0] == 'at' else op[1] if op[0] == 'upd' else None
                ops.extend([x for x in s.ops(src) if x[0] != 'lit'] if src and src[0] == 'ref' else [op])
            if o[0] == 'exc':
                ctx.need(rid, f.qual, dflt is True, 'refuses a name when [%s]' % conds(s), f.where(), taint=o[1].name is None)
                ctx.need(rid, f.qual, not ops and not s.ops(L), 'changes the records before it fails', f.where())
                continue
            ctx.need(rid, f.qual, dflt is False, 'accepts to record the order under the default name', f.where())
            good = len(ops) == 1 and ops[0][0] == 'set' and ops[0][1] == T
            ctx.need(rid, f.qual, good, 'the records change by: %s' % [tuple(show(x) if isinstance(x, tuple) else x for x in op) for op in ops], f.where(), taint=any(tainted(op[1]) for op in ops if len(op) > 1))
            if good:
                ok, what = fresh_copy(I, s, ops[0][2], L, 0)
                if ok is None:
                    ctx.undec(rid, f.qual, what)
                else:
                    ctx.need(rid, f.qual, ok, 'the record is %s, not a copy of the whole order' % what, f.where())
                ctx.need(rid, f.qual, s.attrs.get((SELF, '_levels'), L) != ops[0][2], 'the record is the list of the set itself', f.where())
            ctx.need(rid, f.qual, not s.ops(L), 'the order changes: %s' % showchanges([(L, x) for x in s.ops(L)]), f.where())
    ctx.guard(rid, f.qual, go)


def restored(ctx, rid, f, args, name):
    """After the call the order is a copy of the one recorded under the name, each level having its object."""
    REC = item(F, name)

    def go():
        I = ctx.interp(types=S)
        _, rows = execute(ctx, I, f.qual, args)
        n = 0
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                missing = s.facts.get(isin(name, F)) is False
                ctx.need(rid, f.qual, missing or o[1].call is not None, 'fails with %s when [%s]' % (o[1], conds(s)), f.where(), taint=o[1].name is None)
                ch = [c for c in changes(s) if c[0] in (L, F, D) or c[1][0] == 'setattr']
                ctx.need(rid, f.qual, not missing or not ch, 'changes the set before it fails: %s' % showchanges(ch), f.where())
                continue
            n += 1
            ctx.need(rid, f.qual, not s.ops(F), 'changes the records', f.where())
            v = s.attrs.get((SELF, '_levels'), L)
            if v == L:
                # the same list, with another content
                try:
                    got = canon(s, order(I, s, L)) if s.ops(L) else Order(L)
                except Unclear as e:
                    ctx.undec(rid, f.qual, str(e))
                    continue
                ctx.need(rid, f.qual, got == Order(REC), 'the order becomes %s' % got, f.where())
            else:
                ok, what = fresh_copy(I, s, v, REC, 0)
                if ok is None:
                    ctx.undec(rid, f.qual, what)
                    continue
                ctx.need(rid, f.qual, ok, 'the order becomes %s, not a copy of the one recorded' % what, f.where())
                ctx.need(rid, f.qual, v[0] == 'ref' and v[2] == 'list', 'the order is not a list any more', f.where())
            s1 = s.assume(isin(K, REC), True)
            for s3, has, x in I.lookup(s1, D, K):
                if s3.facts.get(isin(K, REC)) is False:
                    continue
                ok = has and (x == item(D, K) or x[0] == 'call' and x[1] == 'new PriorityLevel' and dict(x[4]) == {'tagname': K, 'pset': SELF})
                ctx.need(rid, f.qual, ok, 'the object of a restored level is %s when [%s]' % (show(x) if has else 'missing', conds(s3)), f.where(), taint=has and tainted(x) or any(tainted(a) for a, _ in s3.conds()))
        ctx.need(rid, f.qual, n > 0, 'never restores anything', f.where())
    ctx.guard(rid, f.qual, go)


def check_init(ctx):
    rid = 'C20.freeze'
    f = ctx.repo.func('PrioritySet.__init__')

    def go():
        p = f.node.args.args[1].arg
        I = ctx.interp(types=S, opaque={'PrioritySet.extend'})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, p: sym(p)})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, o[1].call is not None, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            lv, fr = s.attrs.get((SELF, '_levels')), s.attrs.get((SELF, '_freeze'))
            ctx.need(rid, f.qual, lv is not None and fr is not None, 'the order or the records are not set', f.where())
            if lv is None or fr is None:
                continue
            evs = s.events()
            added = [i for i, e in enumerate(evs) if e.kind == 'call' and e.label.endswith('.extend')]
            for s2, has, v in I.lookup(s, fr, C('default')):
                ctx.need(rid, f.qual, has, 'the initial order is not recorded', f.where())
                if not has:
                    continue
                # extend works on the list itself: the copy must be made once it is complete
                ctx.need(rid, f.qual, v != lv, 'the record of the initial order is the list of the set itself', f.where())
                cp = s.ops(v) if v[0] == 'ref' else ()
                src = cp[0][1] if len(cp) == 1 and cp[0][0] == 'copy' else v[3][0] if v[0] == 'call' and v[1] in ('tuple', 'list') and v[3] else None
                if src is not None and src[0] == 'at':
                    src = src[1]
                ctx.need(rid, f.qual, v == lv or src == lv, 'the initial order recorded is %s' % show(v), f.where(), taint=src is None)
                # the record is made after the levels are added
                at = [i for i, e in enumerate(evs) if e.kind == 'setattr' and e.label == '_freeze']
                ctx.need(rid, f.qual, not added or not at or max(added) < min(at), 'the initial order is recorded before the levels are added', f.where())
    ctx.guard(rid, f.qual, go)


def check_apart(ctx):
    """No operation leaves the order and a record, or two records, sharing one list; none is handed out."""
    rid = 'C20.apart'
    cls = ctx.repo.cls('PrioritySet')
    for m in sorted(ctx.repo.methods(cls), key=lambda m: m.qual) if hasattr(ctx.repo, 'methods') else sorted(cls.methods.values(), key=lambda m: m.qual):
        if m.name == '__init__':
            continue

        def go(m=m):
            ps = m.node.args
            args = {a.arg: sym(a.arg) for a in ps.args + ps.kwonlyargs}
            for v in (ps.vararg, ps.kwarg):
                if v:
                    args[v.arg] = sym(v.arg)
            I = ctx.interp(types=S)
            _, rows = execute(ctx, I, m.qual, args)
            for s, o in outcomes(rows):
                if o[0] != 'exc':
                    leak = o in (L, F) and m.name != '__iter__' or o[0] == 'item' and o[1] == F or o[0] == 'ref' and o in (s.attrs.get((SELF, '_levels')), s.attrs.get((SELF, '_freeze')))
                    ctx.need(rid, m.qual, not leak, 'gives %s itself' % show(o), m.where())
                v = s.attrs.get((SELF, '_levels'), L)
                ctx.need(rid, m.qual, not (v[0] == 'item' and v[1] == F), 'the order becomes the record itself', m.where())
                for op in s.ops(F):
                    if op[0] in ('set', 'setdef'):
                        ctx.need(rid, m.qual, op[2] not in (v, L) and not (op[2][0] == 'item' and op[2][1] == F), 'a record becomes %s itself' % show(op[2]), m.where())
                for b in s.heap:
                    if b[0] == 'item' and b[1] == F and s.ops(b):
                        ctx.need(rid, m.qual, False, 'changes a record: %s' % showchanges([(b, x) for x in s.ops(b)]), m.where())
        ctx.guard(rid, m.qual, go)


ALLOWED = {'PrioritySet.freeze', 'PrioritySet.__init__'}


def check_writes(ctx):
    rid = 'C20.writes'
    allowed = private_to(ctx.repo, ALLOWED)
    for f in sorted(ctx.repo.all_funcs(), key=lambda f: f.qual):
        if f.qual in allowed:
            continue
        # a write below an attribute of this name, whoever holds it, in the function itself
        bad = []
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]):
                    if below(t):
                        bad.append(x)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in WRITERS and below(x.func.value):
                bad.append(x)
        ctx.need(rid, f.qual, not bad, 'writes the records: %s' % '; '.join(ast.unparse(x)[:80] for x in bad), '%s:%s' % (f.module.rel, bad[0].lineno if bad else f.node.lineno))


WRITERS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', '__setitem__', '__delitem__'}


def below(t):
    while True:
        if isinstance(t, ast.Attribute):
            if t.attr == '_freeze':
                return True
            t = t.value
        elif isinstance(t, ast.Subscript):
            t = t.value
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ('get', 'setdefault', 'values', '__getitem__'):
            t = t.func.value
        else:
            return False


def run(ctx):
    ctx.rule('C20.freeze', 'a record is a copy of the whole current order, under the given name; the default name keeps the initial order')
    ctx.rule('C20.restore', 'restoring gives the set a copy of the recorded order, and each of its levels an object')
    ctx.rule('C20.apart', 'the order and the records never share a list, and none is handed out')
    ctx.rule('C20.writes', 'only freeze and the constructor write the records')
    check_freeze(ctx)
    check_init(ctx)
    f = ctx.repo.func('PrioritySet.restore')
    p = f.node.args.args[1].arg
    restored(ctx, 'C20.restore', f, {'self': SELF, p: sym(p)}, low(sym(p)))
    restored(ctx, 'C20.restore', ctx.repo.func('PrioritySet.reset'), {'self': SELF}, C('default'))
    f = ctx.repo.func('PrioritySet.freezed')

    def go():
        I = ctx.interp(types=S)
        _, rows = execute(ctx, I, f.qual, {'self': SELF})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need('C20.restore', f.qual, False, 'raises %s' % (o[1],), f.where())
                continue
            for s2, b in I.member(s, K, o):
                ctx.need('C20.restore', f.qual, b == s2.decide(isin(K, F)), 'a recorded name is %slisted' % ('' if b else 'not '), f.where(), taint=tainted(o))
            t = o
            while t[0] == 'call' and t[1] in ('sorted', 'list', 'tuple') and t[3]:
                t = t[3][0]
            ctx.need('C20.restore', f.qual, t != F or o != F, 'gives the records themselves', f.where())
    ctx.guard('C20.restore', f.qual, go)
    check_apart(ctx)
    check_writes(ctx)
