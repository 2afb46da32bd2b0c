"""Interprocedural effects: what each function of the package may write on objects that exist before it is called.

Every function is interpreted alone, the other functions of the package being opaque; what it writes, what it gives to the
functions it calls and what it returns are expressed as access paths from its parameters, from globals or from the results of
calls.  The summaries are then composed along the call graph up to a fixpoint."""
import ast

from .interp import Budget
from .state import State
from .terms import sym, show

DEPTH = 6
COPIES = {'copy.deepcopy'}
VIEWS = {'.items', '.values', '.keys', '.get', 'getattr', 'iter', 'reversed', 'next', 'enumerate', 'zip', '.setdefault', '.pop'}
BUILTIN_NAMES = {n for k in (dict, list, set, str, tuple, bytes, object) for n in dir(k)} | {'popleft', 'appendleft', 'match', 'sub', 'search', 'group'}


class Summary:
    def __init__(self, qual):
        self.qual = qual
        self.writes = {}     # (root, path, what) -> line
        self.calls = []      # (callee, {param: {(root, path)}}, line)
        self.rets = set()    # {(root, path)}
        self.fields = {}     # constructors: what the fields hold
        self.failed = None


def cut(path):
    return path[:DEPTH] + ('*',) if len(path) > DEPTH else path


class ModRef:
    def __init__(self, ctx, prepare=None):
        self.prepare = prepare or {}
        self.ctx = ctx
        self.repo = ctx.repo
        self.funcs = {}
        for c in self.repo.classes.values():
            for m in list(c.methods.values()) + [f for p in c.props.values() for f in p if f is not None]:
                self.funcs.setdefault(m.qual, m)
        for m in self.repo.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    q = '%s:%s' % (m.short, n.name)
                    try:
                        self.funcs.setdefault(q, self.repo.func(q))
                    except Exception:
                        pass
        self.sums = {}
        names = {}
        for q in self.funcs:
            if '.' in q and ':' not in q:
                names.setdefault(q.split('.')[-1], []).append(q)
        self.byname = {n: qs[0] for n, qs in names.items() if len(qs) == 1 and not n.startswith('__')}

    # -- one function
    def opaque(self, qual):
        out = set()
        for q, f in self.funcs.items():
            if q != qual and not f.is_property:
                out.add(q)
        return out

    def summary(self, qual):
        s = self.sums.get(qual)
        if s is not None:
            return s
        s = self.sums[qual] = Summary(qual)
        f = self.funcs.get(qual)
        if f is None:
            s.failed = 'not found'
            return s
        for q in (self.opaque(qual), self.opaque(qual) | {x for x, g in self.funcs.items() if g.is_property}):
            try:
                self.analyse(s, f, q)
                s.failed = None
                break
            except Budget as e:
                s.failed = 'budget: %s' % e
            except RecursionError:
                s.failed = 'recursion'
        return s

    def analyse(self, s, f, opaque):
        ps = f.node.args
        names = [a.arg for a in ps.posonlyargs + ps.args + ps.kwonlyargs]
        ty = {}
        if f.cls is not None and names and not f.is_static:
            ty[sym(names[0])] = ('type' if f.is_classmethod or names[0] in ('cls', 'mcs') else 'inst', f.cls.name)
        I = self.ctx.interp(types=ty, opaque=opaque, max_states=8000)
        st = State()
        a = {n: sym(n) for n in names}
        if ps.vararg:
            a[ps.vararg.arg] = sym('*' + ps.vararg.arg)
        if ps.kwarg:
            a[ps.kwarg.arg] = I.alloc(st, 'dict')
            st.push(a[ps.kwarg.arg], ('upd', sym('**' + ps.kwarg.arg)))
        if f.qual in self.prepare:
            st = self.prepare[f.qual](I, st, a)
        rows = I.run(f, a, st)
        for st2, o in rows:
            self.state(s, I, st2, None)
            if o[0] == 'ret':
                s.rets |= self.roots(I, st2, o[1])
        for rec in I.loops.values():
            for ed in rec.edges:
                self.state(s, I, ed.st, rec, ed)

    def state(self, s, I, st, rec, ed=None):
        for b in st.heap:
            ops = st.ops(b) if rec is None else rec.delta(ed, b)
            for op in ops:
                if op[0] in ('lit', 'phi', 'each'):
                    continue
                if b[0] == 'ref':
                    continue
                for r in self.roots(I, st, b):
                    s.writes.setdefault((r[0], r[1], self.what(op)), s.qual)
        for e in (st.events() if rec is None else ed.events()):
            if e.kind in ('setattr', 'delattr') or e.kind == 'call' and e.label == 'setattr':
                if e.recv is not None and e.recv[0] == 'ref':
                    continue
                nm = e.label if e.kind != 'call' else '*'
                if e.recv == sym('self') and e.kind == 'setattr' and s.qual.endswith('.__init__') and e.args:
                    s.fields.setdefault(nm, set()).update(self.roots(I, st, e.args[0]))
                for r in self.roots(I, st, e.recv if e.recv is not None else e.args[0]):
                    s.writes.setdefault((r[0], r[1], ('attr', nm)), s.qual)
            elif e.kind == 'call':
                self.call(s, I, st, e)
                if e.label.endswith('syntax.dictmerge') and e.args:
                    for r in self.merged(I, st, e.args[0]):
                        if r[0][0] not in ('fresh', 'const', 'value'):
                            s.writes.setdefault((r[0], r[1], ('op', 'merge')), s.qual)

    def merged(self, I, st, t):
        """The dictionaries that a merge into t changes: t itself and its sub-dictionaries."""
        if t[0] != 'ref':
            return self.roots(I, st, t)
        out = set()
        for op in st.ops(t):
            if op[0] in ('copy', 'upd') and isinstance(op[1], tuple):
                out |= {(r, cut(p + ('[]',))) for r, p in self.roots(I, st, op[1])}
            elif op[0] == 'set' and op[2][0] != 'glob':
                out |= self.merged(I, st, op[2])
        return out

    @staticmethod
    def what(op):
        return ('op', op[0])

    def callee(self, label):
        if label in self.funcs:
            return label
        if label.startswith('new '):
            c = self.repo.classes.get(label[4:])
            m = c and self.repo.find_method(c, '__init__')
            return m.qual if m else None
        if label.startswith('.') and label[1:] not in BUILTIN_NAMES:
            # untyped receiver: a method name that only one class of the package defines
            return self.byname.get(label[1:])
        return None

    def call(self, s, I, st, e):
        q = self.callee(e.label)
        args = {}
        if q is not None:
            f = self.funcs[q]
            ps = f.node.args
            names = [a.arg for a in ps.posonlyargs + ps.args]
            kwonly = [a.arg for a in ps.kwonlyargs]
            if f.cls is not None and not f.is_static and names:
                if e.recv is not None:
                    args[names[0]] = self.roots(I, st, e.recv)
                elif e.label.startswith('new '):
                    args[names[0]] = {(('new', e.label[4:]), ())}
                names = names[1:]
            for i, v in enumerate(e.args):
                n = names[i] if i < len(names) else '*' + ps.vararg.arg if ps.vararg else None
                if n:
                    args.setdefault(n, set()).update(self.roots(I, st, v))
            for k, v in e.kw:
                n = k if k in names or k in kwonly else '**' + ps.kwarg.arg if ps.kwarg else None
                if n is None:
                    continue
                r = self.roots(I, st, v)
                if n.startswith('**'):
                    r = {(x[0], x[1] + (('[%s]' % k),)) for x in r} if k == '**' else {(x[0], ('~',) + x[1]) if False else x for x in r}
                args.setdefault(n, set()).update(r)
        s.calls.append((q or e.label, args, e.line))

    # -- access paths
    def roots(self, I, st, t, depth=0):
        if depth > 30 or not isinstance(t, tuple) or not t:
            return {(('unknown',), ())}
        h = t[0]
        go = lambda x: self.roots(I, st, x, depth + 1)
        ext = lambda rs, p: {(r, cut(path + (p,))) for r, path in rs}
        if h == 'c':
            return {(('const',), ())}
        if h == 'sym':
            return {(('param', t[1]), ())}
        if h == 'ref':
            return {(('fresh',), ())}
        if h in ('attr', 'attrv'):
            return ext(go(t[1]), '.' + t[2])
        if h in ('item', 'itemv'):
            k = t[2]
            return ext(go(t[1]), '[%s]' % (k[2],) if k[0] == 'c' and isinstance(k[2], str) else '[]')
        if h == 'getd':
            k = t[2]
            return ext(go(t[1]), '[%s]' % (k[2],) if k[0] == 'c' and isinstance(k[2], str) else '[]') | go(t[3])
        if h == 'elem':
            col = st.loopcol.get(t[1])
            if col is None and t[1] in I.loops:
                col = I.loops[t[1]].coll
            if col is None:
                return {(('unknown',), ())}
            c = col
            if c[0] == 'ref':
                return self.contents(I, st, c, depth)
            return ext(go(c), '[]')
        if h == 'at':
            return go(t[1])
        if h == 'view':
            return go(t[2])
        if h == 'popped':
            return ext(go(t[1]), '[]')
        if h == 'phi':
            rec = I.loops.get(t[1])
            if rec is not None and isinstance(t[2], str):
                active = self.__dict__.setdefault('active', [])
                if t in active:
                    return set()            # reached from its own former value
                out = set()
                active.append(t)
                for v in rec.carried.get(t[2], ()):
                    if not contains(v, t):
                        out |= go(v)
                    else:
                        out |= go(subst_out(v, t))
                active.pop()
                return out or {(('unknown',), ())}
            return {(('unknown',), ())}
        if h == 'glob':
            return {(('global', '.'.join(str(x) for x in t[1:])), ())}
        if h == 'cls':
            return {(('class', t[1]), ())}
        if h == 'call':
            lab = t[1]
            q = self.callee(lab)
            if q is not None:
                if lab.startswith('new '):
                    return {(('new', lab[4:]), ())}
                return self.apply_ret(I, st, q, t, go)
            if lab in COPIES:
                return {(('fresh',), ())}
            if lab in VIEWS:
                if t[2] is not None:
                    return ext(go(t[2]), '[]') if lab != '.items' else go(t[2])
                if t[3]:
                    return ext(go(t[3][0]), '[]') if lab in ('getattr', 'next') else go(t[3][0])
            return {(('ext', lab), ())}
        if h == 'unk':
            return {(('unknown',), ())}
        if h in ('tup',):
            return {(('fresh',), ())}
        return {(('value',), ())}

    def contents(self, I, st, ref, depth):
        out = set()
        for op in st.ops(ref):
            if op[0] in ('app', 'add', 'appl'):
                out |= self.roots(I, st, op[1], depth + 1)
            elif op[0] in ('ext', 'upd') and isinstance(op[1], tuple):
                out |= {(r, cut(p + ('[]',))) for r, p in self.roots(I, st, op[1], depth + 1)}
            elif op[0] == 'set':
                out |= self.roots(I, st, op[1], depth + 1)
            elif op[0] == 'each':
                for e in op[2].edges:
                    for o in op[2].delta(e, ref):
                        if o[0] in ('app', 'add', 'appl'):
                            out |= self.roots(I, e.st, o[1], depth + 1)
        return out or {(('fresh',), ())}

    def apply_ret(self, I, st, q, t, go):
        """Where the result of a call of the package comes from."""
        f = self.funcs[q]
        sub = self.sums.get(q)
        if sub is None:
            sub = self.summary(q)
        out = set()
        ps = f.node.args
        names = [a.arg for a in ps.posonlyargs + ps.args]
        bound = {}
        if f.cls is not None and not f.is_static and names:
            bound[names[0]] = t[2]
            names = names[1:]
        for i, v in enumerate(t[3]):
            if i < len(names):
                bound[names[i]] = v
        for k, v in t[4]:
            bound[k] = v
        for r, p in sub.rets:
            if r[0] == 'param':
                v = bound.get(r[1])
                if v is None:
                    out.add((('result', q), p))
                else:
                    out |= {(r2, cut(p2 + p)) for r2, p2 in go(v)}
            else:
                out.add((r, p))
        return out or {(('result', q), ())}

    # -- composition
    def inside(self, w):
        """What is written within an object that has just been built: what its constructor put there."""
        (r, p, what) = w
        if r[0] != 'new':
            return [w]
        if not p or not p[0].startswith('.'):
            return []
        q = self.callee('new ' + r[1])
        if q is None:
            return []
        out = []
        for r2, p2 in self.summary(q).fields.get(p[0][1:], ()):
            if r2[0] == 'param':
                r2 = ('given', q, r2[1])
            out.extend(self.inside((r2, cut(p2 + p[1:]), what)))
        return out

    def effects(self, qual):
        """{(root, path, what): chain of functions} of everything the function may write, calls of the package included."""
        todo = [qual]
        reach = []
        while todo:
            q = todo.pop()
            if q in reach:
                continue
            reach.append(q)
            for c, _, _ in self.summary(q).calls:
                if c in self.funcs and c not in reach:
                    todo.append(c)
        eff = {q: {w: (q,) for w in self.summary(q).writes} for q in reach}
        changed = True
        while changed:
            changed = False
            for q in reach:
                for c, args, line in self.summary(q).calls:
                    if c not in eff:
                        continue
                    for (r, p, what), chain in list(eff[c].items()):
                        if r[0] == 'param':
                            new = {(r2, cut(p2 + p), what) for r2, p2 in args.get(r[1], ())}
                        elif r[0] in ('fresh', 'const', 'value'):
                            continue
                        else:
                            new = {(r, p, what)}
                        for w in {x for w in new for x in self.inside(w)}:
                            if w[0][0] in ('fresh', 'const', 'value'):
                                continue
                            if w not in eff[q]:
                                eff[q][w] = (q,) + chain
                                changed = True
        self.reach = reach
        return eff[qual]


def contains(v, t):
    stack = [v]
    while stack:
        x = stack.pop()
        if x == t:
            return True
        if isinstance(x, tuple):
            stack.extend(x)
    return False


def subst_out(v, t):
    """A value that is reached from the former one: its own root is what matters."""
    if v == t:
        return ('c', 'NoneType', None)
    return tuple(subst_out(x, t) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v
