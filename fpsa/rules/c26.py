"""Protected containers behave as hashable values.

Well-definedness modulo equality: the code of each hash is evaluated over an abstract domain which tells, for every value,
whether equal containers give equal values (`eqv`), whether the order of its iteration is fixed by equality (`order`) and what it
holds of the container (`content`). The hash must be a value equal containers share, of a hashable kind. The same evaluation
gives the content and freshness of the items views and of the export of sets. Regular expressions: value analysis.
"""
import ast
import builtins

from .common import *

TECHNIQUE = 'static analysis: abstract interpretation of the hash and view methods (dependence on equality, order, content and freshness), class-surface analysis, value analysis of the regular-expression wrapper'
MINIMA = {'C26.hash': 3, 'C26.plain': 5, 'C26.items': 3, 'C26.export': 2, 'C26.regex': 3}
PLAIN = {'FPDict': 'dict', 'FPList': 'list', 'FPSet': 'set', 'FPStr': 'str', 'FPTuple': 'tuple'}
ORDERED = {'list', 'tuple', 'str'}
HASHABLE = {'tuple', 'frozenset', 'int', 'elem', 'str', 'bool', 'other'}
# hooks the language looks up beside the methods of the plain type
HOOKS = {'__copy__', '__deepcopy__', '__missing__', '__bool__', '__getattr__', '__getnewargs__', '__getnewargs_ex__', '__setstate__', '__fspath__', '__index__', '__int__', '__float__', '__call__', '__iter__', '__next__', '__set__', '__get__', '__del__', '__instancecheck__'}


class Unknown(Exception):
    pass


class V:
    """eqv: equal containers give equal values; order: 'fix' | 'free' | None (not iterable); content: 'self' | 'elem' | None.
    raises: kinds of failures that contents a plain type accepts can provoke; what: first cause of a loss of eqv."""
    def __init__(self, eqv, order=None, type='other', content=None, fresh=False, elem=None, what=None):
        self.eqv, self.order, self.type, self.content, self.fresh, self.elem, self.what = eqv, order, type, content, fresh, elem, what

    def but(self, **kw):
        v = V(**self.__dict__)
        v.__dict__.update(kw)
        return v

    def __repr__(self):
        return '%s %s%s' % ('fresh' if self.fresh else 'own', self.type, ' of all the items' if self.content == 'self' else '')


CONST = V(True)
ELEM = V(True, None, 'elem', 'elem')


def bad(what):
    return V(False, None, what=what)


def worst(*vs):
    for v in vs:
        if not v.eqv:
            return v
    return None


class Eval:
    """Evaluation of one method of a protected class."""
    def __init__(self, ctx, cls, plain):
        self.ctx, self.cls, self.plain = ctx, cls, plain
        self.me = V(True, 'fix' if plain in ORDERED else 'free', plain, 'self')
        if plain == 'dict':
            self.me = self.me.but(content='keys')
        self.depth = 0
        self.failures = []      # uncaught failures content may provoke, beside unhashable items
        self.caught = 0
        self.lines = set()

    def method(self, name):
        m = self.ctx.repo.find_method(self.cls, name)
        return m

    def call(self, func, args, kw=None):
        a = func.node.args
        if a.vararg or a.kwarg or kw or func.node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') for d in func.node.decorator_list):
            raise Unknown('call of %s' % func.qual)
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        dflts = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names:
            if n not in env:
                if n not in dflts:
                    raise Unknown('argument %s of %s' % (n, func.qual))
                env[n] = self.expr(dflts[n], {})
        self.depth += 1
        if self.depth > 20:
            raise Unknown('deep recursion')
        rets = []
        falls = self.block(func.node.body, env, rets, [])
        self.depth -= 1
        if falls:
            rets.append(V(True, type='none'))
        return self.join(rets)

    def join(self, vs):
        out = vs[0] if vs else V(True, type='none')
        for v in vs[1:]:
            w = worst(out, v)
            if w is not None:
                out = w.but(order=out.order if out.order == v.order else 'free' if out.order and v.order else None, type=out.type if out.type == v.type else 'mixed(%s,%s)' % (out.type, v.type),
                            content=out.content if out.content == v.content else None, fresh=out.fresh and v.fresh)
                continue
            out = V(True, out.order if out.order == v.order else 'free' if out.order and v.order else None,
                    out.type if out.type == v.type else 'mixed(%s,%s)' % (out.type, v.type), out.content if out.content == v.content else None, out.fresh and v.fresh)
        return out

    # statements; True when the end of the block can be reached
    def block(self, body, env, rets, loops):
        for n in body:
            self.lines.add(n.lineno)
            if isinstance(n, ast.Return):
                v = self.expr(n.value, env) if n.value is not None else V(True, type='none')
                w = worst(*loops)
                if w is not None:
                    v = w
                rets.append(v)
                return False
            if isinstance(n, (ast.Expr,)):
                if isinstance(n.value, ast.Constant):
                    continue
                self.effect(n.value, env, loops)
            elif isinstance(n, ast.Assign):
                v = self.expr(n.value, env)
                for t in n.targets:
                    self.bind(t, v, env, loops)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    self.bind(n.target, self.expr(n.value, env), env, loops)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                v = self.expr(n.value, env)
                old = env.get(n.target.id) or bad('an unset name')
                if worst(*loops) is not None and not (isinstance(n.op, (ast.BitXor, ast.Add, ast.Mult, ast.BitOr, ast.BitAnd)) and old.type in ('int', 'const', 'other') and not any(isinstance(x, ast.Name) and x.id == n.target.id for x in ast.walk(n.value))):
                    env[n.target.id] = worst(*loops)
                else:
                    env[n.target.id] = worst(old, v) or V(True, old.order, old.type, None, old.fresh)
            elif isinstance(n, ast.If):
                t = self.expr(n.test, env)
                if not t.eqv:
                    loops = loops + [t]
                e1, e2 = dict(env), dict(env)
                f1 = self.block(n.body, e1, rets, loops)
                f2 = self.block(n.orelse, e2, rets, loops)
                if not f1 and not f2:
                    return False
                self.merge(env, [e for e, f in ((e1, f1), (e2, f2)) if f])
            elif isinstance(n, ast.For):
                it = self.expr(n.iter, env)
                if it.order is None:
                    raise Unknown('loop over %s' % ast.unparse(n.iter))
                inner = loops
                if it.order == 'free':
                    inner = loops + [bad('the order of iteration of an unordered container')]
                before = dict(env)
                for _ in range(3):
                    e1 = dict(env)
                    self.bind(n.target, self.element(it), e1, [])
                    r1 = []
                    f1 = self.block(n.body, e1, r1, inner)
                    rets.extend(r1)
                    self.merge(env, [dict(env), e1] if f1 else [dict(env)])
                # a container which gets every item once
                if it.content in ('self', 'items') and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in n.body for x in ast.walk(b)):
                    for x, was in before.items():
                        if was.content == 'none' and was.fresh and self.fills(n, x):
                            env[x] = env[x].but(content=it.content)
                if n.orelse and not self.block(n.orelse, env, rets, loops):
                    return False
            elif isinstance(n, ast.Try):
                names = set()
                for h in n.handlers:
                    for t in ([None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        names.add('*' if t is None else ast.unparse(t))
                before = len(self.failures)
                e0 = dict(env)
                f0 = self.block(n.body + n.orelse, e0, rets, loops)
                mine = self.failures[before:]
                if names & {'*', 'Exception', 'BaseException', 'TypeError'}:
                    del self.failures[before:]
                ends = [(e0, f0)]
                for h in n.handlers:
                    e1 = dict(env)
                    if h.name:
                        e1[h.name] = bad('an exception')
                    # the failure itself depends on the content only
                    ends.append((e1, self.block(h.body, e1, rets, loops)))
                self.caught += len(mine)
                ends = [e for e, f in ends if f]
                if not ends:
                    return False
                self.merge(env, ends)
                if n.finalbody and not self.block(n.finalbody, env, rets, loops):
                    return False
            elif isinstance(n, ast.Raise):
                if n.exc is not None and 'TypeError' in ast.unparse(n.exc):
                    self.failures.append('raises %s' % ast.unparse(n.exc))
                    return False
                self.failures.append('raises')
                return False
            elif isinstance(n, ast.Pass):
                pass
            elif isinstance(n, (ast.Assert, ast.Delete, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    continue
                raise Unknown(ast.unparse(n)[:60])
            else:
                raise Unknown(ast.unparse(n)[:60])
        return True

    def merge(self, env, ends):
        for k in {k for e in ends for k in e}:
            vs = [e[k] for e in ends if k in e]
            env[k] = vs[0] if all(v is vs[0] for v in vs) else self.join(vs)

    def bind(self, t, v, env, loops):
        w = worst(*loops)
        if isinstance(t, ast.Name):
            env[t.id] = w if w is not None and v.content != 'elem' else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, self.element(v) if v.order else v.but(content='part') if v.eqv else v, env, loops)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and env.get(t.value.id) is self.me:
            pass        # what is read back is told by the attribute
        else:
            raise Unknown('assignment to %s' % ast.unparse(t))

    def fills(self, loop, name):
        uses = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == name]
        adds = [b for b in loop.body if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr in ('append', 'add')
                and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == name and len(b.value.args) == 1 and ast.unparse(b.value.args[0]).strip('()') == ast.unparse(loop.target).strip('()')]
        again = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in {y.id for y in ast.walk(loop.target) if isinstance(y, ast.Name)}]
        return len(uses) == 1 and len(adds) == 1 and not again

    def element(self, v):
        if v.elem is not None:
            return v.elem
        if v.content in ('self', 'keys', 'items'):
            return V(True, 'fix' if v.content == 'items' else None, 'tuple' if v.content == 'items' else 'elem', 'elem')
        return V(v.eqv or v.order is not None, None, 'elem', None, what=v.what)

    def effect(self, n, env, loops):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in env and env[n.func.value.id].fresh:
            c = env[n.func.value.id]
            if n.func.attr in ('append', 'add', 'insert') and len(n.args) >= 1:
                v = self.expr(n.args[-1], env)
                env[n.func.value.id] = self.grown(c, v, loops, v.content == 'elem')
                return
            if n.func.attr in ('extend', 'update') and len(n.args) == 1:
                v = self.expr(n.args[0], env)
                if v.order is None:
                    raise Unknown(ast.unparse(n))
                env[n.func.value.id] = self.grown(c, self.element(v), loops + ([v.but(eqv=False, what='the order of iteration of an unordered container')] if v.order == 'free' else []), v.content in ('self', 'items'))
                return
            if n.func.attr == 'sort' and not n.args and not n.keywords:
                self.failures.append('sorts its content, which may not be comparable')
                env[n.func.value.id] = c.but(eqv=True if c.order else c.eqv, order='fix')
                return
        self.expr(n, env)

    def grown(self, c, v, loops, whole):
        if not v.eqv:
            return v.but(order=None)
        free = worst(*loops) is not None
        content = 'self' if whole and c.content in ('none', 'self') else None
        if c.type in ('set', 'frozenset'):
            return c.but(content=content, order='free')
        return c.but(eqv=c.eqv and not free, order='free' if free else c.order, content=content, what=worst(*loops).what if free else c.what)

    def expr(self, n, env):
        E = self.expr
        if isinstance(n, ast.Constant):
            return V(True, type='int' if isinstance(n.value, (int, float)) else 'str' if isinstance(n.value, str) else 'other')
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            r = self.ctx.repo.resolve_global(self.cls.module, n.id)
            if r is None and n.id not in vars(builtins) or r is not None and r[0] == 'glob':
                raise Unknown('the name %s' % n.id)
            return V(True, type='global:' + n.id)
        if isinstance(n, ast.Tuple) or isinstance(n, ast.List):
            if any(isinstance(x, ast.Starred) for x in n.elts):
                if len(n.elts) == 1:
                    return self.cast('tuple' if isinstance(n, ast.Tuple) else 'list', E(n.elts[0].value, env))
                vs = [self.cast('tuple', E(x.value, env)) if isinstance(x, ast.Starred) else E(x, env) for x in n.elts]
                return worst(*vs) or V(True, 'fix', 'tuple' if isinstance(n, ast.Tuple) else 'list', None, True)
            vs = [E(x, env) for x in n.elts]
            w = worst(*vs)
            if w is not None:
                return w
            content = 'elem' if vs and all(v.content in ('part', 'elem') for v in vs) else 'none' if not vs else None
            return V(True, 'fix', 'tuple' if isinstance(n, ast.Tuple) else 'list', content, True)
        if isinstance(n, ast.Set):
            if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
                return self.cast('set', E(n.elts[0].value, env))
            vs = [E(x, env) for x in n.elts]
            return worst(*vs) or V(True, 'free', 'set', None, True)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            e1, free, whole = dict(env), False, True
            for g in n.generators:
                it = E(g.iter, e1)
                if it.order is None:
                    raise Unknown('iteration over %s' % ast.unparse(g.iter))
                free = free or it.order == 'free'
                whole = whole and not g.ifs and len(n.generators) == 1 and it.content in ('self', 'items')
                self.bind(g.target, self.element(it), e1, [])
                for c in g.ifs:
                    t = E(c, e1)
                    if not t.eqv:
                        return t
            v = E(n.elt, e1)
            same_elem = isinstance(n.elt, ast.Name) and isinstance(n.generators[0].target, ast.Name) and n.elt.id == n.generators[0].target.id or ast.unparse(n.elt) == ast.unparse(n.generators[0].target)
            whole = whole and (same_elem or v.content == 'elem' and False)
            if not v.eqv:
                return v.but(order=None)
            cont = E(n.generators[0].iter, env).content if whole else None
            if isinstance(n, ast.SetComp):
                return V(True, 'free', 'set', cont, True)
            return V(not free, 'free' if free else 'fix', 'list' if isinstance(n, ast.ListComp) else 'gen', cont, True, elem=v, what='the order of iteration of an unordered container' if free else None)
        if isinstance(n, ast.BinOp):
            a, b = E(n.left, env), E(n.right, env)
            w = worst(a, b)
            if w is not None:
                return w
            if a.order and b.order:
                return V(True, 'free' if 'free' in (a.order, b.order) else 'fix', a.type, None, True)
            return V(True, None, 'int')
        if isinstance(n, ast.UnaryOp):
            return E(n.operand, env).but(content=None)
        if isinstance(n, ast.BoolOp):
            return self.join([E(x, env) for x in n.values])
        if isinstance(n, ast.Compare):
            vs = [E(n.left, env)] + [E(x, env) for x in n.comparators]
            if any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops) and not all(isinstance(x, ast.Constant) and x.value is None for x in n.comparators):
                return bad('an identity test')
            return worst(*vs) or V(True, None, 'bool')
        if isinstance(n, ast.IfExp):
            t = E(n.test, env)
            if not t.eqv:
                return t
            return self.join([E(n.body, env), E(n.orelse, env)])
        if isinstance(n, ast.Subscript):
            v = E(n.value, env)
            if isinstance(n.slice, ast.Slice):
                if not v.eqv:
                    return v
                full = n.slice.lower is None and n.slice.upper is None and (n.slice.step is None or isinstance(n.slice.step, ast.Constant) and n.slice.step.value == 1)
                back = n.slice.lower is None and n.slice.upper is None and ast.unparse(n.slice.step) == '-1' if n.slice.step else False
                if not full and not back:
                    return v.but(content=None, fresh=True, type=v.type)
                return v.but(fresh=v.type == 'list', content=v.content if full else 'reversed')
            k = E(n.slice, env)
            if v.type == 'dict' and (v is self.me or v.content == 'keys') and k.eqv:
                return V(True, None, 'elem')
            raise Unknown(ast.unparse(n))
        if isinstance(n, ast.Attribute):
            v = E(n.value, env)
            if n.attr == '__class__':
                return V(True)
            if v is self.me:
                m = self.ctx.repo.find_method(self.cls, n.attr)
                p = m if m is not None else None
                if p is not None and any(isinstance(d, ast.Name) and d.id == 'property' for d in p.node.decorator_list):
                    return self.call(p, [self.me])
                if n.attr in vars(builtins)[self.plain].__dict__:
                    raise Unknown(ast.unparse(n))
                return bad('self.%s, which equality does not look at' % n.attr)
            if v.type.startswith('global:'):
                return V(True, type=v.type + '.' + n.attr)
            if v.content in ('elem', 'part'):
                return bad('the attribute %s of an item' % n.attr)
            raise Unknown(ast.unparse(n))
        if isinstance(n, ast.JoinedStr):
            return bad('the text of a value')
        if isinstance(n, ast.Lambda):
            raise Unknown('lambda')
        if isinstance(n, ast.Call):
            return self.called(n, env)
        raise Unknown(ast.unparse(n)[:60])

    def cast(self, kind, v):
        if v.order is None:
            if not v.eqv:
                return v
            raise Unknown('%s() of something' % kind)
        elems = v.elem
        cont = {'self': 'self', 'keys': 'keys', 'items': 'items', 'reversed': 'self' if kind in ('set', 'frozenset') else 'reversed', 'none': 'none'}.get(v.content)
        if kind in ('set', 'frozenset'):
            return V(True, 'free', kind, cont, True, elem=elems)
        if v.order == 'free':
            return V(False, 'free', kind, cont, True, elem=elems, what='the order of iteration of an unordered container')
        return V(v.eqv, 'fix', kind, cont, kind == 'list' or v.type != kind, elem=elems, what=v.what)

    def called(self, n, env):
        E = self.expr
        f = n.func
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'super':
            raise Unknown('super()')
        if isinstance(f, ast.Attribute):
            if ast.unparse(f) == 'dict.fromkeys' and 'dict' not in env and 1 <= len(n.args) <= 2 and not n.keywords:
                v = E(n.args[0], env)
                if v.order is None:
                    raise Unknown(ast.unparse(n))
                # the keys of a dictionary: repeated items are lost
                return V(v.eqv, v.order, 'dict', ('keys' if v.content in ('self', 'keys') else None) if v.type in ('set', 'frozenset', 'dict') else None, True, elem=v.elem, what=v.what)
            sup = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
            unbound = isinstance(f.value, ast.Name) and f.value.id == self.plain and f.value.id not in env
            v = self.me if sup or unbound else E(f.value, env)
            args = n.args[1:] if unbound else n.args
            if unbound and E(n.args[0], env) is not self.me:
                raise Unknown(ast.unparse(n))
            if v is self.me and not sup and not unbound:
                m = self.ctx.repo.find_method(self.cls, f.attr)
                if m is not None:
                    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list)
                    return self.call(m, ([] if static else [self.me]) + [E(x, env) for x in n.args], n.keywords)
            return self.builtin_method(v, f.attr, [E(x, env) for x in args], n)
        if not isinstance(f, ast.Name):
            raise Unknown(ast.unparse(n))
        name = f.id
        if name in env:
            raise Unknown(ast.unparse(n))
        g = self.ctx.repo.resolve_global(self.cls.module, name)
        if g is not None and g[0] == 'func':
            return self.call(g[1], [E(x, env) for x in n.args], n.keywords)
        if g is not None:
            raise Unknown(ast.unparse(n))
        args = [E(x, env) for x in n.args if not isinstance(x, ast.Starred)]
        if len(args) != len(n.args):
            raise Unknown(ast.unparse(n))
        if name in ('frozenset', 'set', 'tuple', 'list'):
            if not args:
                return V(True, 'free' if 'set' in name else 'fix', name, 'none', True)
            return self.cast(name, args[0])
        if name == 'iter':
            return args[0]
        if name == 'dict' and len(args) == 1 and args[0].type == 'dict':
            return args[0].but(fresh=True)
        if name == 'sorted':
            v = args[0]
            if v.order is None:
                return v
            self.failures.append('sorts its content, which may not be comparable')
            for k in n.keywords:
                if k.arg == 'key':
                    return V(False, 'free', 'list', v.content, True, what='an order by %s' % ast.unparse(k.value))
            return V(True, 'fix', 'list', {'items': 'items', 'self': 'self', 'keys': 'keys'}.get(v.content), True)
        if name == 'reversed':
            return args[0].but(content='reversed')
        if name == 'hash':
            v = args[0]
            if v is self.me:
                raise Unknown('hash(self)')
            if not v.eqv:
                return v
            if v.type not in HASHABLE and not v.type.startswith('global'):
                self.failures.append('hashes a %s, which is not hashable' % v.type)
            return V(True, None, 'int')
        if name in ('len', 'bool', 'callable'):
            return V(True, None, 'int') if args[0].eqv or args[0].order else args[0]
        if name in ('sum', 'any', 'all', 'min', 'max'):
            v = args[0]
            if v.order is None or len(args) > 1 or n.keywords:
                raise Unknown(ast.unparse(n))
            e = self.element(v)
            if name in ('min', 'max'):
                self.failures.append('compares its content')
            return V(True, None, 'int') if e.eqv else e
        if name in ('map',):
            it = args[1]
            e = self.element(it)
            fn = n.args[0]
            if isinstance(fn, ast.Name) and fn.id in ('hash', 'len') and it.order:
                return V(it.order == 'fix', it.order, 'gen', None, True, elem=V(True, None, 'int'), what='the order of iteration of an unordered container')
            if isinstance(fn, ast.Name) and fn.id in ('str', 'repr', 'id'):
                return bad('%s() of an item' % fn.id)
            raise Unknown(ast.unparse(n))
        if name == 'enumerate':
            v = args[0]
            if v.order == 'free':
                return V(False, None, what='the order of iteration of an unordered container')
            return V(True, 'fix', 'gen', None, True, elem=V(True, 'fix', 'tuple'))
        if name in ('id', 'repr', 'str', 'format', 'ascii', 'vars', 'dir'):
            if all(v.content is None and v.type in ('int', 'str', 'other', 'bool') for v in args):
                return V(True, None, 'str')
            return bad('%s() of %s' % (name, ast.unparse(n.args[0])))
        if name == 'type':
            if args[0] is self.me:
                return V(True)
            return bad('the type of an item')
        if name == 'isinstance':
            return bad('the type of an item') if args[0] is not self.me else V(True, None, 'bool')
        if name in ('abs', 'int', 'divmod', 'pow', 'round'):
            return worst(*args) or V(True, None, 'int')
        if name in ('getattr', 'hasattr'):
            return bad(ast.unparse(n))
        raise Unknown(ast.unparse(n))

    def builtin_method(self, v, name, args, n):
        if v is self.me or v.type == 'dict':
            if v.type == 'dict' and name in ('items', 'keys', 'values'):
                return V(name != 'values', 'free', 'view', {'items': 'items', 'keys': 'keys'}.get(name), True, elem=V(True, 'fix', 'tuple', 'elem') if name == 'items' else V(True, None, 'elem', 'elem'), what='the order of the values')
            if name == 'copy' and not args:
                return v.but(fresh=True)
            if name == '__len__':
                return V(True, None, 'int')
            if name == '__iter__':
                return v.but(type='gen')
            if name == '__getitem__' and 'slice(None' in ast.unparse(n):
                return v.but(fresh=True)
            if name in ('__repr__', '__str__', '__sizeof__', '__reduce__'):
                return bad('%s()' % name)
            if name == '__hash__' and self.plain in ('str', 'tuple'):
                return V(True, None, 'int')
            if name in ('union', 'difference') and self.plain == 'set' and not args:
                return v.but(fresh=True)
        if name == '__hash__' and not args:
            if not v.eqv:
                return v
            if v.type not in HASHABLE:
                raise Unknown(ast.unparse(n))
            return V(True, None, 'int')
        if name == 'copy' and not args and v.order:
            return v.but(fresh=True)
        if v.content in ('elem', 'part'):
            return bad('the method %s of an item' % name)
        raise Unknown(ast.unparse(n))


def defined(ctx, cls, name):
    """What the classes of the package say about a name: ('def', Func) | ('set', node) | None, first of the MRO."""
    for c in ctx.repo.mro(cls):
        if name in c.methods:
            return 'def', c.methods[name]
        if name in c.props:
            return 'prop', c.props[name]
        if name in c.assigns:
            return 'set', c.assigns[name]
    return None


def check_hash(ctx, cn):
    rid = 'C26.hash'
    cls = ctx.repo.cls(cn)
    plain = PLAIN[cn]
    d = defined(ctx, cls, '__hash__')
    where = '%s:%d' % (cls.module.rel, cls.node.lineno)
    redefined = defined(ctx, cls, '__eq__')
    if d is None:
        ctx.need(rid, cn, plain in ('str', 'tuple'), 'has no hash of its own, and a %s has none' % plain, where)
        ctx.need(rid, cn, redefined is None, 'redefines equality, which removes the hash', where)
        return
    if d[0] == 'set':
        src = ast.unparse(d[1]) if isinstance(d[1], ast.AST) else ''
        if src == 'None':
            ctx.need(rid, cn, False, 'has no hash', where)
        elif src == plain + '.__hash__' and plain in ('str', 'tuple'):
            ctx.ok(rid, cn)
        else:
            ctx.undec(rid, cn, '__hash__ = %s' % src)
        return
    f = d[1]
    # a class of the chain that redefines equality without a hash removes it
    for c in ctx.repo.mro(cls):
        if '__hash__' in c.methods:
            break
        ctx.need(rid, cn, '__eq__' not in c.methods, '%s redefines equality, which removes the hash' % c.name, where)
    ev = Eval(ctx, cls, plain)
    try:
        v = ev.call(f, [ev.me])
    except Unknown as e:
        ctx.undec(rid, f.qual, str(e))
        return
    ctx.need(rid, f.qual, v.eqv, 'the hash depends on %s: equal values may have different hashes' % v.what, f.where())
    ctx.need(rid, f.qual, v.type in ('int', 'other', 'elem') or not v.eqv, 'gives a %s instead of a hash' % v.type, f.where())
    for x in ev.failures:
        ctx.need(rid, f.qual, False, x, f.where())


def delegates(f, plain):
    """The method does what the one of the plain type does."""
    body = [n for n in f.node.body if not isinstance(n, ast.Expr) or not isinstance(n.value, ast.Constant)]
    body = [n for n in body if not isinstance(n, ast.Pass)]
    a = f.node.args
    if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Expr)) or not isinstance(body[0].value, ast.Call) or not isinstance(body[0].value.func, ast.Attribute):
        return None
    if isinstance(body[0], ast.Expr) and f.name != '__init__':
        return False
    c = body[0].value
    base = ast.unparse(c.func.value)
    names = [x.arg for x in a.posonlyargs + a.args]
    want = names[1:] if base == 'super()' and f.name != '__new__' else names
    want = want + (['*' + a.vararg.arg] if a.vararg else []) + (['**' + a.kwarg.arg] if a.kwarg else [])
    got = [ast.unparse(x) for x in c.args] + ['%s%s' % ('**' if k.arg is None else k.arg + '=', ast.unparse(k.value)) for k in c.keywords]
    got = [x[x.index('=') + 1:] if '=' in x and x.split('=')[0] == x.split('=')[1] else x for x in got]
    return base in ('super()', plain) and c.func.attr == f.name and got == want


def check_plain(ctx, cn):
    rid = 'C26.plain'
    cls = ctx.repo.cls(cn)
    plain = PLAIN[cn]
    where = '%s:%d' % (cls.module.rel, cls.node.lineno)
    chain = ctx.repo.mro(cls)
    bases = [ast.unparse(b) for c in chain for b in c.node.bases]
    ctx.need(rid, cn, plain in [b.split('.')[-1] for b in bases], 'is not a %s (bases: %s)' % (plain, ', '.join(bases)), where)
    ext = [b for b in bases if b.split('.')[-1] not in (plain, 'object') and b.split('.')[-1] not in [c.name for c in chain]]
    ctx.need(rid, cn, not ext, 'also inherits from %s' % ext, where, taint=True)
    ctx.need(rid, cn, not any(c.node.keywords for c in chain), 'has a metaclass or class arguments', where, taint=True)
    surface = set(dir(vars(builtins)[plain])) | HOOKS
    for c in chain:
        for name in sorted(set(c.methods) | set(c.props) | set(c.assigns)):
            if name in ('__hash__', '__doc__', '__slots__', '__module__', '__annotations__') or name not in surface:
                continue
            if name in c.methods:
                f = c.methods[name]
                good = delegates(f, plain)
                if good is None and not name.startswith('__'):
                    good = False
                # copies of a value that give a copy are fine
                if good is None and name in ('__copy__', '__deepcopy__', '__repr__', '__str__', '__reduce__', '__reduce_ex__', '__sizeof__', '__getnewargs__'):
                    ctx.undec(rid, f.qual, 'redefines %s' % name)
                    continue
                ctx.need(rid, f.qual, good, 'does not behave as the %s of a %s' % (name, plain), f.where())
            else:
                ctx.need(rid, '%s.%s' % (cn, name), False, 'replaces the %s of a %s' % (name, plain), where)
    ctx.ok(rid, cn)


def check_items(ctx, cn):
    rid = 'C26.items'
    cls = ctx.repo.cls(cn)
    plain = PLAIN[cn]
    f = ctx.repo.find_method(cls, 'items')
    if f is None:
        ctx.need(rid, cn, False, 'has no items view', '%s:%d' % (cls.module.rel, cls.node.lineno))
        return
    ev = Eval(ctx, cls, plain)
    try:
        v = ev.call(f, [ev.me])
    except Unknown as e:
        ctx.undec(rid, f.qual, str(e))
        return
    ctx.need(rid, f.qual, v.content == 'self', 'the view does not hold the items as they are', f.where())
    ctx.need(rid, f.qual, v.fresh or v.type == 'tuple' and plain == 'tuple', 'gives the container itself, not a copy', f.where())
    ctx.need(rid, f.qual, v.type in ('list', 'tuple', 'set', 'frozenset') and (plain == 'set' or v.type in ('list', 'tuple')), 'gives a %s' % v.type, f.where())
    for x in ev.failures:
        ctx.need(rid, f.qual, False, x, f.where())


def check_export(ctx):
    rid = 'C26.export'
    cls = ctx.repo.cls('FPSet')
    f = ctx.repo.find_method(cls, 'footprint_export')
    if f is None:
        ctx.need(rid, 'FPSet', False, 'has no export', '%s:%d' % (cls.module.rel, cls.node.lineno))
        return
    ev = Eval(ctx, cls, 'set')
    try:
        v = ev.call(f, [ev.me])
    except Unknown as e:
        ctx.undec(rid, f.qual, str(e))
        return
    ctx.need(rid, f.qual, v.content == 'self', 'does not export all the items', f.where())
    ctx.need(rid, f.qual, v.type == 'list', 'exports a %s' % v.type, f.where())
    for x in ev.failures:
        ctx.need(rid, f.qual, False, x, f.where())


def conds(s):
    return '; '.join(showfact(a, v) for a, v in s.conds())


RE = attr(SELF, '_re')
R = {SELF: ('inst', 'FPRegex')}
COPYING = ('__setstate__', '__getstate__', '__reduce_ex__', '__deepcopy__', '__copy__')


def through(o):
    """Attributes the class does not have are those of the compiled expression."""
    return o if o[0] == 'exc' else subst_deep(o, lambda x: attr(RE, x[2]) if x[0] == 'attr' and len(x) == 3 and x[1] == SELF and x[2] in ('pattern', 'flags') else None)


def seq_of(I, s, t):
    for _, p in I.iter_plan(s, t):
        return tuple(p[1]) if p[0] == 'unroll' else None


def compiled(t, pattern, flags):
    """t is the expression compiled from a pattern and flags."""
    if t[0] != 'call' or t[1] not in ('re.compile', 'compile'):
        return False
    a, kw = t[3], dict(t[4])
    p = a[0] if a else kw.get('pattern')
    fl = a[1] if len(a) > 1 else kw.get('flags', C(0))
    return p == pattern and fl == flags


def check_regex(ctx):
    rid = 'C26.regex'
    cls = ctx.repo.cls('FPRegex')
    init = ctx.repo.find_method(cls, '__init__')
    ps = [x.arg for x in init.node.args.args][1:]

    def go():
        I = ctx.interp(types=R)
        names = {'self': SELF}
        names.update({p: sym(p) for p in ps})
        _, rows = execute(ctx, I, init.qual, names)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, init.qual, o[1].call is not None, 'refuses an expression when [%s]' % conds(s), init.where(), taint=o[1].name is None)
                continue
            t = s.attrs.get((SELF, '_re'))
            ctx.need(rid, init.qual, t is not None and compiled(t, sym(ps[0]), sym(ps[1])), 'the compiled expression is %s' % (show(t) if t else 'not there'), init.where(), taint=t is not None and tainted(t))
    ctx.guard(rid, init.qual, go)
    dflt = init.node.args.defaults
    ctx.need(rid, init.qual, len(dflt) == 1 and isinstance(dflt[0], ast.Constant) and dflt[0].value == 0, 'the flags have %s as default' % [ast.unparse(x) for x in dflt], init.where())

    f = ctx.repo.find_method(cls, 'footprint_export')
    if f is None:
        ctx.need(rid, cls.name, False, 'a regular expression has no export', init.where())
    else:
        def go():
            I = ctx.interp(types=R)
            _, rows = execute(ctx, I, f.qual, {'self': SELF})
            for s, o in outcomes(rows):
                want = (attr(RE, 'pattern'), attr(RE, 'flags'))
                o = through(o)
                good = o[0] != 'exc' and (o == ('tup', want) or o[0] == 'ref' and o[2] == 'list' and seq_of(I, s, o) == want)
                ctx.need(rid, f.qual, good, 'exports %s' % (o[1] if o[0] == 'exc' else show(o),), f.where(), taint=o[0] != 'exc' and tainted(o))
        ctx.guard(rid, f.qual, go)

    g = ctx.repo.find_method(cls, '__getattr__')
    guarded = False
    if g is None:
        ctx.need(rid, cls.name, False, 'gives no access to the compiled expression', init.where())
    else:
        p = g.node.args.args[1].arg
        decos = [ast.unparse(d).split('.')[-1] for d in g.node.decorator_list]
        ctx.need(rid, g.qual, set(decos) <= {'secure_getattr'}, 'is decorated by %s' % decos, g.where(), taint=True)
        guarded = 'secure_getattr' in decos

        def go():
            nonlocal guarded
            I = ctx.interp(types=R)
            _, rows = execute(ctx, I, g.qual, {'self': SELF, p: sym(p)})
            n, safe = 0, True
            for s, o in outcomes(rows):
                special = any(s.facts.get(mk_eq(sym(p), C(x))) is True for x in COPYING + ('_re',)) or any(v is True and mentions(a, lambda t: t == sym(p)) and not mentions(a, lambda t: t == RE) for a, v in s.conds())
                if o[0] == 'exc':
                    ctx.need(rid, g.qual, special or o[1].call is not None, 'raises %s when [%s]' % (o[1], conds(s)), g.where(), taint=o[1].name is None)
                    continue
                n += 1
                ctx.need(rid, g.qual, o == call('getattr', None, RE, sym(p)) or o[0] == 'call' and o[1] == 'getattr' and o[3] == (RE, sym(p)), 'gives %s instead of the attribute of the compiled expression' % show(o), g.where(), taint=tainted(o))
                safe = safe and any(v is False and mentions(a, lambda t: t == sym(p)) for a, v in s.conds())
            ctx.need(rid, g.qual, n > 0, 'gives no access to the compiled expression', g.where())
            guarded = guarded or safe
        ctx.guard(rid, g.qual, go)

    h = ctx.repo.find_method(cls, '__deepcopy__')
    name = h.qual if h else cls.name
    if h is None:
        ctx.need(rid, name, guarded, 'cannot be copied: the attribute access of a copy in the making never ends', cls.module.rel)
        return
    p = h.node.args.args[1].arg

    def go():
        I = ctx.interp(types=R)
        _, rows = execute(ctx, I, h.qual, {'self': SELF, p: sym(p)})
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, name, o[1].call is not None, 'raises %s when [%s]' % (o[1], conds(s)), h.where(), taint=o[1].name is None)
                continue
            for e in s.events():
                if e.kind == 'mut' and e.recv == sym(p) and len(e.args) == 2 and e.args[0] == call('id', None, SELF):
                    ctx.need(rid, name, unver(e.args[1]) in (unver(o), SELF), 'the next copies of the same expression are %s' % show(e.args[1]), h.where(), taint=e.args[1][0] != 'attr')
            if o[0] == 'call' and o[1] in ('copy.copy', 'copy') and o[3] == (SELF,):
                ctx.need(rid, name, guarded, 'cannot be copied: the attribute access of a copy in the making never ends', h.where())
                ctx.need(rid, name, '__copy__' not in cls.methods, 'copies itself with a method of its own', h.where(), taint=True)
                continue
            if o == SELF:
                ctx.ok(rid, name)
                continue
            if o[0] == 'call' and (o[1] in ('new FPRegex', 'apply') or o[1] == '.__class__' and o[2] == SELF):
                o = through(o)
                a = [x for x in o[3] if x != attr(SELF, '__class__')]
                kw = dict(o[4])
                pat = a[0] if a else kw.get(ps[0])
                fl = a[1] if len(a) > 1 else kw.get(ps[1])
                ctx.need(rid, name, pat == attr(RE, 'pattern') and fl == attr(RE, 'flags'), 'the copy has %s and %s for pattern and flags' % (show(pat) if pat else None, show(fl) if fl else 'the default'), h.where())
                continue
            if o[0] == 'ref' or tainted(o) or o[0] == 'call':
                v = s.attrs.get((o, '_re'))
                if v is not None:
                    ok = v == RE or compiled(v, attr(RE, 'pattern'), attr(RE, 'flags')) or v[0] == 'call' and v[1] in ('copy.copy', 'copy.deepcopy') and v[3][0] == RE
                    ctx.need(rid, name, ok, 'the copy holds %s' % show(v), h.where(), taint=tainted(v))
                    continue
                ctx.undec(rid, name, 'gives %s' % show(o))
                continue
            ctx.need(rid, name, False, 'the copy is %s' % show(o), h.where())
    ctx.guard(rid, name, go)


def run(ctx):
    ctx.rule('C26.hash', 'equal containers have equal hashes: each hash is computed from what equality looks at only, independently of the order of unordered containers')
    ctx.rule('C26.plain', 'the protected classes derive from the plain type and replace none of its behaviours')
    ctx.rule('C26.items', 'the items view is a copy that holds the items of the container, in order')
    ctx.rule('C26.export', 'a set exports as a list of all its items, comparable or not')
    ctx.rule('C26.regex', 'a regular expression is compiled from its pattern and flags, exports them, can be deep-copied and gives access to the compiled expression')
    for cn in PLAIN:
        check_hash(ctx, cn)
        check_plain(ctx, cn)
    for cn in ('FPList', 'FPSet', 'FPTuple'):
        check_items(ctx, cn)
    check_export(ctx)
    check_regex(ctx)
