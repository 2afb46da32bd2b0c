"""Loads the analysed package (source only: nothing is imported nor executed) and resolves names."""
import ast
import os

REPO = os.environ.get('FPSA_REPO', '/repo')
PKG = 'footprints'
SRC = os.path.join(REPO, 'src', PKG)


class AnalysisBroken(Exception):
    """A public anchor has vanished, or the tree cannot be parsed: no verdict can be given."""


class Func:
    def __init__(self, node, module, cls=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.decos = [_deconame(d) for d in node.decorator_list]

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else self.module.short + ':') + self.name

    @property
    def is_property(self):
        return 'property' in self.decos

    @property
    def is_static(self):
        return 'staticmethod' in self.decos

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decos

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(self.node))

    def where(self, line=None):
        return '%s:%s' % (self.module.rel, line or self.node.lineno)


def _own_nodes(fn):
    """Nodes of a function body, nested function bodies excluded."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _deconame(d):
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return _deconame(d.value) + '.' + d.attr
    if isinstance(d, ast.Call):
        return _deconame(d.func) + '()'
    return '?'


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.assigns = {}
        self.props = {}          # name -> (getter Func or None, setter Func or None)
        self.basenodes = node.bases
        self.decos = [_deconame(d) for d in node.decorator_list]
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(b, module, self)
                sett = [d for d in f.decos if d.endswith('.setter') or d.endswith('.deleter')]
                if sett:
                    if sett[0].endswith('.setter'):
                        g, _ = self.props.get(b.name, (None, None))
                        self.props[b.name] = (g, f)
                    continue
                self.methods[b.name] = f
                if f.is_property or 'functools.cached_property' in f.decos or 'cached_property' in f.decos:
                    f.decos.append('property')
                    self.props[b.name] = (f, None)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                self.assigns[b.target.id] = b.value
        for name, v in list(self.assigns.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                args = [a.id if isinstance(a, ast.Name) else None for a in v.args]
                for kw in v.keywords:
                    if kw.arg in ('fget', 'fset') and isinstance(kw.value, ast.Name):
                        idx = {'fget': 0, 'fset': 1}[kw.arg]
                        while len(args) <= idx:
                            args.append(None)
                        args[idx] = kw.value.id
                g = self.methods.get(args[0]) if args else None
                s = self.methods.get(args[1]) if len(args) > 1 and args[1] else None
                self.props[name] = (g, s)
            elif isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[name] = self.methods[v.id]


def fetched(n):
    """d[k] if k in d else v   is   d.get(k, v)   (v a name or a constant: nothing is computed for it)."""
    t, a, b = n.test, n.body, n.orelse
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn))):
        return n
    if isinstance(t.ops[0], ast.NotIn):
        a, b = b, a
    d = t.comparators[0]
    if isinstance(a, ast.Subscript) and isinstance(d, ast.Name) and d.id not in ('self', 'cls') and isinstance(t.left, (ast.Name, ast.Constant)) and isinstance(b, (ast.Name, ast.Constant)) \
            and ast.dump(a.value) == ast.dump(d) and ast.dump(a.slice) == ast.dump(t.left):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(d, 'get', ast.Load()), n), [t.left, b], []), n)
    return n


def normalise(tree):
    """Rewritings that lose nothing: a loop left by a first test is a loop under the opposite test, a lookup made in
    two steps is made in one, and another name of an argument, given once and never changed, is that argument."""
    for n in ast.walk(tree):
        if isinstance(n, ast.While) and not n.orelse and isinstance(n.test, ast.Constant) and n.test.value and len(n.body) > 1:
            b = n.body[0]
            if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                t = b.test
                n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                del n.body[0]
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.IfExp):
                setattr(n, f, fetched(v))
            elif isinstance(v, list):
                v[:] = [fetched(x) if isinstance(x, ast.IfExp) else x for x in v]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            first = (a.posonlyargs + a.args)[:1]
            if not first or first[0].arg not in ('self', 'cls'):
                continue
            me = first[0].arg
            stored, inner = {}, [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef))]
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    stored[x.id] = stored.get(x.id, 0) + 1
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    for y in x.names:
                        stored[y] = stored.get(y, 0) + 2
            if inner or me in stored:
                continue
            args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            for s in n.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id == me:
                    other = s.targets[0].id
                    if stored.get(other) == 1 and other not in args:
                        for x in ast.walk(n):
                            if isinstance(x, ast.Name) and x.id == other and isinstance(x.ctx, ast.Load):
                                x.id = me


class Module:
    def __init__(self, name, path):
        self.name = name
        self.short = name.split('.')[-1]
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        normalise(self.tree)
        self.funcs, self.classes, self.consts, self.imports, self.globals = {}, {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[b.name] = Func(b, self)
            elif isinstance(b, ast.ClassDef):
                self.classes[b.name] = Class(b, self)
            elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                targets = b.targets if isinstance(b, ast.Assign) else [b.target]
                for t in targets:
                    if isinstance(t, ast.Name) and b.value is not None:
                        self.globals[t.id] = b.value
                        if isinstance(b.value, ast.Constant):
                            self.consts[t.id] = b.value.value
                    elif isinstance(t, ast.Tuple) and isinstance(b.value, ast.Tuple):
                        for x, v in zip(t.elts, b.value.elts):
                            if isinstance(x, ast.Name):
                                self.globals[x.id] = v
                                if isinstance(v, ast.Constant):
                                    self.consts[x.id] = v.value
            elif isinstance(b, ast.Import):
                for a in b.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(b, ast.ImportFrom):
                for a in b.names:
                    self.imports[a.asname or a.name] = import_target(self.name, b, a)
            elif isinstance(b, (ast.If, ast.Try)):
                self._scan(b.body)
                self._scan(b.orelse)


def import_target(modname, node, alias):
    if node.level:
        base = modname if modname == PKG else modname.rsplit('.', 1)[0]
        for _ in range(node.level - 1):
            base = base.rsplit('.', 1)[0]
        full = base + ('.' + node.module if node.module else '')
    else:
        full = node.module
    return ('from', full, alias.name)


class Repo:
    def __init__(self):
        self.modules = {}
        if not os.path.isdir(SRC):
            raise AnalysisBroken('no package source at ' + SRC)
        for fn in sorted(os.listdir(SRC)):
            if fn.endswith('.py'):
                name = PKG if fn == '__init__.py' else PKG + '.' + fn[:-3]
                self.modules[name] = Module(name, os.path.join(SRC, fn))
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        self._mro = {}

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].source.encode())
        return h.hexdigest()[:16]

    # -- names -------------------------------------------------------------
    def module(self, short):
        m = self.modules.get(PKG if short in ('', '__init__', PKG) else PKG + '.' + short)
        if m is None:
            raise AnalysisBroken('module %s not found' % short)
        return m

    def resolve_global(self, mod, name, depth=0):
        """-> ('func', Func) | ('class', Class) | ('const', v) | ('mod', name) | ('ext', dotted) | ('glob', mod, name) | None"""
        if depth > 6:
            return None
        if name in mod.funcs:
            return ('func', mod.funcs[name])
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.consts:
            return ('const', mod.consts[name])
        if name in mod.globals:
            v = mod.globals[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve_global(mod, v.id, depth + 1)
                if r:
                    return r
            return ('glob', mod.name, name)
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], depth)
        return None

    def resolve_import(self, t, depth=0):
        if t[0] == 'mod':
            return ('mod', t[1])
        _, full, name = t
        if full in self.modules:
            r = self.resolve_global(self.modules[full], name, depth + 1)
            if r:
                return r
            if full + '.' + name in self.modules:
                return ('mod', full + '.' + name)
            return ('ext', full + '.' + name)
        return ('ext', full + '.' + name)

    # -- classes -----------------------------------------------------------
    def bases(self, cls):
        out = []
        for b in cls.basenodes:
            if isinstance(b, ast.Name):
                r = self.resolve_global(cls.module, b.id)
                if r and r[0] == 'class':
                    out.append(r[1])
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve_global(cls.module, b.value.id)
                if r and r[0] == 'mod' and r[1] in self.modules:
                    r = self.resolve_global(self.modules[r[1]], b.attr)
                    if r and r[0] == 'class':
                        out.append(r[1])
        return out

    def mro(self, cls):
        if cls.name not in self._mro:
            out = [cls]
            for b in self.bases(cls):
                for c in self.mro(b):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro[cls.name] = out
        return self._mro[cls.name]

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        return c

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, cls, name):
        for c in self.mro(cls):
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.assigns:
                return None
        return None

    def func(self, qual):
        """'Class.method' or 'module:function' -> Func (AnalysisBroken when it has vanished)."""
        if ':' in qual:
            m, n = qual.split(':')
            f = self.module(m).funcs.get(n)
        else:
            c, n = qual.split('.')
            f = self.find_method(self.cls(c), n)
            if f is None and self.find_prop(self.cls(c), n):
                f = self.find_prop(self.cls(c), n)[0]
        if f is None:
            raise AnalysisBroken('anchor %s not found' % qual)
        return f

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for b in c.node.body:
                    if isinstance(b, ast.FunctionDef):
                        yield Func(b, m, c)
