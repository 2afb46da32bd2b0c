#!/usr/bin/env python3
"""Rewrites the package without changing what it does, and runs the checks: they must stay quiet.

usage: autoref.py list
       autoref.py run [transform ...]    one run per transform, over the whole package, then per function on an alarm
"""
import ast, builtins, copy, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC = '/repo/src/footprints/'
PY = '/opt/venv/bin/python'
FILES = ['__init__.py', 'access.py', 'collectors.py', 'config.py', 'doc.py', 'priorities.py', 'proxies.py', 'reporting.py', 'stdtypes.py', 'util.py']
FN = (ast.FunctionDef,)


def nested(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn)


def names(fn, kind):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, kind)}


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def bodies(fn):
    """every list of statements of the function, not those of a function inside."""
    def rec(n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                yield n, f, b
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        yield from rec(s)
        for h in getattr(n, 'handlers', []):
            yield from rec(h)
    yield from rec(fn)


_k = [0]
def fresh(p='tmp'):
    _k[0] += 1
    return '%s_%d' % (p, _k[0])


def N(i, s=False):
    return ast.Name(i, ast.Store() if s else ast.Load())


def isgen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


# ---- transforms: fn -> bool (changed)
def rename(fn):
    if nested(fn):
        return False
    g = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    loc = names(fn, ast.Store) - params(fn) - g
    if any(isinstance(x, (ast.ExceptHandler,)) and x.name for x in ast.walk(fn)):
        loc -= {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
    class R(ast.NodeTransformer):
        def visit_Name(s, n):
            if n.id in loc:
                n.id = 'z_' + n.id
            return n
    R().visit(fn)
    return bool(loc)


def invert(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            ch = True
        elif isinstance(x, ast.IfExp):
            x.test, x.body, x.orelse = ast.UnaryOp(ast.Not(), x.test), x.orelse, x.body
            ch = True
    return ch


def elifnest(fn):
    """if a: .. elif b: ..  into  if not a: if b.. else: .."""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            ch = True
    return ch


def testtmp(fn):
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not (f == 'orelse' and isinstance(o, ast.If) and len(b) == 1 and False):
                t = fresh('cond')
                out.append(ast.Assign([N(t, True)], s.test))
                s.test = N(t)
                ch = True
            out.append(s)
        b[:] = out
    return ch


def rettmp(fn):
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh('res')
                out.append(ast.Assign([N(t, True)], s.value))
                s.value = N(t)
                ch = True
            out.append(s)
        b[:] = out
    return ch


def argtmp(fn):
    """the arguments of a call statement (and of the right of an assignment) into locals, in order."""
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(c, ast.Call) and not any(isinstance(a, ast.Starred) for a in c.args) and \
               isinstance(c.func, (ast.Name, ast.Attribute)) and (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name)) and \
               not (isinstance(c.func, ast.Name) and c.func.id in ('super', 'locals')) and not any(k.arg is None for k in c.keywords):
                for i, a in enumerate(c.args):
                    if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)):
                        t = fresh('arg')
                        out.append(ast.Assign([N(t, True)], a))
                        c.args[i] = N(t)
                        ch = True
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)):
                        t = fresh('arg')
                        out.append(ast.Assign([N(t, True)], k.value))
                        k.value = N(t)
                        ch = True
            out.append(s)
        b[:] = out
    return ch


def comploop(fn):
    """x = [e for v in c if t] / return [...] into loops (also sets and dicts)"""
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            c = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            wrap = None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('set', 'list', 'dict', 'tuple', 'sorted') and len(c.args) == 1 and isinstance(c.args[0], (ast.ListComp, ast.SetComp, ast.DictComp)):
                wrap, c = c, c.args[0]
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp)):
                t = fresh('acc')
                loc = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if loc & ((names(fn, ast.Store) | params(fn))) - loc:
                    out.append(s); continue
                sub = {l: fresh('v_' + l) for l in loc}
                for x in ast.walk(c):
                    if isinstance(x, ast.Name) and x.id in sub:
                        x.id = sub[x.id]
                if isinstance(c, ast.ListComp):
                    init, act = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(N(t), 'append', ast.Load()), [c.elt], []))
                elif isinstance(c, ast.SetComp):
                    init, act = ast.Call(N('set'), [], []), ast.Expr(ast.Call(ast.Attribute(N(t), 'add', ast.Load()), [c.elt], []))
                else:
                    init, act = ast.Dict([], []), ast.Assign([ast.Subscript(N(t), c.key, ast.Store())], c.value)
                for g in reversed(c.generators):
                    for q in reversed(g.ifs):
                        act = ast.If(q, [act], [])
                    act = ast.For(g.target, g.iter, [act], [])
                out += [ast.Assign([N(t, True)], init), act]
                if wrap is not None:
                    wrap.args[0] = N(t)
                else:
                    s.value = N(t)
                ch = True
            out.append(s)
        b[:] = out
    return ch


def demorgan(fn):
    class R(ast.NodeTransformer):
        ch = False
        def _do(s, n):
            t = n.test
            if isinstance(t, ast.BoolOp):
                op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
                s.ch = True
            s.generic_visit(n)
            return n
        visit_If = visit_While = visit_IfExp = _do
    r = R()
    r.visit(fn)
    return r.ch


def splitand(fn):
    """if a and b: X  (no else) into nested ifs"""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And) and not x.orelse:
            v = x.test.values
            inner = ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), x.body, [])
            x.test, x.body = v[0], [inner]
            ch = True
    return ch


def splitor(fn):
    """if a or b: X else: Y  into  if a: X elif b: X else: Y"""
    ch = False
    for x in list(ast.walk(fn)):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.Or) and \
           not any(isinstance(y, (ast.comprehension, ast.NamedExpr)) for y in ast.walk(x) if False):
            v = x.test.values
            x.orelse = [ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.Or(), v[1:]), copy.deepcopy(x.body), x.orelse)]
            x.test = v[0]
            ch = True
    return ch


def nocontinue(fn):
    """if t: continue; rest  into  if not t: rest"""
    ch = False
    for o, f, b in list(bodies(fn)):
        if isinstance(o, (ast.For, ast.While)) and f == 'body':
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse and b[i + 1:]:
                    b[i:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), b[i + 1:], [])]
                    ch = True
                    break
    return ch


def addcontinue(fn):
    """last statement of a loop body `if t: B` into `if not t: continue; B`"""
    ch = False
    for o, f, b in list(bodies(fn)):
        if isinstance(o, (ast.For, ast.While)) and f == 'body' and b and isinstance(b[-1], ast.If) and not b[-1].orelse:
            s = b.pop()
            b += [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
            ch = True
    return ch


def earlyreturn(fn):
    """if t: A(returns) else: B   into  if t: A;  B"""
    ch = False
    def ends(b):
        return isinstance(b[-1], (ast.Return, ast.Raise)) or (isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse))
    for o, f, b in list(bodies(fn))[::-1]:
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.If) and s.orelse and ends(s.body) and s is b[-1]:
                b += s.orelse
                s.orelse = []
                ch = True
    return ch


def lateelse(fn):
    """if t: A(returns);  B   into  if t: A else: B"""
    ch = False
    for o, f, b in list(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:] :
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
    return ch


def singleret(fn):
    """every return into an assignment of one result, when the returns are all in tail position"""
    if isgen(fn):
        return False
    t = fresh('result')
    def tail(b):
        if not b:
            return False
        for s in b[:-1]:
            if any(isinstance(x, ast.Return) for x in walk1(s)):
                return False
        s = b[-1]
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, ast.If):
            return bool(s.orelse) and tail(s.body) and tail(s.orelse)
        return isinstance(s, ast.Raise)
    def walk1(s):
        yield s
        for c in ast.iter_child_nodes(s):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                yield from walk1(c)
    if not tail(fn.body) or isinstance(fn.body[-1], (ast.Return, ast.Raise)):
        return False
    def rep(b):
        s = b[-1]
        if isinstance(s, ast.Return):
            b[-1] = ast.Assign([N(t, True)], s.value or ast.Constant(None))
        elif isinstance(s, ast.If):
            rep(s.body); rep(s.orelse)
    rep(fn.body)
    fn.body.append(ast.Return(N(t)))
    return True


class Expr(ast.NodeTransformer):
    ch = False
    def run(s, fn):
        s.ch = False
        s.visit(fn)
        return s.ch


class DictLit(Expr):
    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and n.func.id in ('dict', 'list'):
            if n.func.id == 'list' and not n.keywords:
                s.ch = True
                return ast.List([], ast.Load())
            if n.func.id == 'dict':
                s.ch = True
                return ast.Dict([ast.Constant(k.arg) if k.arg else None for k in n.keywords], [k.value for k in n.keywords])
        return n
    def visit_Dict(s, n):
        s.generic_visit(n)
        if not n.keys and not s.ch:
            s.ch = True
            return ast.Call(N('dict'), [], [])
        return n
    def visit_List(s, n):
        s.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load):
            s.ch = True
            return ast.Call(N('list'), [], [])
        return n


class Keys(Expr):
    def it(s, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'keys' and not x.args and isinstance(x.func.value, ast.Name) and x.func.value.id not in ('self', 'cls'):
            s.ch = True
            return x.func.value
        return x
    def visit_For(s, n):
        s.generic_visit(n); n.iter = s.it(n.iter); return n
    def visit_comprehension(s, n):
        s.generic_visit(n); n.iter = s.it(n.iter); return n


class Swap(Expr):
    def visit_Compare(s, n):
        s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n.ops = [{ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]
            s.ch = True
        return n


class NotIn(Expr):
    def visit_Compare(s, n):
        s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot)):
            n.ops = [ast.In() if isinstance(n.ops[0], ast.NotIn) else ast.Is()]
            s.ch = True
            return ast.UnaryOp(ast.Not(), n)
        return n


class IsInst(Expr):
    """isinstance(x, (A, B)) into an or"""
    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            s.ch = True
            return ast.BoolOp(ast.Or(), [ast.Call(N(n.func.id), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts])
        return n


class GetIn(Expr):
    """d.get(k, v) into d[k] if k in d else v, for names"""
    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Name) and 1 <= len(n.args) <= 2 and not n.keywords and \
           isinstance(n.args[0], (ast.Name, ast.Constant)) and n.func.value.id not in ('self', 'cls') and (len(n.args) == 1 or isinstance(n.args[1], (ast.Name, ast.Constant))):
            d, k = n.func.value, n.args[0]
            s.ch = True
            return ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Load()), n.args[1] if len(n.args) > 1 else ast.Constant(None))
        return n


class Lit2Tup(Expr):
    """x in (a, b) / x in [a, b] / into an or of equalities for constants"""
    def visit_Compare(s, n):
        s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and isinstance(n.left, ast.Name) and n.comparators[0].elts:
            s.ch = True
            e = n.comparators[0].elts
            v = [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in e]
            return v[0] if len(v) == 1 else ast.BoolOp(ast.Or(), v)
        return n


class Fstr(Expr):
    """'..{}..'.format(a) with plain holes into an f-string"""
    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            parts = re.split(r'\{(\d*)\}', n.func.value.value)
            if '{' in ''.join(parts[::2]) or '}' in ''.join(parts[::2]):
                return n
            vals, k = [], 0
            for i, p in enumerate(parts):
                if i % 2 == 0:
                    if p:
                        vals.append(ast.Constant(p))
                else:
                    j = int(p) if p else k
                    k += 1
                    vals.append(ast.FormattedValue(n.args[j], -1, None))
            s.ch = True
            return ast.JoinedStr(vals)
        return n


class Pct(Expr):
    """'..%s..' % x into format"""
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            t = n.left.value
            if re.search(r'%[^s]', t) or '{' in t or '}' in t:
                return n
            a = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if t.count('%s') != len(a):
                return n
            s.ch = True
            return ast.Call(ast.Attribute(ast.Constant(t.replace('%s', '{!s}')), 'format', ast.Load()), a, [])
        return n


def tern2if(fn):
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [c]))
                ch = True
            else:
                out.append(s)
        b[:] = out
    return ch


def if2tern(fn):
    ch = False
    for o, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    out.append(ast.Return(ast.IfExp(s.test, x.value, y.value))); ch = True; continue
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == len(y.targets) == 1 and isinstance(x.targets[0], ast.Name) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))); ch = True; continue
            out.append(s)
        b[:] = out
    return ch


def whiletrue(fn):
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.While) and not x.orelse and not (isinstance(x.test, ast.Constant)):
            x.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Break()], []))
            x.test = ast.Constant(True)
            ch = True
    return ch


def augassign(fn):
    """x += e into x = x + e, for names of numbers and strings (constant operand or unary)"""
    ch = False
    for o, f, b in list(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.JoinedStr)):
                b[i] = ast.Assign([N(s.target.id, True)], ast.BinOp(N(s.target.id), s.op, s.value))
                ch = True
    return ch


def nop(fn):
    k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(k, ast.Pass())
    fn.body.insert(k, ast.Expr(ast.Constant(0)))
    for o, f, b in list(bodies(fn)):
        if o is not fn:
            b.insert(0, ast.Assign([N('_unused', True)], ast.Constant(None)))
    return True


def selfalias(fn):
    """self.x used several times (never rebound, not called) read through a local alias of self"""
    if nested(fn) or not fn.args.args or fn.args.args[0].arg != 'self' or isgen(fn) or fn.name.startswith('__'):
        return False
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(fn)):
        return False
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == 'self':
            x.id = 'this'
    fn.body.insert(k, ast.Assign([N('this', True)], N('self')))
    return True


def untuple(fn):
    """for k, v in xs  into  for kv in xs: k, v = kv ; a, b = x, y left alone"""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple):
            t = fresh('pair')
            x.body.insert(0, ast.Assign([x.target], N(t)))
            x.target = N(t, True)
            ch = True
    return ch


def itemsidx(fn):
    """for k, v in d.items()  into  for k in d: v = d[k]  when d is a name not written in the loop"""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and all(isinstance(e, ast.Name) for e in x.target.elts) and \
           isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == 'items' and isinstance(x.iter.func.value, ast.Name) and x.iter.func.value.id != 'self':
            d = x.iter.func.value.id
            k, v = x.target.elts
            if any(isinstance(y, ast.Name) and y.id == d for s in x.body for y in ast.walk(s)):
                continue
            x.body.insert(0, ast.Assign([v], ast.Subscript(N(d), N(k.id), ast.Load())))
            x.target, x.iter = k, N(d)
            ch = True
    return ch


def listiter(fn):
    """for x in e  into  for x in list(e): snapshots are harmless unless the loop changes e or stops early on a generator"""
    ch = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, (ast.Name, ast.Call)) and not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
            if isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr in ('items', 'values', 'keys'):
                x.iter = ast.Call(N('list'), [x.iter], [])
                ch = True
    return ch


def method(tree):
    """the last block of two or more statements of a method into a helper method (no return inside, no rebinding needed afterwards)"""
    return False


def helperise(tree, only=None):
    """the right of an assignment `x = <expr of locals>` and the test of an if into a new private method / function"""
    ch = False
    for cls in [None] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        body = (cls or tree).body
        new = []
        for fn in body:
            new.append(fn)
            if not isinstance(fn, FN) or nested(fn) or isgen(fn) or (only and fn.name != only[1]) or (only and (cls.name if cls else '') != only[0]):
                continue
            deco = {ast.unparse(d) for d in fn.decorator_list}
            if deco - {'property'}:
                continue
            if any(isinstance(y, (ast.Import, ast.ImportFrom)) for y in ast.walk(fn)):
                continue
            me = 'self' if cls and fn.args.args and fn.args.args[0].arg in ('self',) else None
            if cls and not me:
                continue
            loc = names(fn, ast.Store) | params(fn)
            k = 0
            for o, f, b in list(bodies(fn)):
                for s in b:
                    t = s.test if isinstance(s, ast.If) else s.value if isinstance(s, ast.Assign) else None
                    if t is None or isinstance(t, (ast.Name, ast.Constant)) or any(isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr)) for y in ast.walk(t)):
                        continue
                    if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('super', 'locals') for y in ast.walk(t)):
                        continue
                    if any(isinstance(y, ast.Name) and y.id.startswith('__') for y in ast.walk(t)):
                        continue
                    used = sorted(({y.id for y in ast.walk(t) if isinstance(y, ast.Name)} & loc) - {me})
                    k += 1
                    nm = '_h_%s_%s_%d' % (cls.name if cls else '', fn.name.strip('_'), k)
                    args = ast.arguments([], [ast.arg(a) for a in ([me] if me else []) + used], None, [], [], None, [])
                    new.append(ast.FunctionDef(nm, args, [ast.Return(t)], []))
                    fnn = ast.Attribute(N(me), nm, ast.Load()) if me else N(nm)
                    c = ast.Call(fnn, [N(a) for a in used], [])
                    if isinstance(s, ast.If):
                        s.test = c
                    else:
                        s.value = c
                    ch = True
        body[:] = new
    return ch


def blocks(tree, only=None, kinds=(ast.For, ast.While), fields=('body',)):
    ch = False
    for cls in [None] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        body = (cls or tree).body
        new = []
        for fn in body:
            new.append(fn)
            if not isinstance(fn, FN) or nested(fn) or isgen(fn) or (only and (fn.name != only[1] or (cls.name if cls else '') != only[0])):
                continue
            if {ast.unparse(d) for d in fn.decorator_list} - {'property'} or any(isinstance(y, (ast.Import, ast.ImportFrom)) for y in ast.walk(fn)):
                continue
            me = 'self' if cls and fn.args.args and fn.args.args[0].arg == 'self' else None
            if cls and not me:
                continue
            loc = names(fn, ast.Store) | params(fn)
            k = 0
            for o, f, b in list(bodies(fn))[::-1]:
                if not (isinstance(o, kinds) and f in fields) or not b or len(b) < 2 and not isinstance(b[0], (ast.If, ast.For)):
                    continue
                if not all(hasattr(st, 'lineno') for st in b):
                    continue
                w = [y for st in b for y in ast.walk(st)]
                if any(isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Delete, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Try)) for y in w):
                    continue
                if any(isinstance(y, ast.Name) and (y.id in ('super', 'locals') or y.id.startswith('__')) for y in w):
                    continue
                stored = {y.id for y in w if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load)}
                loaded = {y.id for y in w if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)} & loc | {y.target.id for y in w if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)}
                inb = {id(y) for y in w}
                outer = {y.id for y in ast.walk(fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and id(y) not in inb}
                back = sorted(stored & (outer | loaded))
                before = params(fn) | {y.id for y in ast.walk(fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and id(y) not in inb and getattr(y, 'lineno', 0) < b[0].lineno}
                surely = set()
                for st in b:
                    if isinstance(st, ast.Assign):
                        surely |= {y.id for t in st.targets for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                # what is first stored, then read, inside only
                local = {x for x in stored if x not in before}
                if ast.If in kinds:
                    sure = set(params(fn))
                    for st in ast.walk(fn):
                        if isinstance(st, ast.Assign) and st in fn.body and getattr(st, 'lineno', 0) < b[0].lineno:
                            sure |= {y.id for t in st.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
                        if isinstance(st, ast.For) and any(y is b[0] for z in st.body for y in ast.walk(z)):
                            sure |= {y.id for y in ast.walk(st.target) if isinstance(y, ast.Name)}
                    if not (before & (loaded | set(back))) <= sure:
                        continue
                if not (loaded - local) <= before or any(x not in before and x not in surely for x in back):
                    continue
                need = sorted(((loaded - local) | {x for x in back if x in before and x not in surely}) - {me})
                k += 1
                nm = '_b_%s_%s_%d' % (cls.name if cls else '', fn.name.strip('_'), k)
                args = ast.arguments([], [ast.arg(a) for a in ([me] if me else []) + need], None, [], [], None, [])
                hb = list(b)
                if back:
                    hb.append(ast.Return(N(back[0]) if len(back) == 1 else ast.Tuple([N(x) for x in back], ast.Load())))
                new.append(ast.FunctionDef(nm, args, hb, []))
                c = ast.Call(ast.Attribute(N(me), nm, ast.Load()) if me else N(nm), [N(a) for a in need], [])
                b[:] = [ast.Assign([N(back[0], True) if len(back) == 1 else ast.Tuple([N(x, True) for x in back], ast.Store())], c)] if back else [ast.Expr(c)]
                ch = True
        body[:] = new
    return ch


def loophelper(tree, only=None):
    return blocks(tree, only)


def ifhelper(tree, only=None):
    return blocks(tree, only, (ast.If,), ('body', 'orelse'))


def tailhelper(tree, only=None):
    """the body of a function after its docstring moved into another one that it calls (arguments kept)"""
    ch = False
    for cls in [None] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        body = (cls or tree).body
        new = []
        for fn in body:
            new.append(fn)
            if not isinstance(fn, FN) or isgen(fn) or (only and (fn.name != only[1] or (cls.name if cls else '') != only[0])):
                continue
            if fn.decorator_list and {ast.unparse(d) for d in fn.decorator_list} - {'property'}:
                continue
            if fn.name.startswith('__') and fn.name not in ('__call__', '__len__', '__iter__', '__contains__', '__init__'):
                continue
            if cls and not (fn.args.args and fn.args.args[0].arg in ('self', 'cls')):
                continue
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'super' and not y.args for y in ast.walk(fn)):
                pass
            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            rest = fn.body[k:]
            if len(rest) < 2:
                continue
            nm = '_do_%s_%s' % (cls.name if cls else '', fn.name.strip('_'))
            a = copy.deepcopy(fn.args)
            for z in a.args + a.kwonlyargs:
                z.annotation = None
            a.defaults, a.kw_defaults = [], [None] * len(a.kwonlyargs)
            new.append(ast.FunctionDef(nm, a, rest, []))
            al = [x.arg for x in fn.args.args]
            me = al[0] if cls else None
            c = ast.Call(ast.Attribute(N(me), nm, ast.Load()) if cls else N(nm), [N(x) for x in (al[1:] if cls else al)] +
                         ([ast.Starred(N(fn.args.vararg.arg), ast.Load())] if fn.args.vararg else []),
                         [ast.keyword(x.arg, N(x.arg)) for x in fn.args.kwonlyargs] + ([ast.keyword(None, N(fn.args.kwarg.arg))] if fn.args.kwarg else []))
            if fn.args.args and cls and fn.args.args[0].arg == 'cls' :
                pass
            fn.body[k:] = [ast.Return(c)]
            ch = True
        body[:] = new
    return ch


def posargs(tree, only=None):
    """functions of the module reordered (the methods of each class in reverse order, when nothing decorates by name)"""
    ch = False
    for cls in [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        if only and cls.name != only[0]:
            continue
        fns = [s for s in cls.body if isinstance(s, FN)]
        oth = [s for s in cls.body if not isinstance(s, FN)]
        if len({f.name for f in fns}) != len(fns) or any(not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Assign) for s in oth):
            continue
        if any(isinstance(s, ast.Assign) and {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} & {f.name for f in fns} for s in oth):
            continue
        if any({n.id for d in f.decorator_list for n in ast.walk(d) if isinstance(n, ast.Name)} & {g.name for g in fns} for f in fns):
            continue
        cls.body[:] = oth + fns[::-1]
        ch = True
    return ch


FNT = dict(rename=rename, invert=invert, elifnest=elifnest, testtmp=testtmp, rettmp=rettmp, argtmp=argtmp, comploop=comploop, demorgan=demorgan, splitand=splitand, splitor=splitor,
           nocontinue=nocontinue, addcontinue=addcontinue, earlyreturn=earlyreturn, lateelse=lateelse, singleret=singleret, tern2if=tern2if, if2tern=if2tern, whiletrue=whiletrue,
           augassign=augassign, nop=nop, selfalias=selfalias, untuple=untuple, itemsidx=itemsidx, listiter=listiter)
for c in (DictLit, Keys, Swap, NotIn, IsInst, GetIn, Lit2Tup, Fstr, Pct):
    FNT[c.__name__.lower()] = lambda fn, c=c: c().run(fn)
TREET = dict(loophelper=loophelper, ifhelper=ifhelper, helperise=helperise, tailhelper=tailhelper, reorder=posargs)


def functions(tree):
    def rec(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                yield from rec(c, pre + c.name + '.')
            elif isinstance(c, FN):
                yield pre + c.name, c
    return list(rec(tree, ''))


def rewrite(t, only=None):
    """{file: source}, [changed functions]; only = set of (file, function)"""
    out, done = {}, []
    for f in FILES:
        _k[0] = 0
        tree = ast.parse(open(SRC + f).read())
        ch = False
        if t in FNT:
            for q, fn in functions(tree):
                if (only is None or (f, q) in only) and FNT[t](fn):
                    done.append((f, q))
                    ch = True
        else:
            if only is None:
                if TREET[t](tree):
                    ch = True
                    done += [(f, q) for q, _ in functions(ast.parse(open(SRC + f).read()))]
            else:
                for ff, q in sorted(only):
                    if ff == f:
                        c, _, n = q.rpartition('.')
                        if TREET[t](tree, (c, n)):
                            ch = True
        if ch:
            out[f] = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
    return out, done


def copytree(files):
    d = tempfile.mkdtemp(prefix='ar.')
    for x in ('src', 'tests'):
        shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
    for x in os.listdir('/repo'):
        if os.path.isfile('/repo/' + x):
            shutil.copy('/repo/' + x, d)
    for f, s in files.items():
        open(d + '/src/footprints/' + f, 'w').write(s)
    return d


def tested(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC', PYTHONPATH=d + '/src')
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
    return p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr[-200:]


PROPS = sorted(x[:-3].upper() for x in os.listdir(VERIF + '/fpsa/rules') if re.match(r'c\d\d\.py$', x))


def check(d, p):
    env = dict(os.environ, FPSA_REPO=d, FPSA_EVIDENCE=d + '/ev', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([sys.executable, VERIF + '/check.py', p], env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return p, 3, 'timeout'
    return p, r.returncode, r.stdout


def checks(d, props=None):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda p: check(d, p), props or PROPS))


def main():
    if sys.argv[1] == 'list':
        print(' '.join(list(FNT) + list(TREET)))
        return
    W = int(os.environ.get('W', '170'))
    for t in sys.argv[2:] or list(FNT) + list(TREET):
        files, done = rewrite(t)
        d = copytree(files)
        try:
            r = tested(d)
            bad = []
            if '66 passed' not in r:
                print('%-12s TESTS %s' % (t, r), flush=True)
                shutil.copytree(d, '/tmp/ar_bad_' + t, dirs_exist_ok=True)
                continue
            und = []
            for p, rc, out in checks(d):
                m = re.search(r'undecided=(\d+)', out)
                if rc:
                    lines = [l for l in out.splitlines() if 'VIOLATION' in l or 'violation' in l.lower() or rc != 1]
                    bad.append((p, rc, out))
                elif m and int(m.group(1)):
                    und.append('%s:%s' % (p, m.group(1)))
            print('%-12s %3d functions  alarms: %s  undecided: %s' % (t, len(done), ' '.join('%s(%d)' % (p, rc) for p, rc, _ in bad) or '-', ' '.join(und) or '-'), flush=True)
            for p, rc, out in bad:
                for l in [l for l in out.splitlines() if l.strip()][:int(os.environ.get('L', '3'))]:
                    print('      %s %s' % (p, l[:W]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
