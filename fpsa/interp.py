"""Abstract interpreter over the package's syntax trees.

Path-sensitive inside a function (branches are followed separately, with the predicates taken recorded as
facts), fixpoint at loops (one generic iteration from a widened head state), package calls inlined unless a rule
declares them opaque.  Nothing is executed: values are symbolic names of the expressions that compute them.
"""
import ast
import builtins
import re
import time

from .repo import Func, Class
from .state import mk_exists, State, Ev, mk_eq, mk_is, exc_isa, EXC_TREE, simplify_dnf, subst_deep, bvdepth
from .terms import (C, NONE, TRUE, FALSE, B, is_c, cval, attr, tup, walk, mentions, tainted, show)


class Budget(Exception):
    """The analysis budget ran out: no verdict for this obligation."""


class Exc:
    """An exception propagating: known class name(s) or an opaque one (raised by an opaque call)."""

    def __init__(self, name=None, term=None, call=None, line=None):
        self.name, self.term, self.call, self.line = name, term, call, line

    def __repr__(self):
        return 'Exc(%s)' % (self.name or ('from ' + show(self.call) if self.call else '?'))


class Edge:
    def __init__(self, node, kind, st, conds, value=None, to=None, since=None, alt=0):
        self.node, self.kind, self.st, self.conds, self.value, self.to = node, kind, st, conds, value, to
        self.since = since
        self.alt = alt

    def events(self):
        return self.st.events(self.since)


def implied(a, v, rec):
    """Does the fact only say that the loop variable is an element of the iterated collection?"""
    if not (v and a[0] == 'in' and a[1] == ('elem', rec.lid)):
        return False
    c = rec.coll
    while c is not None:
        if c == a[2]:
            return True
        c = c[2] if c[0] == 'view' and c[1] == 'keys' else None
    return False


class LoopRec:
    def __init__(self, lid, coll, line, file, iskind):
        self.lid, self.coll, self.line, self.file, self.kind = lid, coll, line, file, iskind
        self.edges, self.heads, self.alts = [], [], [[]]
        self.order = None
        self.heapmark = {}

    def __repr__(self):
        return 'Loop#%s' % (self.lid,)

    def delta(self, edge, base):
        """Operations applied to a container by one iteration."""
        ops = edge.st.ops(base)
        return ops[self.heapmark.get((edge.node, base), self.heapmark.get(base, 0)):]


def is_match(t):
    """Is the term what a search with a regular expression gives? (a match, which is true, or None)"""
    return t[0] == 'call' and t[1] in ('.search', '.match', '.fullmatch', 're.search', 're.match', 're.fullmatch')


PRED_METHODS = {'startswith', 'endswith', 'isdigit', 'isidentifier', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
                'isdisjoint', 'issubset', 'issuperset'}
STR_METHODS = {'startswith', 'endswith', 'upper', 'lower', 'strip', 'rstrip', 'lstrip', 'split', 'rsplit', 'partition', 'rpartition',
               'replace', 'join', 'format', 'title', 'isdigit', 'isidentifier', 'ljust', 'rjust', 'removeprefix', 'removesuffix',
               'capitalize', 'splitlines', 'isoformat'}
PURE_METHODS = STR_METHODS | {'keys', 'values', 'items', 'copy', 'get', 'index', 'count', 'group', 'groups', 'isdisjoint', 'intersection',
                              'union', 'difference', 'issubset', 'issuperset'}
PURE_CALLS = {'len', 'str', 'int', 'float', 'repr', 'type', 'hash', 'id', 'abs', 'min', 'max', 'sum', 'sorted', 'range', 'getattr',
              'issubclass', 'isinstance', 'hasattr', 'callable', 'ord', 'chr', 'hex', 'round', 'reversed', 'enumerate', 'zip', 'frozenset',
              'weakref.proxy', 'weakref.ref', 'copy.deepcopy', 'copy.copy', 're.compile', 're.match', 're.search', 're.split', 're.sub',
              're.escape', 'operator.itemgetter', 'bool', 'glob.glob'}
MUTATORS = {'append', 'add', 'update', 'extend', 'remove', 'discard', 'pop', 'popleft', 'appendleft', 'insert', 'clear', 'setdefault',
            'sort', 'reverse', 'popitem', 'difference_update', 'intersection_update', 'extendleft'}
CONTAINER_CTORS = {'dict': 'dict', 'list': 'list', 'set': 'set', 'tuple': 'tuple', 'deque': 'deque', 'frozenset': 'set',
                   'collections.deque': 'deque', 'collections.OrderedDict': 'dict', 'weakref.WeakSet': 'set', 'WeakSet': 'set'}


def bounded(kind, pos, kw):
    """A deque that forgets its first elements is not the container one knows."""
    return kind == 'deque' and (len(pos) > 1 or bool(kw))


IGNORED_LOG = {'debug', 'info', 'warning', 'error', 'critical', 'log', 'exception'}

FIELD_TYPES = {
    ('FootprintBase', '_footprint'): ('inst', 'Footprint'),
    ('FootprintBase', '__class__'): ('type', 'FootprintBase'),
    ('Collector', 'report_log'): ('inst', 'FootprintLog'),
    ('PriorityLevel', '_pset'): ('inst', 'PrioritySet'),
    ('Collector', 'instances'): ('ext', 'Catalog'),
    ('Collector', 'abstract_classes'): ('ext', 'Catalog'),
}
CALL_TYPES = {'collectors:get': ('inst', 'Collector'), 'reporting:get': ('inst', 'FootprintLog'), 'Collector.find_best': ('inst', 'FootprintBase')}
CATALOG_CLASSES = {'Collector'}


def kind_tuple(st, t):
    return st.kind(t) == 'tuple'


def plain_copies(st, t):
    """Tuples that only copy something else, as terms (a reference would not follow the element of the loop it was built in)."""
    def f(x):
        if x[0] == 'ref' and kind_tuple(st, x):
            ops = [o for o in st.ops(x) if o[0] != 'lit']
            if len(ops) == 1 and ops[0][0] in ('copy', 'ext', 'upd') and st.at(ops[0][1])[0] != 'ref':
                return ('call', 'tuple', None, (st.at(ops[0][1]),), (), 0)
        return None
    return subst_deep(t, f)


class Interp:
    def __init__(self, repo, opaque=(), types=None, open_dicts=(), max_steps=400000, exc_in_try=True, elem_types=None,
                 max_states=3000, inline_ctor=(), max_depth=14, time_limit=60.0, raising=None, prints=False, logs=False):
        self.prints, self.logs = prints, logs
        self.repo = repo
        self.merging = False           # dictmerge changes its first argument
        self.skip = None               # loops left aside: what they go through -> bool
        self.presume = None            # the case under analysis: atom -> value, or None
        self.opaque = set(opaque)
        self.types = dict(types or {})
        self.elem_types = dict(elem_types or {})   # collection term -> type of its elements
        self.open = set(open_dicts)
        self.maybe_false = set()       # objects whose truth value is not known although their class is
        self.steps, self.max_steps, self.max_states = 0, max_steps, max_states
        self.inline_ctor = set(inline_ctor)
        self.max_depth = max_depth
        self.counter = 0
        self.stack = []
        self.ownstar = None
        self.closures = {}
        self.functions_seen = set()
        self.loops = {}
        self.phiops = {}      # keys changed by each loop in the attribute dictionaries
        self.unsupported = []
        self.deadline = time.time() + time_limit
        self.raising = raising

    # ------------------------------------------------------------------ utilities
    def fresh(self):
        self.counter += 1
        return self.counter

    def unk(self, why, node=None):
        self.unsupported.append((why, getattr(node, 'lineno', None)))
        return ('unk', self.fresh())

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps or time.time() > self.deadline:
            raise Budget('steps')

    def alloc(self, st, kind, ops=(('lit',),)):
        r = ('ref', self.fresh(), kind)
        st.heap[r] = (kind, tuple(ops))
        return r

    @staticmethod
    def bind(results, f):
        out = []
        for s, v in results:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def mod(self):
        return self.stack[-1].module if self.stack else None

    def file(self):
        return self.stack[-1].module.rel if self.stack else '?'

    def typeof(self, st, t):
        ty = self.types.get(t)
        if ty:
            return ty
        h = t[0]
        if h == 'attr':
            bt = self.typeof(st, t[1])
            if bt and bt[0] in ('inst', 'type'):
                cls = self.repo.classes.get(bt[1])
                if cls:
                    for c in self.repo.mro(cls):
                        r = FIELD_TYPES.get((c.name, t[2]))
                        if r:
                            return r
        elif h == 'elem':
            col = st.loopcol.get(t[1])
            if col is not None:
                ty = self.elem_type(st, col)
                if ty:
                    return ty
        elif h == 'item' and t[1][0] == 'elem' and t[2] == C(1):
            col = st.loopcol.get(t[1][1])
            while col is not None and col[0] == 'call' and col[1] in ('sorted', 'list', 'iter') and col[3]:
                col = col[3][0]
            if col is not None and col[0] == 'call' and (col[1] == 'collectors:items' or col[1] == '.tag_items' and col[2] == ('cls', 'Collector')):
                return ('inst', 'Collector')
        elif h == 'call':
            if t[1].startswith('new ') and t[1][4:] in self.repo.classes:
                return ('inst', t[1][4:])
            if t[1] in CALL_TYPES:
                return CALL_TYPES[t[1]]
        elif h == 'ref':
            return ('builtin', t[2])
        elif h == 'cls':
            return ('type', t[1])
        for c in ('FootprintBase', 'Footprint', 'PriorityLevel', 'DecorativeFootprint', 'FootprintLogClass', 'FootprintLogCollector'):
            if st.facts.get(('isinstance', t, ('cls', c))):
                return ('inst', c)
        return None

    def elem_type(self, st, col):
        ty = self.elem_types.get(col)
        if ty:
            return ty
        if col[0] == 'attr' and col[2] == '_items':
            bt = self.typeof(st, col[1])
            if bt == ('inst', 'Collector'):
                return ('type', 'FootprintBase')
            if bt == ('ext', 'Catalog'):
                return ('inst', 'FootprintBase')
        if col[0] == 'call' and col[1] == 'Collector._fasttrack_subsetting':
            return ('type', 'FootprintBase')
        while col[0] == 'call' and col[1] in ('sorted', 'list', 'set', 'tuple', 'iter', 'reversed') and col[3]:
            col = col[3][0]
        if col[0] == 'call' and (col[1] == 'collectors:values' or col[1] == '.tag_values' and col[2] == ('cls', 'Collector')):
            return ('inst', 'Collector')
        if col[0] == 'call' and col[1].startswith('Collector.filter_'):
            return ('type', 'FootprintBase')
        return None

    # ------------------------------------------------------------------ entry
    def run(self, func, args, st=None):
        """args: {param: term}; -> [(State, outcome)] with outcome ('ret', term) or ('exc', Exc)."""
        st = st or State()
        out = []
        for s, v in self.call_func(st, func, None, dict(args), None):
            out.append((s, ('exc', v) if isinstance(v, Exc) else ('ret', v)))
        return out

    # ------------------------------------------------------------------ calls of package functions
    def bind_args(self, st, func, recv, args, kwargs, star=None):
        """-> {param: term} or None when the call shape is not understood."""
        a = func.args if isinstance(func, ast.Lambda) else func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if recv is not None:
            pos.insert(0, recv)
        out = {}
        for n, v in zip(names, pos):
            out[n] = v
        extra = pos[len(names):]
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    return None
                out[n] = kw.pop(n)
        if any(x[0] == 'star' for x in out.values()):
            return None
        if extra and not a.vararg:
            return None
        if a.vararg:
            if any(x[0] == 'star' for x in extra):
                if len(extra) > 1:
                    return None
                out[a.vararg.arg] = extra[0][1]         # passed on as received
            else:
                out[a.vararg.arg] = tup(*extra)
        if kw and not a.kwarg:
            return None
        own, self.ownstar = self.ownstar, None
        if a.kwarg and star is not None and star == own and not kw:
            out[a.kwarg.arg] = star             # the dictionary unpacked is never seen again: it might as well be this one
        elif a.kwarg:
            r = self.alloc(st, 'dict')
            if star is not None:
                st.heap[r] = ('dict', (('copy', star, len(st.ops(star))),))
            for k, v in kw.items():
                st.push(r, ('set', C(k), v))
            out[a.kwarg.arg] = r
        elif star is not None:
            return None
        return out

    def call_func(self, st, func, recv, bound, closure):
        """Inline one function; bound: complete mapping, missing parameters get their defaults."""
        node = func.node
        if len(self.stack) > self.max_depth:
            raise Budget('depth')
        self.functions_seen.add(func.qual)
        a = node.args
        params = a.posonlyargs + a.args
        defaults = dict(zip([p.arg for p in params[len(params) - len(a.defaults):]], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        caller = st.fid
        fid = self.fresh()
        st = st.copy()
        st.frames[fid] = {'$parent': closure, '$func': func}
        st.fid = fid
        self.stack.append(func)
        try:
            states = [st]
            for p in params + a.kwonlyargs:
                if p.arg in bound:
                    for s in states:
                        s.setvar(p.arg, bound[p.arg])
                elif p.arg in defaults:
                    nxt = []
                    d = defaults[p.arg]
                    for s in states:
                        if isinstance(d, ast.Call) or isinstance(d, (ast.Dict, ast.List, ast.Set)):
                            s.setvar(p.arg, ('sym', 'default:%s.%s' % (func.qual, p.arg)))
                            nxt.append(s)
                            continue
                        for s2, v in self.ev(d, s):
                            if not isinstance(v, Exc):
                                s2.setvar(p.arg, v)
                                nxt.append(s2)
                    states = nxt
                else:
                    for s in states:
                        s.setvar(p.arg, ('sym', p.arg))
            for v in (a.vararg, a.kwarg):
                if v:
                    for s in states:
                        if v.arg in bound:
                            s.setvar(v.arg, bound[v.arg])
                        elif v is a.vararg:
                            s.setvar(v.arg, tup())
                        else:
                            s.setvar(v.arg, self.alloc(s, 'dict'))
            gen = isinstance(func, Func) and func.is_generator
            if gen:
                for s in states:
                    s.setvar('$yield', self.alloc(s, 'list'))
            out = []
            for s in states:
                for s2, o in self.block(node.body, s):
                    y = s2.env().get('$yield')
                    s2 = s2 if s2.fid == caller else s2.copy()
                    s2.fid = caller
                    if o[0] == 'exc':
                        out.append((s2, o[1]))
                    elif gen:
                        out.append((s2, y))
                    elif o[0] == 'ret':
                        out.append((s2, o[1]))
                    else:
                        out.append((s2, NONE))
            self.check(out)
            return out
        finally:
            self.stack.pop()

    def check(self, lst):
        if len(lst) > self.max_states:
            raise Budget('states')

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        states = [(st, ('next',))]
        for n in body:
            nxt = []
            for s, o in states:
                if o[0] != 'next':
                    nxt.append((s, o))
                    continue
                self.tick()
                nxt.extend(self.stmt(n, s))
            states = self.merge(nxt)
            self.check(states)
        return states

    def merge(self, states):
        """Joins states that only differ by complementary facts (keeps the analysis small)."""
        if len(states) < 2:
            return states
        groups = {}
        rest = []
        for i, (s, o) in enumerate(states):
            if o[0] == 'next':
                key = (id(s.ev), s.fid, tuple(sorted(((k, id(v)) for k, v in s.frames.items()), key=lambda x: x[0]))) if False else None
                sig = (s.ev, s.fid, _frsig(s), tuple(sorted(s.heap.items(), key=lambda x: repr(x[0]))),
                       tuple(sorted(s.attrs.items(), key=repr)))
                try:
                    groups.setdefault(sig, []).append((i, s, o))
                    continue
                except TypeError:
                    pass
            rest.append((i, s, o))
        out = list(rest)
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            g = list(g)
            changed = True
            while changed and len(g) > 1:
                changed = False
                for a in range(len(g)):
                    for b in range(a + 1, len(g)):
                        m = _join(g[a][1], g[b][1])
                        if m is not None:
                            g[a] = (g[a][0], m, g[a][2])
                            del g[b]
                            changed = True
                            break
                    if changed:
                        break
            out.extend(g)
        out.sort(key=lambda x: x[0])
        return [(s, o) for _, s, o in out]

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.unsupported.append(('statement ' + type(n).__name__, n.lineno))
            for name in assigned_names([n]):
                st = st.copy()
                st.setvar(name, self.unk('stmt', n))
            return [(st, ('next',))]
        return m(n, st)

    def _outs(self, results, f=None):
        out = []
        for s, v in results:
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
            else:
                out.extend(f(s, v) if f else [(s, ('next',))])
        return out

    def s_Pass(self, n, st):
        return [(st, ('next',))]

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, ('next',))]
        if isinstance(n.value, ast.Call) and self.is_log(n.value):
            c = n.value
            acting = [x for x in list(c.args) + [k.value for k in c.keywords] if acts(x)]
            if acting:
                # the message itself does something
                quiet = ast.Expr(ast.Call(c.func, [x for x in c.args if x not in acting], [k for k in c.keywords if k.value not in acting], lineno=c.lineno))
                return self._outs(self.evs(acting, st), lambda s, v: self.s_Expr(quiet, s))
            if self.logs and isinstance(c.func, ast.Attribute):
                # a message: only its level is known
                out = []
                for s, v in self.ev(c.args[0], st) if c.func.attr == 'log' and c.args else [(st, C(c.func.attr))]:
                    s = s.copy()
                    s.emit(Ev('call', 'message', None, (v,), (), None, c.lineno, self.file()))
                    out.append((s, ('next',)))
                return out
            return [(st, ('next',))]
        return self._outs(self.ev(n.value, st))

    def is_log(self, c):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in IGNORED_LOG and isinstance(f.value, ast.Name) and f.value.id in ('logger', 'logging', 'log'):
            return True
        return isinstance(f, ast.Name) and f.id == 'print' and not self.prints

    def s_Assign(self, n, st):
        def f(s, v):
            rs = [(s, ('next',))]
            for t in n.targets:
                nxt = []
                for s1, o in rs:
                    if o[0] == 'next':
                        nxt.extend(self.assign(t, v, s1))
                    else:
                        nxt.append((s1, o))
                rs = nxt
            return rs
        return self._outs(self.ev(n.value, st), f)

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, ('next',))]
        return self._outs(self.ev(n.value, st), lambda s, v: self.assign(n.target, v, s))

    def s_AugAssign(self, n, st):
        load = _as_load(n.target)

        def f(s, cur):
            def g(s2, v):
                kind = s2.kind(cur) if cur[0] == 'ref' else None
                if kind in ('list', 'deque') and isinstance(n.op, ast.Add):
                    s2 = s2.copy()
                    s2.push(cur, ('ext', s2.at(v)))
                    self.mut(s2, cur, 'extend', (v,), n)
                    return [(s2, ('next',))]
                if kind in ('set', 'dict') and isinstance(n.op, ast.BitOr):
                    s2 = s2.copy()
                    s2.push(cur, ('upd' if kind == 'dict' else 'ext', s2.at(v)))
                    self.mut(s2, cur, 'update', (v,), n)
                    return [(s2, ('next',))]
                if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and not is_c(cur) and kind is None and not isinstance(n.target, ast.Name):
                    s2 = s2.copy()
                    s2.push(cur, ('inv',))
                    self.mut(s2, cur, 'aug' + type(n.op).__name__, (v,), n)
                    return [(s2, ('next',))]
                return self._outs(self.binop(n.op, cur, v, s2, n), lambda s3, r: self.assign(n.target, r, s3))
            return self._outs(self.ev(n.value, s), g)
        return self._outs(self.ev(load, st), f)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st = st.copy()
            fn = st.env().get('$func')
            if fn is not None and t.id in _nonlocals(fn.node):
                fid = st.env().get('$parent')
                while fid is not None and t.id not in st.frames[fid]:
                    fid = st.frames[fid].get('$parent')
                if fid is not None:
                    st.setvar(t.id, v, fid)
                    return [(st, ('next',))]
            st.setvar(t.id, v)
            return [(st, ('next',))]
        if isinstance(t, (ast.Tuple, ast.List)):
            rs = [(st, ('next',))]
            star = ([i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)] + [len(t.elts)])[0]
            for i, e in enumerate(t.elts):
                nxt = []
                for s, o in rs:
                    if o[0] != 'next':
                        nxt.append((s, o))
                        continue
                    if isinstance(e, ast.Starred):
                        rest = i + 1 - len(t.elts)
                        part = self.unk('starred', t) if v[0] in ('tuple', 'unk', 'c') else \
                            ('call', 'slice', None, (s.at(v), C(i), C(rest) if rest else NONE, NONE), (), 0)
                        nxt.extend(self.assign(e.value, part, s))
                        continue
                    nxt.extend(self._outs(self.index(s, v, C(i if i < star else i - len(t.elts)), t), lambda s2, x, e=e: self.assign(e, x, s2)))
                rs = nxt
            return rs
        if isinstance(t, ast.Attribute):
            return self._outs(self.ev(t.value, st), lambda s, b: self.setattr_(s, b, t.attr, v, t))
        if isinstance(t, ast.Subscript):
            def f(s, b):
                if isinstance(t.slice, ast.Slice):
                    s = s.copy()
                    full = t.slice.lower is None and t.slice.upper is None and t.slice.step is None
                    if full:
                        s.push(b, ('clr',))
                        s.push(b, ('ext', s.at(v)))
                    else:
                        s.push(b, ('inv',))
                    self.mut(s, b, 'setslice', (v,), t)
                    return [(s, ('next',))]

                def g(s2, k):
                    s2 = s2.copy()
                    if b[0] == 'attr' and b[2] == '__dict__' and is_c(k):
                        s2.attrs[(b[1], cval(k))] = v
                    s2.push(b, ('set', k, v))
                    self.mut(s2, b, 'setitem', (k, v), t)
                    return [(s2, ('next',))]
                return self._outs(self.ev(t.slice, s), g)
            return self._outs(self.ev(t.value, st), f)
        self.unsupported.append(('assign', t.lineno))
        return [(st, ('next',))]

    def mut(self, st, base, op, args, node):
        st.emit(Ev('mut', op, base, tuple(args), (), None, getattr(node, 'lineno', 0), self.file()))

    def setattr_(self, st, b, name, v, node):
        ty = self.typeof(st, b)
        if ty and ty[0] == 'inst' and ty[1] in self.repo.classes:
            p = self.repo.find_prop(self.repo.cls(ty[1]), name)
            if p and p[1] and p[1].qual not in self.opaque:
                pn = [x.arg for x in p[1].node.args.args]
                bound = self.bind_args(st, p[1], b, [v], {})
                return self._outs(self.call_func(st, p[1], b, bound, None))
        st = st.copy()
        st.attrs[(b, name)] = v
        st.emit(Ev('setattr', name, b, (v,), (), None, getattr(node, 'lineno', 0), self.file()))
        return [(st, ('next',))]

    def s_Delete(self, n, st):
        rs = [(st, ('next',))]
        for t in n.targets:
            nxt = []
            for s, o in rs:
                if o[0] != 'next':
                    nxt.append((s, o))
                elif isinstance(t, ast.Name):
                    s = s.copy()
                    s.setvar(t.id, ('unbound',))
                    nxt.append((s, o))
                elif isinstance(t, ast.Attribute):
                    def f(s2, b, t=t):
                        s2 = s2.copy()
                        s2.attrs[(b, t.attr)] = ('deleted',)
                        s2.emit(Ev('delattr', t.attr, b, (), (), None, t.lineno, self.file()))
                        return [(s2, ('next',))]
                    nxt.extend(self._outs(self.ev(t.value, s), f))
                elif isinstance(t, ast.Subscript):
                    def f(s2, b, t=t):
                        if isinstance(t.slice, ast.Slice):
                            s2 = s2.copy()
                            s2.push(b, ('clr',) if t.slice.lower is None and t.slice.upper is None else ('inv',))
                            self.mut(s2, b, 'delslice', (), t)
                            return [(s2, ('next',))]

                        def g(s3, k):
                            out = []
                            if self.field_kind(s3, b) == 'list':
                                s4 = s3.copy()
                                s4.push(b, ('del', k))
                                self.mut(s4, b, 'delitem', (k,), t)
                                return [(s4, ('next',))]
                            for s4, has, _ in self.lookup(s3, b, k, t):
                                if has:
                                    s4 = s4.copy()
                                    if b[0] == 'attr' and b[2] == '__dict__' and is_c(k):
                                        s4.attrs[(b[1], cval(k))] = ('deleted',)
                                    s4.push(b, ('del', k))
                                    self.mut(s4, b, 'delitem', (k,), t)
                                    out.append((s4, ('next',)))
                                else:
                                    out.append((s4, ('exc', Exc('KeyError', line=t.lineno))))
                            return out
                        return self._outs(self.ev(t.slice, s2), g)
                    nxt.extend(self._outs(self.ev(t.value, s), f))
                else:
                    nxt.append((s, o))
            rs = nxt
        return rs

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return self._outs(self.ev(n.value, st), lambda s, v: [(s, ('ret', v))])

    def s_Break(self, n, st):
        return [(st, ('brk',))]

    def s_Continue(self, n, st):
        return [(st, ('cont',))]

    def s_If(self, n, st):
        out = []
        for s, v in self.test(n.test, st):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
            else:
                out.extend(self.block(n.body if v else n.orelse, s))
        return out

    def s_Assert(self, n, st):
        out = []
        for s, v in self.test(n.test, st):
            if isinstance(v, Exc):
                out.append((s, ('exc', v)))
            elif v:
                out.append((s, ('next',)))
            else:
                out.append((s, ('exc', Exc('AssertionError', line=n.lineno))))
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            cur = st.env().get('$exc') or Exc(None)
            return [(st, ('exc', cur))]
        e = n.exc
        name = None
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, ast.Name):
            name = f.id
        elif isinstance(f, ast.Attribute):
            name = f.attr if not (isinstance(f.value, ast.Name) and f.value.id == 're') else 're.' + f.attr
        known = name in EXC_TREE or (name in self.repo.classes)
        if isinstance(f, ast.Name) and f.id in st.env() and not isinstance(e, ast.Call):
            v = st.env()[f.id]
            if v[0] == 'excval':
                return [(st, ('exc', v[1]))]
        if not known and isinstance(e, ast.Call):
            # a helper building the exception
            def g(s, v):
                nm = v[1][4:] if v[0] == 'call' and v[1].startswith('new ') else None
                x = Exc(nm, term=v, line=n.lineno)
                s = s.copy()
                s.emit(Ev('raise', nm, None, (), (), None, n.lineno, self.file()))
                return [(s, ('exc', x))]
            return self._outs(self.ev(e, st), g)
        self.note_exc(name)
        st = st.copy()
        st.emit(Ev('raise', name, None, (), (), None, n.lineno, self.file()))
        return [(st, ('exc', Exc(name, line=n.lineno)))]

    def note_exc(self, name):
        c = self.repo.classes.get(name)
        if c and name not in EXC_TREE:
            bs = c.basenodes
            b = bs[0] if bs else None
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else 'Exception')
            EXC_TREE[name] = bn
            self.note_exc(bn)

    def s_FunctionDef(self, n, st):
        st = st.copy()
        cid = self.fresh()
        f = Func(n, self.mod(), None)
        f.name = n.name
        defs = {}
        a = n.args
        for p, d in zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults):
            for s2, v in self.ev(d, st)[:1]:
                defs[p.arg] = v
        self.closures[cid] = (f, st.fid, defs)
        st.setvar(n.name, ('clo', cid))
        return [(st, ('next',))]

    def s_ClassDef(self, n, st):
        st = st.copy()
        st.setvar(n.name, self.unk('local class', n))
        return [(st, ('next',))]

    def s_Import(self, n, st):
        st = st.copy()
        for a in n.names:
            st.setvar(a.asname or a.name.split('.')[0], ('mod', a.name if a.asname else a.name.split('.')[0]))
        return [(st, ('next',))]

    def s_ImportFrom(self, n, st):
        from .repo import import_target
        st = st.copy()
        for a in n.names:
            st.setvar(a.asname or a.name, self.global_term(self.repo.resolve_import(import_target(self.mod().name, n, a))))
        return [(st, ('next',))]

    def s_With(self, n, st):
        rs = [(st, ('next',))]
        for it in n.items:
            nxt = []
            for s, o in rs:
                def f(s2, v, it=it):
                    if it.optional_vars is not None:
                        return self.assign(it.optional_vars, ('call', 'enter', None, (v,), (), 0), s2)
                    return [(s2, ('next',))]
                nxt.extend(self._outs(self.ev(it.context_expr, s), f) if o[0] == 'next' else [(s, o)])
            rs = nxt
        out = []
        for s, o in rs:
            out.extend(self.block(n.body, s) if o[0] == 'next' else [(s, o)])
        return out

    def s_Try(self, n, st):
        s0 = st.copy()
        s0.tryd += 1
        res = []
        for s, o in self.block(n.body, s0):
            s = s.copy()
            s.tryd -= 1
            if o[0] == 'exc':
                res.extend(self.handle(n, s, o[1]))
            elif o[0] == 'next' and n.orelse:
                res.extend(self.block(n.orelse, s))
            else:
                res.append((s, o))
        if not n.finalbody:
            return res
        out = []
        for s, o in res:
            for s2, o2 in self.block(n.finalbody, s):
                out.append((s2, o if o2[0] == 'next' else o2))
        return out

    def handle(self, n, st, exc):
        out = []
        cur = [st]
        for h in n.handlers:
            names = exc_names(h.type)
            nxt = []
            for s in cur:
                if names is None or (exc.name is None and exc.call is None):
                    out.extend(self.run_handler(h, s, exc))
                elif exc.name is not None:
                    self.note_exc(exc.name)
                    if any(exc_isa(exc.name, x) for x in names):
                        out.extend(self.run_handler(h, s, exc))
                    else:
                        nxt.append(s)
                else:
                    if 'Exception' in names or 'BaseException' in names:
                        a = ('exctype', exc.call, ('Exception',))
                    else:
                        a = ('exctype', exc.call, tuple(sorted(names)))
                    s1 = s.assume(a, True)
                    if s1 is not None:
                        out.extend(self.run_handler(h, s1, exc))
                    if 'Exception' not in names and 'BaseException' not in names:
                        s2 = s.assume(a, False)
                        if s2 is not None:
                            nxt.append(s2)
            cur = nxt
        out.extend((s, ('exc', exc)) for s in cur)
        return out

    def run_handler(self, h, st, exc):
        st = st.copy()
        prev = st.env().get('$exc')
        st.setvar('$exc', exc)
        if h.name:
            st.setvar(h.name, ('excval', exc))
        out = []
        for s, o in self.block(h.body, st):
            s = s.copy()
            if prev is None:
                e = dict(s.frames[s.fid])
                e.pop('$exc', None)
                if h.name:
                    e.pop(h.name, None)
                s.frames[s.fid] = e
            else:
                s.setvar('$exc', prev)
            out.append((s, o))
        return out

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st):
        def f(s, c):
            out = []
            for s2, plan in self.iter_plan(s, c, n):
                if plan[0] == 'unroll':
                    out.extend(self.unroll(s2, plan[1], n))
                elif len(plan) > 4 and not self.skip:
                    out.extend(self.unroll(s2, plan[4][0], n, lambda s, rest=plan[4][1]: self.loop(s, n, rest)))
                elif self.skip and plan[1] is not None and self.skip(plan[1]):
                    out.append((s2, ('next',)))
                else:
                    out.extend(self.loop(s2, n, plan))
            return out
        return self._outs(self.ev(n.iter, st), f)

    def s_While(self, n, st):
        if not isinstance(n.test, ast.Constant):
            r = self.peel(n, st)
            if r is not None:
                return r
        return self.loop(st, n, None)

    def peel(self, n, st, bound=3, width=60):
        """Exact execution of a while loop whose test is decided on every path within a few iterations, else None."""
        keep = dict(self.loops)
        active, out, ends = [st], [], []
        try:
            for _ in range(bound + 1):
                run = []
                for s in active:
                    ts = self.test(n.test, s)
                    if len(ts) != 1 or isinstance(ts[0][1], Exc):
                        raise Budget('peel')
                    (run if ts[0][1] else ends).append(ts[0][0])
                if not run:
                    for s in ends:
                        out.extend(self.block(n.orelse, s) if n.orelse else [(s, ('next',))])
                    return out
                nxt = []
                for s in run:
                    for s2, o in self.block(n.body, s):
                        if o[0] in ('next', 'cont'):
                            nxt.append(s2)
                        elif o[0] == 'brk':
                            out.append((s2, ('next',)))
                        else:
                            out.append((s2, o))
                active = [s for s, _ in self.merge([(s, ('next',)) for s in nxt])]
                if len(active) > width:
                    raise Budget('peel')
        except Budget:
            pass
        self.loops.clear()
        self.loops.update(keep)
        return None

    def unroll(self, st, elems, n, rest=None):
        active = [st]
        out = []
        done = []
        for e in elems:
            nxt = []
            for s in active:
                for s1, o1 in self.assign(n.target, e, s):
                    if o1[0] != 'next':
                        out.append((s1, o1))
                        continue
                    for s2, o in self.block(n.body, s1):
                        if o[0] in ('next', 'cont'):
                            nxt.append(s2)
                        elif o[0] == 'brk':
                            done.append((s2, ('next',)))
                        else:
                            out.append((s2, o))
            active = [s for s, _ in self.merge([(s, ('next',)) for s in nxt])]
            self.check(active)
        for s in active:
            if rest is not None:
                out.extend(rest(s))
            elif n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append((s, ('next',)))
        return out + done

    def positions(self, st, c, node):
        """A loop over all the positions of a sequence goes over its items."""
        if c[0] != 'call' or c[1] != 'range' or c[4]:
            return None
        a = c[3]
        last = a[0] if len(a) == 1 else a[1] if len(a) == 2 and a[0] == C(0) or len(a) == 3 and a[0] == C(0) and a[2] == C(1) else None
        down = False
        if last is None and len(a) == 3 and a[1:] == (C(-1), C(-1)) and a[0][0] == 'bin' and a[0][1:] in ((('+', a[0][2], C(-1))), (('-', a[0][2], C(1)))):
            last, down = a[0][2], True
        if last is None or last[0] != 'call' or last[1] != 'len' or len(last[3]) != 1:
            return None
        out = []
        for s, p in self.iter_plan(st, last[3][0], node):
            if p[0] == 'unroll':
                ix = [C(i) for i in range(len(p[1]))]
                out.append((s, ('unroll', ix[::-1] if down else ix)))
                continue
            if p[0] != 'gen' or len(p[2]) != 1 or p[2][0][1] or p[3] is not None or len(p) > 4 or p[2][0][0](0) != ('elem', 0):
                return None
            mk = (lambda lid: ('call', 'position', None, (('elem', lid),), (), 0)) if down else lambda lid: ('idx', lid)
            out.append((s, ('gen', p[1], [(mk, [])], ('call', 'reversed', None, (last[3][0],), (), 0) if down else None)))
        return out

    def iter_plan(self, st, c, node=None):
        """-> [(state, ('unroll', [terms]) | ('gen', coll, [(elem_maker, conds)], order))]"""
        order = None
        if c[0] == 'tup':
            return [(st, ('unroll', list(c[1])))]
        if c[0] == 'at':
            base, n = c[1], c[2]
        else:
            base, n = c, None
        if c[0] == 'view':
            return self.view_plan(st, c)
        if c[0] == 'call' and c[1] in ('sorted', 'reversed', 'enumerate', 'zip', 'range', 'iter'):
            if c[1] in ('sorted', 'reversed', 'iter'):
                out = []
                for s, p in self.iter_plan(st, c[3][0], node):
                    if p[0] == 'unroll':
                        if c[1] == 'reversed':
                            p = ('unroll', p[1][::-1])
                        elif c[1] == 'sorted' and all(is_c(x) for x in p[1]) and not c[4]:
                            try:
                                p = ('unroll', sorted(p[1], key=cval))
                            except TypeError:
                                pass
                        elif c[1] == 'sorted' and len(p[1]) > 1:
                            p = ('gen', c, [(lambda lid: ('elem', lid), [])], c)
                    else:
                        p = (p[0], p[1], p[2], c)
                    out.append((s, p))
                return out
            if c[1] == 'enumerate':
                out = []
                given = [v for k, v in c[4] if k == 'start'] + list(c[3][1:])
                start = given[0] if given else C(0)
                nth = lambda i: i if start == C(0) else C(cval(i) + cval(start)) if is_c(i) and is_c(start) else ('bin', '+', start, i) if not is_c(start) else ('bin', '+', i, start)
                for s, p in self.iter_plan(st, c[3][0], node):
                    if p[0] == 'unroll':
                        p = ('unroll', [tup(nth(C(i)), x) for i, x in enumerate(p[1])])
                    else:
                        alts = [((lambda lid, mk=mk: tup(nth(('idx', lid)), mk(lid))), cd) for mk, cd in p[2]]
                        p = (p[0], p[1], alts, p[3])
                    out.append((s, p))
                return out
            if c[1] == 'range' and all(is_c(x) for x in c[3]) and not c[4]:
                r = range(*[cval(x) for x in c[3]])
                if len(r) <= 12:
                    return [(st, ('unroll', [C(i) for i in r]))]
            p = self.positions(st, c, node)
            if p is not None:
                return p
        if is_c(c) and isinstance(cval(c), str) and len(cval(c)) <= 6:
            return [(st, ('unroll', [C(x) for x in cval(c)]))]
        ops = st.ops(base)[:n] if n is not None else st.ops(base)
        if ops and ops[0][0] in ('lit', 'copy') or base[0] == 'ref':
            r = self.ref_plan(st, base, ops)
            if r is not None:
                return r
        ty = self.typeof(st, c)
        if ty in (('inst', 'Collector'), ('ext', 'Catalog')):
            c = attr(c, '_items')
        elif ty and ty[0] == 'inst' and ty[1] in self.repo.classes:
            m = self.repo.find_method(self.repo.cls(ty[1]), '__iter__')
            if m:
                out = []
                for s, v in self.call_func(st, m, c, self.bind_args(st, m, c, [], {}), None):
                    if not isinstance(v, Exc):
                        out.extend(self.iter_plan(s, v, node))
                return out
        coll = st.at(c) if c[0] != 'at' else c
        base, n = (coll[1], coll[2]) if coll[0] == 'at' else (coll, 0)
        tail = st.ops(base)[:n]
        if n and base[0] == 'call' and all(o[0] in ('sort', 'reverse') for o in tail):
            # a given list put in another order, in place
            order = order or base
            for o in tail:
                kw = tuple((k, v) for k, v in zip(('key', 'reverse'), o[1:]) if v not in (NONE, FALSE))
                order = ('call', 'sorted' if o[0] == 'sort' else 'reversed', None, (order,), kw, 0)
            coll = base
        return [(st, ('gen', coll, [(lambda lid: ('elem', lid), [])], order))]

    def ref_plan(self, st, base, ops):
        """Iteration over a container built by the analysed code."""
        if not ops:
            return None
        elems = []
        alts = []
        colls = []
        kind = st.kind(base)
        orders = []
        late = False        # elements of its own after those of a collection

        def wrap(how, kw=()):
            orders[:] = [('call', how, None, (orders[0] if orders else colls[0] if colls else base,), kw, 0)]
        for op in ops:
            if op[0] == 'lit':
                continue
            if op[0] in ('app', 'add'):
                late = late or bool(colls)
                elems.append(op[1])
            elif op[0] == 'set':
                if op[1] not in elems:
                    elems.append(op[1])
            elif op[0] in ('copy', 'ext', 'upd'):
                src = ('at', op[1], op[2]) if op[0] == 'copy' else op[1]
                if op[0] == 'copy':
                    src = st.at(op[1], op[2])
                ps = self.iter_plan(st, src)
                if len(ps) != 1:
                    return None
                p = ps[0][1]
                if p[0] == 'unroll':
                    late = late or bool(colls and p[1])
                    elems.extend(p[1])
                else:
                    late = late or p[1][0] == 'at' or len(p) > 4
                    colls.append(p[1])
                    alts.extend(p[2])
                    orders.extend([p[3]] if p[3] else [])
            elif op[0] == 'each':
                rec = op[2]
                orders.extend([rec.order] if rec.order else [])
                colls.append(rec.coll if rec.coll is not None else ('unk', self.fresh()))
                for e in rec.edges:
                    if e.kind not in ('next', 'brk'):
                        continue
                    d = op[3](e)
                    for o in d:
                        if o[0] not in ('app', 'add', 'set'):
                            return None
                        lid0 = rec.lid
                        val = plain_copies(e.st, o[1])
                        conds = list(e.conds)

                        def mk(lid, val=val, lid0=lid0):
                            return subst_deep(val, lambda x: (x[0], lid) + x[2:] if len(x) > 1 and x[0] in ('elem', 'idx') and x[1] == lid0 else None)
                        alts.append((mk, [(c, v, lid0) for c, v in conds]))
                    st.heap = {**e.st.heap, **st.heap}
            elif op[0] in ('sort', 'reverse'):
                late = True
                if len(elems) > 1 and not alts:
                    return None
                if colls:
                    kw = tuple((k, v) for k, v in zip(('key', 'reverse'), op[1:]) if v not in (NONE, FALSE))
                    wrap('sorted' if op[0] == 'sort' else 'reversed', kw)
            else:
                return None
        if kind == 'set' and colls:
            wrap('set')
        order = orders[0] if orders else None
        if not alts and not colls:
            if len(elems) <= 14:
                return [(st, ('unroll', elems))]
            return None
        if len(set(colls)) != 1:
            return None
        if elems:
            first = (elems, ('gen', colls[0], alts, order)) if kind in ('list', 'tuple') and not late and len(elems) <= 4 else None
            alts = [((lambda lid, e=e: e), []) for e in elems] + alts
            return [(st, ('gen', ('at', base, len(ops)), alts, order) + ((first,) if first else ()))]
        return [(st, ('gen', colls[0], alts, order))]

    def view_plan(self, st, c):
        kind, d = c[1], c[2]
        out = []
        for s, p in self.iter_plan(st, d):
            if p[0] == 'unroll':
                if kind == 'keys':
                    out.append((s, p))
                    continue
                vals = []
                base, n = (d[1], d[2]) if d[0] == 'at' else (d, None)
                for k in p[1]:
                    v = None
                    for s2, has, val in self.lookup(s, base, k, None, n):
                        v = val if has else None
                    vals.append(tup(k, v if v is not None else ('unk', self.fresh())) if kind == 'items' else (v or ('unk', self.fresh())))
                out.append((s, ('unroll', vals)))
            else:
                if kind == 'keys':
                    out.append((s, p))
                    continue
                base, n = (d[1], d[2]) if d[0] == 'at' else (d, None)

                def mkv(lid, mk, s=s):
                    k = mk(lid)
                    opsd = s.ops(base) if n is None else s.ops(base)[:n]
                    v = None
                    if opsd and opsd[-1][0] == 'each' and len(opsd) == 2 and opsd[0][0] == 'lit':
                        for e in opsd[-1][2].edges:
                            for o in opsd[-1][3](e):
                                if o[0] == 'set':
                                    lid0 = opsd[-1][2].lid
                                    ren = lambda t: subst_deep(t, lambda x: (x[0], lid) + x[2:] if len(x) > 1 and x[0] in ('elem', 'idx') and x[1] == lid0 else None)
                                    if ren(o[1]) == k:
                                        v = ren(o[2])
                        if v is None:
                            v = ('itemv', d, k)
                    else:
                        src, m = base, n
                        while True:
                            o2 = s.ops(src) if m is None else s.ops(src)[:m]
                            if len(o2) == 1 and o2[0][0] == 'copy':
                                src, m = o2[0][1], o2[0][2]
                                if src[0] == 'at':
                                    src, m = src[1], src[2]
                            else:
                                break
                        v = ('item', src, k) if not o2 else ('itemv', s.at(src, len(o2)), k)
                    return tup(k, v) if kind == 'items' else v
                alts = [((lambda lid, mk=mk: mkv(lid, mk)), cd + [('in', None, None)] if False else cd) for mk, cd in p[2]]
                out.append((s, (p[0], p[1], alts, p[3])))
        return out

    def loop(self, st, n, plan):
        """Fixpoint over one generic iteration."""
        isfor = isinstance(n, ast.For)
        lid = self.fresh()
        names = assigned_names(n.body + ([ast.Assign(targets=[n.target], value=ast.Constant(0), lineno=0)] if isfor else []))
        if not isfor:
            names |= assigned_names([ast.Expr(n.test)])
        fn = self.stack[-1].node
        env0 = st.env()
        live = {x for x in names if self.maybe_carried(x, n, fn)}
        if isfor:
            tnames = assigned_names([ast.Assign(targets=[n.target], value=ast.Constant(0), lineno=0)])
            live = {x for x in live if x not in tnames}
        widened, mutated, mattrs = set(), {}, {}
        coll = plan[1] if isfor else None
        for attempt in range(14):
            rec = LoopRec(lid, coll, n.lineno, self.file(), 'for' if isfor else 'while')
            rec.order = plan[3] if isfor else None
            rec.alts = [[(subst_deep(a, lambda x: (x[0], lid) + x[2:] if len(x) > 1 and x[0] in ('elem', 'idx') and x[1] == lid0 else None), v)
                         for a, v, lid0 in conds] for _, conds in plan[2]] if isfor else [[]]
            entry = tuple(sorted((v, env0.get(v, ('unbound',))) for v in live if v not in widened))
            nodes, work = [entry], [entry]
            restart = False
            exits = []     # exhaustion states of while loops
            while work and not restart:
                node = work.pop(0)
                h = st.copy()
                for v in names:
                    if v in widened or v not in live:
                        if v in widened or v in env0:
                            h.setvar(v, ('phi', lid, v))
                    else:
                        h.setvar(v, dict(node)[v])
                for b, keyed in mutated.items():
                    h.push(b, ('phi', lid, keyed, b) if b[0] == 'attr' and b[2] == '__dict__' else ('phi', lid, keyed))
                    rec.heapmark[b] = len(h.ops(b))
                for b in h.heap:
                    rec.heapmark[(node, b)] = len(h.ops(b))
                for b, nm in mattrs:
                    h.attrs[(b, nm)] = ('attrv', b, nm, lid)
                mark_p, mark_e = h.path, h.ev
                starts = []
                if isfor:
                    h.loopcol[lid] = coll
                    for ai, (mk, conds) in enumerate(plan[2]):
                        s = h.copy()
                        ok = True
                        for a, v, lid0 in conds:
                            a = subst_deep(a, lambda x: (x[0], lid) + x[2:] if len(x) > 1 and x[0] in ('elem', 'idx') and x[1] == lid0 else None)
                            if a[0] == 'exists':
                                if s.facts.get(a) not in (None, v):
                                    ok = False
                                    break
                                s = s.copy()
                                s.facts[a] = v
                                s.path = (s.path, a, v)
                                continue
                            s = s.assume(a, v)
                            if s is None:
                                ok = False
                                break
                        if not ok:
                            continue
                        e = mk(lid)
                        s = s.copy()
                        if coll[0] not in ('unk',):
                            s._put(('in', ('elem', lid), coll), True)
                        for s1, o in self.assign(n.target, e, s):
                            starts.append((s1, o, ai))
                    if coll[0] != 'unk' and rec.alts and all(rec.alts):
                        # the elements left out by the filter: an iteration that does nothing
                        s = h.copy()
                        s._put(('in', ('elem', lid), coll), True)
                        starts.extend((s1, ('cont',), -1) for s1 in self.uncovered(s, rec.alts))
                else:
                    for s1, v in self.test(n.test, h):
                        if isinstance(v, Exc):
                            starts.append((s1, ('exc', v), 0))
                        elif v:
                            starts.append((s1, ('next',), 0))
                        else:
                            exits.append((node, s1))
                for s1, o1, ai in starts:
                    rs = self.block(n.body, s1) if o1[0] == 'next' else [(s1, o1)]
                    for s2, o in rs:
                        # newly mutated containers / attributes?
                        goes_on = o[0] in ('next', 'cont')
                        for b, (k, ops) in s2.heap.items() if goes_on else ():
                            hops = h.ops(b)
                            if b[0] != 'ref' and b not in h.heap and mentions(b, lambda x: x[0] in ('elem', 'idx') and x[1] != lid and x[1] not in st.loopcol):
                                continue          # cells of an inner loop: another one at each iteration
                            if self.merging and isfor and b not in h.heap and mentions(b, lambda x: x[0] == 'item' and x[2] == ('elem', lid)):
                                continue          # the entries of a mapping are separate dictionaries
                            if b[0] != 'ref' and mentions(b, lambda x: x[0] == 'unk'):
                                continue          # a cell without a name: nothing else can refer to it
                            if b[0] == 'phi' and b[1] != lid and b[1] in self.loops and b[1] not in st.loopcol and b not in h.heap:
                                # what a variable of an inner loop stands for: one of the containers it was given
                                for v in self.loops[b[1]].carried.get(b[2], ()):
                                    if v in h.heap and mutated.get(v) is not False:
                                        mutated[v] = False
                                        restart = True
                                continue
                            if b in h.heap or b[0] != 'ref':
                                if len(ops) > len(hops) or ops[:len(hops)] != hops:
                                    keyed = all(x[0] in ('set', 'del') and x[1] == ('elem', lid) for x in ops[len(hops):])
                                    if not isfor:
                                        keyed = False
                                    if b[0] == 'attr' and b[2] == '__dict__':
                                        seen = self.phiops.setdefault((lid, b), set())
                                        for x in ops[len(hops):]:
                                            if x[:2] not in seen:
                                                seen.add(x[:2])
                                                restart = True
                                    if b not in mutated:
                                        mutated[b] = keyed
                                        restart = True
                                    elif mutated[b] and not keyed:
                                        mutated[b] = False
                                        restart = True
                        for key, v in s2.attrs.items() if goes_on else ():
                            if h.attrs.get(key) != v and key not in mattrs and not (key[0][0] == 'ref' and key[0] not in h.heap) \
                                    and not mentions(key[0], lambda x: x == ('elem', lid)):
                                mattrs[key] = True
                                restart = True
                        to = None
                        kind = {'next': 'next', 'cont': 'next', 'brk': 'brk', 'ret': 'ret', 'exc': 'exc'}[o[0]]
                        if kind == 'next':
                            e2 = s2.env()
                            vec = []
                            for v, cur in node:
                                new = e2.get(v, ('unbound',))
                                if new != cur and mentions(new, lambda x: x[0] in ('elem', 'idx', 'phi', 'itemv', 'unk') and
                                                           (x[0] == 'unk' or x[1] == lid)) or (new != cur and not is_c(new)
                                                                                             and new[0] in ('ref', 'call', 'bin', 'strcat', 'item')):
                                    widened.add(v)
                                    restart = True
                                vec.append((v, new))
                            to = tuple(vec)
                            if not restart and to not in nodes:
                                if len(nodes) >= 6:
                                    for (v, a), (_, b) in zip(entry, to):
                                        if a != b:
                                            widened.add(v)
                                    restart = True
                                else:
                                    nodes.append(to)
                                    work.append(to)
                        rec.edges.append(Edge(node, kind, s2, s2.conds(mark_p), o[1] if len(o) > 1 else None, to, mark_e, ai))
                        self.check(rec.edges)
                if restart:
                    break
            if not restart:
                break
        else:
            raise Budget("loop fixpoint")
        rec.entry = entry
        rec.nodes = nodes
        rec.exit_states = exits
        rec.init = {v: env0.get(v) for v in widened}
        rec.carried = {v: {x for x in [env0.get(v)] + [e.st.env().get(v) for e in rec.edges if e.kind == 'next'] if x is not None} for v in widened}
        self.loops[lid] = rec
        return self.after_loop(st, n, rec, lid, isfor, names, live, widened, mutated, mattrs, nodes, entry, exits)

    def copied(self, rec, b):
        """The mapping whose every entry is written into b by a loop that does nothing else to b, or None."""
        if rec.coll is None or rec.order is not None or len(rec.edges) != 1 or rec.edges[0].kind != 'next':
            return None
        x = ('elem', rec.lid)
        return rec.coll if list(rec.delta(rec.edges[0], b)) == [('set', x, ('item', rec.coll, x))] else None

    def after_loop(self, st, n, rec, lid, isfor, names, live, widened, mutated, mattrs, nodes, entry, exits):
        out = []
        fresh_cells = {}
        for e in rec.edges:
            for b, c in e.st.heap.items():
                if b[0] == 'ref' and b not in st.heap:
                    fresh_cells[b] = c
        leave = [e for e in rec.edges if e.kind != 'next' or (e.kind == 'next' and e.to != entry and e.node == entry)]

        def eachop(b):
            return ('each', lid, rec, _Delta(rec, b))

        def fix(s):
            """Turn the head marker of mutated containers into the summary of the previous iterations."""
            for b in mutated:
                c = s.heap.get(b)
                if c:
                    s.heap[b] = (c[0], tuple(eachop(b) if (o[0] == 'phi' and o[1] == lid) else o for o in c[1]))
            return s

        def qfact(s, edges, val):
            if rec.coll is None:
                return s
            conds = []
            for e in edges:
                cs = [(a, v) for a, v in e.conds if not implied(a, v, rec)]
                conds.append(cs)
            # a loop guard that only depends on the outside is kept as is
            if any(mentions(a, lambda x: (x[0] == 'phi' and x[1] == lid) or x[0] == 'unk' or
                            (x[0] == 'at' and x[1] in mutated and x[2] >= rec.heapmark.get(x[1], 10 ** 9)))
                   for cs in conds for a, _ in cs):
                return s
            if any(mentions(a, lambda x: x[0] in ('elem', 'idx') and x[1] not in s.loopcol and x[1] != lid) for cs in conds for a, _ in cs):
                return s
            dnf = simplify_dnf(conds)
            d = bvdepth(dnf)
            bv = ('bv', d)
            dnf = frozenset(frozenset((subst_deep(a, lambda x: bv if x == ('elem', lid) else None), v) for a, v in c) for c in dnf)
            return s.assume(mk_exists(rec.coll, dnf), val) if dnf else (s if not val else None)

        if isfor:
            trans = [e for e in rec.edges if e.node == entry and (e.kind != 'next' or e.to != entry)]
            goon = [e for e in rec.edges if e.node == entry and e.kind == 'next' and e.to != entry]
            stop = [e for e in rec.edges if e.kind != 'next']
            for node in nodes:
                s = st.copy()
                s.heap.update(fresh_cells)
                for v in names:
                    if v in live and v not in widened:
                        s.setvar(v, dict(node)[v])
                    elif v in widened or v in s.env() or True:
                        s.setvar(v, ('phi', lid, v))
                for b in mutated:
                    src = self.copied(rec, b) if b[0] != 'ref' else None
                    if src is None:
                        s.push(b, eachop(b))
                    else:
                        s.push(b, ('upd', src))
                        self.mut(s, b, 'update', (src,), n)
                for b, nm in mattrs:
                    s.attrs[(b, nm)] = ('attrv', b, nm, lid)
                s.emit(Ev('loop', rec, None, (), (), None, n.lineno, self.file()))
                s1 = s
                if node == entry:
                    back = [e for e in rec.edges if e.kind == 'next' and e.to == entry and e.node != entry]
                    if not back:
                        s1 = qfact(s, trans, False)
                    else:
                        s1 = qfact(s, [e for e in stop if e.node == entry], False)
                else:
                    direct = [e for e in goon if e.to == node]
                    others = [e for e in goon if e.to != node]
                    if direct:
                        # some element made the transition; with several flag values each is only known through its own edges
                        back = [e for e in rec.edges if e.kind == 'next' and e.node != e.to and e.node != entry]
                        s1 = qfact(s, direct, True)
                        if s1 is not None and len(nodes) == 2 and not back and stop:
                            s1 = qfact(s1, stop, False)
                    else:
                        s1 = s
                if s1 is None:
                    continue
                if n.orelse:
                    out.extend(self.block(n.orelse, s1))
                else:
                    out.append((s1, ('next',)))
        else:
            for node, s in exits:
                s = fix(s.copy())
                s.heap.update({b: c for b, c in fresh_cells.items() if b not in s.heap})
                s.emit(Ev('loop', rec, None, (), (), None, n.lineno, self.file()))
                if n.orelse:
                    out.extend(self.block(n.orelse, s))
                else:
                    out.append((s, ('next',)))
        brks = [e for e in rec.edges if e.kind == 'brk']
        joined = len(brks) > 8
        if joined:
            # many ways out: one joined state, the containers and variables they touch being summarised
            s = st.copy()
            s.heap.update(fresh_cells)
            touched = set(mutated)
            for e in brks:
                for b, c in e.st.heap.items():
                    if b in st.heap and c != st.heap[b] or (b not in st.heap and b[0] != 'ref'):
                        touched.add(b)
            for b in touched:
                s.push(b, eachop(b) if b in mutated else ('phi', lid, False))
            for k in {k for e in brks for k in e.st.attrs if e.st.attrs[k] != st.attrs.get(k)}:
                s.attrs[k] = ('attrv', k[0], k[1], lid)
            for v in names:
                vals = {e.st.frames[st.fid].get(v) for e in brks}
                s.setvar(v, vals.pop() if len(vals) == 1 and None not in vals else ('phi', lid, v))
            s.facts = {a: v for a, v in brks[0].st.facts.items() if all(e.st.facts.get(a) == v for e in brks[1:])}
            s.emit(Ev('loop', rec, None, (), (), None, n.lineno, self.file()))
            out.append((s, ('next',)))
        for e in rec.edges:
            if e.kind == 'next' or (joined and e.kind == 'brk'):
                continue
            s = fix(e.st.copy())
            s.heap.update({b: c for b, c in fresh_cells.items() if b not in s.heap})
            # the record of the loop comes before the events of its last iteration
            evs = e.st.events(e.since)
            s.ev = e.since
            s.emit(Ev('loop', rec, None, (), (), None, n.lineno, self.file()))
            for x in evs:
                s.emit(x)
            if isfor and e.node == entry:
                a = qfact(s, [e], True)
                s = a if a is not None else s
            if e.kind == 'brk':
                out.append((s, ('next',)))
            elif e.kind == 'ret':
                out.append((s, ('ret', e.value)))
            else:
                out.append((s, ('exc', e.value)))
        return out

    def maybe_carried(self, name, loop, fn):
        """Is the variable possibly read before being written in an iteration, or read after the loop?"""
        memo = self.repo.__dict__.setdefault('_carried', {})
        k = (name, id(loop), id(fn))
        if k not in memo:
            memo[k] = (self.maybe_carried_(name, loop, fn), loop, fn)      # the nodes are kept: their identity is the key
        return memo[k][0]

    def maybe_carried_(self, name, loop, fn):
        after = False
        inloop = set(id(x) for x in ast.walk(loop))
        outer = None
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inloop:
                    after = True
        if after:
            return True
        for b in loop.orelse:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    return True
        return read_before_write(name, loop)

    # ------------------------------------------------------------------ conditions
    def test(self, e, st):
        """-> [(state, bool | Exc)]"""
        if isinstance(e, ast.BoolOp):
            states = [(st, None)]
            isand = isinstance(e.op, ast.And)
            out = []
            cur = [st]
            for i, sub in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, v in self.test(sub, s):
                        if isinstance(v, Exc):
                            out.append((s2, v))
                        elif v == isand and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, v if isinstance(v, Exc) else not v) for s, v in self.test(e.operand, st)]
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def fork(self, st, a):
        out = []
        w = self.presume(a) if self.presume else None
        for v in (True, False) if w is None else (w,):
            s = st.assume(a, v)
            if s is not None:
                out.append((s, v))
        return out

    def truth(self, st, v):
        h = v[0]
        if is_c(v):
            return [(st, bool(cval(v)))]
        if h == 'tup':
            return [(st, bool(v[1]))]
        if h == 'ref' or st.heap.get(v):
            return self.truth_cell(st, v, len(st.ops(v)))
        if h == 'at':
            return self.truth_cell(st, v[1], v[2])
        if h == 'view':
            return self.truth(st, v[2])
        if h == 'call' and v[1] == 'len':
            return self.truth(st, v[3][0])
        if h == 'call' and v[1] == 'bool' and len(v[3]) == 1:
            return self.truth(st, v[3][0])
        if h == 'call' and v[1] == 'intersection' and len(v[3]) == 2:
            for a, b in (v[3], v[3][::-1]):
                r = self.someof(st, a, b)
                if r is not None:
                    return [(s, x == TRUE) for s, x in r]
        ty = self.typeof(st, v)
        if ty and ty[0] == 'inst' and ty[1] in self.repo.classes and ty[1] not in ('FootprintLog', 'Collector', 'NullReport', 'PrioritySet', 'FactorizedReport'):
            cls = self.repo.cls(ty[1])
            if not self.repo.find_method(cls, '__len__') and not self.repo.find_method(cls, '__bool__') and self.types.get(v) and v not in self.maybe_false:
                return [(st, True)]
        return self.fork(st, ('truth', v))

    def truth_cell(self, st, base, n):
        ops = st.ops(base)
        while n > 0:
            op = ops[n - 1]
            k = op[0]
            if k in ('set', 'app', 'appl', 'add', 'ins', 'setdef'):
                return [(st, True)]
            if k in ('sort', 'reverse'):
                n -= 1
                continue
            if k == 'lit' or k == 'clr':
                return [(st, False)]
            if k == 'copy':
                return self.truth(st, st.at(op[1], op[2]))
            if k in ('ext', 'upd'):
                out = []
                for s, v in self.truth(st, op[1]):
                    out.extend([(s, True)] if v else self.truth_cell(s, base, n - 1))
                return out
            if k == 'each':
                rec = op[2]
                conds = []
                simple = rec.coll is not None
                for e in rec.edges:
                    d = op[3](e)
                    if any(o[0] in ('set', 'app', 'appl', 'add', 'ins', 'setdef') for o in d):
                        conds.append([(a, v) for a, v in e.conds if not implied(a, v, rec)])
                        if e.kind != 'next':
                            simple = simple
                    if any(o[0] in ('del', 'rem', 'pop', 'popl', 'clr', 'inv', 'ext', 'upd', 'phi', 'each') for o in d):
                        simple = False
                lid = rec.lid
                if simple and not any(mentions(a, lambda x: (x[0] == 'phi' and x[1] == lid) or x[0] == 'unk') for cs in conds for a, _ in cs) \
                        and len(rec.nodes) == 1:
                    dnf = simplify_dnf(conds)
                    bv = ('bv', bvdepth(dnf))
                    dnf = frozenset(frozenset((subst_deep(a, lambda x: bv if x == ('elem', lid) else None), v) for a, v in c) for c in dnf)
                    out = []
                    if not dnf:
                        return self.truth_cell(st, base, n - 1)
                    for s, v in self.fork(st, mk_exists(rec.coll, dnf)):
                        out.extend([(s, True)] if v else self.truth_cell(s, base, n - 1))
                    return out
            return self.fork(st, ('truth', ('at', base, n)))
        return self.fork(st, ('truth', base))

    # ------------------------------------------------------------------ container reads
    @staticmethod
    def iterated(st, x):
        """Container (and its version) that x is an element of, as a loop variable."""
        if x[0] != 'elem':
            return None
        c = st.loopcol.get(x[1])
        while c is not None and c[0] == 'view' and c[1] == 'keys':
            c = c[2]
        return (c[1], c[2]) if c is not None and c[0] == 'at' else None

    def lookup(self, st, base, key, node=None, n=None, inner=False):
        """Reads key in a mapping: [(state, present, value)]."""
        if base[0] == 'at':
            base, n = base[1], base[2] if n is None else min(n, base[2])
        ops = st.ops(base)
        n = len(ops) if n is None else n
        it = None if inner else self.iterated(st, key)
        while n > 0:
            if not inner:
                known = True if it == (base, n) else st.facts.get(('in', key, ('at', base, n)))
                if known is False:
                    return [(st, False, None)]
                if known:
                    return [r for r in self.lookup(st, base, key, node, n, True) if r[1]]
            inner = False
            op = ops[n - 1]
            k = op[0]
            if k in ('set', 'del', 'setdef'):
                eq = self.same_key(st, op[1], key)
                if eq is True:
                    if k == 'set':
                        return [(st, True, op[2])]
                    if k == 'del':
                        return [(st, False, None)]
                    out = []
                    for s, has, v in self.lookup(st, base, key, node, n - 1):
                        out.append((s, True, v if has else op[2]))
                    return out
                if eq is False:
                    n -= 1
                    continue
                if tainted(op[1]) or tainted(key):
                    return self.uncertain(st, base, n, key)
                out = []
                for s, v in self.fork(st, mk_eq(op[1], key)):
                    if v:
                        out.extend([(s, True, op[2])] if k == 'set' else ([(s, False, None)] if k == 'del' else self.lookup(s, base, key, node, n - 1)))
                    else:
                        out.extend(self.lookup(s, base, key, node, n - 1))
                return out
            if k == 'lit' or k == 'clr':
                return [(st, False, None)]
            if k == 'copy':
                return self.lookup(st, op[1], key, node, op[2])
            if k == 'upd':
                out = []
                src = op[1]
                for s, has, v in self.lookup(st, src, key, node):
                    if has:
                        out.append((s, True, v))
                    else:
                        out.extend(self.lookup(s, base, key, node, n - 1))
                return out
            if k == 'phi' and op[2] and mentions(key, lambda x: x == ('elem', op[1])):
                n -= 1
                continue
            if k in ('sort', 'reverse'):
                n -= 1
                continue
            if k == 'each':
                r = self.lookup_each(st, base, n, op, key)
                if r is not None:
                    return r
                if all(o[0] in ('upd', 'each') for e in op[2].edges for o in op[3](e)):
                    # updated by some mappings in turn: the last one that holds the key, if any, gives the value
                    r = self.member_each(st, key, op)
                    if r is not None:
                        out = []
                        for s, v in r:
                            out.extend([(s, True, ('itemv', ('at', base, n), key))] if v else self.lookup(s, base, key, node, n - 1))
                        return out
            return self.uncertain(st, base, n, key)
        ty = base
        out = []
        if base[0] == 'tup':
            return [(st, True, ('unk', self.fresh()))]
        if base[0] == 'attr' and base[2] == '__dict__' and is_c(key) and (base[1], cval(key)) in st.attrs:
            v = st.attrs[(base[1], cval(key))]
            return [(st, v != ('deleted',), v)]
        for s, v in self.fork(st, ('in', key, base)):
            out.append((s, v, ('item', base, key) if v else None))
        return out

    @staticmethod
    def before(st, coll, base):
        """The collection of a loop that changes this very collection: what it held before."""
        if coll == base and base[0] != 'ref':
            return ('at', base, 0)
        if coll[0] == 'view' and coll[2] == base and base[0] != 'ref':
            return coll[:2] + (('at', base, 0),) + coll[3:]
        return coll

    def uncovered(self, st, alts):
        """The cases left by all the conjunctions of conditions."""
        rem = [st]
        for conds in alts:
            new = []
            # the witnesses of inner loops are not conditions: their existence is one
            conds = [(a, w) for a, w in conds if not tainted(a) and not mentions(a, lambda x: x[0] in ('elem', 'idx') and len(x) > 1 and x[1] not in st.loopcol)]
            for s in rem:
                cur = [s]
                for a, w in conds:
                    nxt = []
                    for c in cur:
                        for s2, v in self.fork(c, a):
                            (nxt if v == w else new).append(s2)
                    cur = nxt
            rem = new
            self.check(rem)
        return rem

    def lookup_each(self, st, base, n, op, key):
        """Reads through the summary of a loop which, for each element, sets (or deletes) the entry of that element."""
        rec = op[2]
        if rec.coll is None or len(rec.nodes) != 1 or rec.coll[0] == 'unk':
            return None
        lid = rec.lid
        rows = []
        for e in rec.edges:
            d = op[3](e)
            if e.kind == 'exc':
                continue
            if e.kind != 'next':
                return None
            if any(o[0] not in ('set', 'del') or o[1] != ('elem', lid) for o in d):
                return None
            conds = [(a, v) for a, v in e.conds if not implied(a, v, rec)]
            rows.append((conds, d[-1] if d else None, {k: v for k, v in e.st.loopcol.items() if k != lid}))
        ren0 = ren = lambda t: subst_deep(t, lambda x: key if x == ('elem', lid) else None)
        out = []
        for s, v in self.member(st, key, self.before(st, rec.coll, base)):
            if not v:
                out.extend(self.lookup(s, base, key, None, n - 1))
                continue
            for s, ren in self.reads(s, rows, lid, key, ren0):
                for conds, o, lc in rows:
                    s1 = s.copy()
                    for k, c in lc.items():
                        s1.loopcol.setdefault(k, ren(c))
                    for a, w in conds:
                        s1 = s1.assume(ren(a), w)
                        if s1 is None:
                            break
                    if s1 is None:
                        continue
                    if o is None:
                        out.extend(self.lookup(s1, base, key, None, n - 1))
                    elif o[0] == 'set':
                        out.append((s1, True, ren(o[2])))
                    else:
                        out.append((s1, False, None))
                # the elements that the loop does not go through (filtered out)
                for s1 in self.uncovered(s, [[(ren(a), w) for a, w in conds] for conds in rec.alts]):
                    out.extend(self.lookup(s1, base, key, None, n - 1))
        return out

    def reads(self, st, rows, lid, key, ren):
        """The entry of the element, read by the loop in a container as it was then, is the one of that key: [(state, renaming)]."""
        old = []
        for conds, o, lc in rows:
            for t in [a for a, w in conds] + [x for x in (o or ()) if isinstance(x, tuple)]:
                for x in walk(t):
                    if x[0] == 'itemv' and x[2] == ('elem', lid) and x[1][0] == 'at' and x[1][1][0] == 'ref' and x not in old:
                        old.append(x)
        if not old:
            return [(st, ren)]
        states = [(st, {})]
        for x in old:
            states = [(s2, {**m, x: v}) for s, m in states for s2, has, v in self.lookup(s, x[1], key, None) if has]
        return [(s, lambda t, m=m: subst_deep(t, lambda x: m[x] if x in m else key if x == ('elem', lid) else None)) for s, m in states]

    def uncertain(self, st, base, n, key):
        a = ('at', base, n)
        return [(s, v, ('itemv', a, key) if v else None) for s, v in self.fork(st, ('in', key, a))]

    def same_key(self, st, a, b):
        if a == b:
            return True
        if is_c(a) and is_c(b):
            return cval(a) == cval(b)
        d = st.decide(mk_eq(a, b))
        return d

    def member(self, st, x, c):
        """x in c: [(state, bool)]"""
        if c[0] == 'view':
            if c[1] == 'keys':
                return self.member(st, x, c[2])
            if c[1] == 'values':
                return self.member_values(st, x, c)
            return self.fork(st, ('in', x, c))
        if c[0] == 'tup':
            return self.member_lit(st, x, list(c[1]))
        if is_c(c) and isinstance(cval(c), (str, bytes)):
            if is_c(x) and isinstance(cval(x), str):
                return [(st, cval(x) in cval(c))]
            return self.fork(st, ('in', x, c))
        if c[0] == 'call' and c[1] in ('sorted', 'reversed', 'iter') and c[3]:
            return self.member(st, x, c[3][0])
        if c[0] == 'call' and c[2] is None and c[1] in ('union', 'intersection', 'difference', 'symdiff') and len(c[3]) == 2:
            out = []
            for s, v in self.member(st, x, c[3][0]):
                if c[1] == 'union' and v or c[1] in ('intersection', 'difference') and not v:
                    out.append((s, c[1] == 'union'))
                    continue
                for s2, w in self.member(s, x, c[3][1]):
                    out.append((s2, w if c[1] in ('union', 'intersection') else not w if c[1] == 'difference' else v != w))
            return out
        base, n = (c[1], c[2]) if c[0] == 'at' else (c, len(st.ops(c)))
        ops = st.ops(base)
        kind = st.kind(base)
        it = self.iterated(st, x)
        while n > 0:
            if it == (base, n):
                return [(st, True)]
            op = ops[n - 1]
            k = op[0]
            if k in ('app', 'appl', 'add') or (k == 'ins') or k in ('set', 'setdef', 'del', 'rem'):
                y = op[1] if k != 'ins' else op[2]
                eq = self.same_key(st, y, x)
                neg = k in ('del', 'rem')
                if eq is True and not (k == 'rem' and kind in ('list', 'deque')):
                    return [(st, not neg)]
                if eq is False:
                    n -= 1
                    continue
                if tainted(y) or tainted(x) or (k == 'rem' and kind in ('list', 'deque', 'ext')):
                    return self.fork(st, ('in', x, ('at', base, n)))
                out = []
                for s, v in self.fork(st, mk_eq(y, x)):
                    out.extend([(s, not neg)] if v else self.member(s, x, ('at', base, n - 1)))
                return out
            if k in ('lit', 'clr'):
                return [(st, False)]
            if k in ('sort', 'reverse'):
                n -= 1
                continue
            if k == 'copy':
                return self.member(st, x, st.at(op[1], op[2]))
            if k in ('ext', 'upd'):
                out = []
                for s, v in self.member(st, x, op[1]):
                    out.extend([(s, True)] if v else self.member(s, x, ('at', base, n - 1)))
                return out
            if k == 'phi' and op[2] and mentions(x, lambda y: y == ('elem', op[1])):
                n -= 1
                continue
            if k == 'each' and all(o[0] == 'rem' and not mentions(o[1], lambda y: y[0] in ('elem', 'phi', 'unk')) and self.same_key(st, o[1], x) is False
                                   for e in op[2].edges for o in op[3](e)):
                n -= 1          # only other elements are taken out
                continue
            if k == 'each':
                r = self.member_each(st, x, op)
                if r is not None:
                    out = []
                    for s, v in r:
                        out.extend([(s, True)] if v else self.member(s, x, ('at', base, n - 1)))
                    return out
                r = self.lookup_each(st, base, n, op, x) if kind == 'dict' or base[0] != 'ref' else None
                if r is not None:
                    return [(s, v) for s, v, _ in r]
            return self.fork(st, ('in', x, ('at', base, n)))
        ty = self.typeof(st, base)
        if ty in (('inst', 'Collector'), ('ext', 'Catalog')):
            base = attr(base, '_items')
        elif ty and ty[0] == 'inst' and ty[1] in self.repo.classes:
            m = self.repo.find_method(self.repo.cls(ty[1]), '__contains__')
            if m and m.qual not in self.opaque:
                out = []
                for s, v in self.call_func(st, m, base, self.bind_args(st, m, base, [x], {}), None):
                    out.extend(self.truth(s, v) if not isinstance(v, Exc) else [])
                return out
        return self.fork(st, ('in', x, base))

    def member_each(self, st, x, op):
        """Membership in a container filled by a loop: exists an iteration adding an equal element."""
        rec = op[2]
        if rec.coll is not None and len(rec.nodes) == 1 and rec.coll[0] != 'unk':
            lid = rec.lid
            if any(op[3](e) for e in rec.edges) and all(e.kind in ('next', 'exc') and all(o[0] in ('app', 'add', 'set', 'appl') and o[1] == ('elem', lid) for o in op[3](e))
                                                        for e in rec.edges):
                # the elements themselves, filtered
                ren = lambda t: subst_deep(t, lambda y: x if y == ('elem', lid) else None)
                out = []
                for s, v in self.member(st, x, self.before(st, rec.coll, op[3].base)):
                    if not v:
                        out.append((s, False))
                        continue
                    for e in rec.edges:
                        if e.kind != 'next':
                            continue
                        s1 = s.copy()
                        for k, c in e.st.loopcol.items():
                            if k != lid:
                                s1.loopcol.setdefault(k, ren(c))
                        for a, w in e.conds:
                            if implied(a, w, rec):
                                continue
                            s1 = s1.assume(ren(a), w)
                            if s1 is None:
                                break
                        if s1 is not None:
                            out.append((s1, bool(op[3](e))))
                    alts = [[(ren(a), w) for a, w in conds] for conds in rec.alts]
                    out.extend((s1, False) for s1 in self.uncovered(s, alts))
                return out
        if rec.coll is None or len(rec.nodes) != 1:
            return None
        if any(e.kind not in ('next', 'exc') for e in rec.edges):
            return None         # the elements after the one that stops the loop are not gone through
        lid = rec.lid
        E = ('elem', lid)
        own, conds = [], []         # the element itself is added / x is added for another reason
        for e in rec.edges:
            base = len(e.st.conds())
            cs = [(a, v) for a, v in e.conds if not implied(a, v, rec)]
            for o in op[3](e):
                if o[0] in ('app', 'add', 'set', 'appl'):
                    if o[1] == x:
                        conds.append(cs)
                    elif o[1] == E:
                        own.append(cs)
                    else:
                        conds.append(cs + [(mk_eq(o[1], x), True)])
                elif o[0] in ('ext', 'upd', 'each'):
                    rs = self.member(e.st, x, o[1]) if o[0] != 'each' else self.member_each(e.st, x, o)
                    if rs is None:
                        return None
                    conds.extend(cs + s.conds()[base:] for s, v in rs if v)
                else:
                    return None
        if any(mentions(a, lambda y: (y[0] == 'phi' and y[1] == lid) or y[0] == 'unk') for cs in conds + own for a, _ in cs):
            return None
        if not conds and not own:
            return [(st, False)]
        out, todo = [], [st]
        if own:
            goods = [[(subst_deep(a, lambda y: x if y == E else None), v) for a, v in cs] for cs in own]
            todo = []
            for s, v in self.member(st, x, self.before(st, rec.coll, op[3].base)):
                for s2, w in (self.dnf_fork(s, goods) if v else [(s, False)]):
                    (out if w else todo).append((s2, True) if w else s2)
        if not conds:
            return out + [(s, False) for s in todo]
        dnf = simplify_dnf(conds)
        bv = ('bv', bvdepth(dnf))
        dnf = frozenset(frozenset((subst_deep(a, lambda y: bv if y == E else None), v) for a, v in c) for c in dnf)
        for s in todo:
            out.extend(self.fork(s, mk_exists(rec.coll, dnf)))
        return out

    def dnf_fork(self, st, goods):
        """Forks st on whether one of the conjunctions holds."""
        dnf = [list(g) for g in goods]
        for g in dnf:
            und = None
            val = True
            for a, v in g:
                d = st.decide(a)
                if d is None:
                    und = und or a
                    val = None if val else val
                elif d != v:
                    val = False
                    break
            if val:
                return [(st, True)]
            if val is None:
                out = []
                for s, _ in self.fork(st, und):
                    out.extend(self.dnf_fork(s, goods))
                return out
        return [(st, False)]

    def member_values(self, st, x, view):
        p = None
        d = view[2]
        base = d[1] if d[0] == 'at' else d
        ops = st.ops(base)[:d[2]] if d[0] == 'at' else st.ops(base)
        if ops and ops[0][0] in ('lit',) and all(o[0] in ('lit', 'set') for o in ops):
            vals = []
            for s, pl in self.iter_plan(st, view):
                if pl[0] == 'unroll':
                    return self.member_lit(s, x, pl[1])
        if d[0] != 'at' and not ops and not mentions(x, lambda y: y[0] == 'bv'):
            return self.fork(st, ('exists', d, frozenset([frozenset([(mk_eq(('item', d, ('bv', 0)), x), True)])])))
        return self.fork(st, ('in', x, view))

    def member_lit(self, st, x, elems):
        out = []
        cur = [st]
        for e in elems:
            nxt = []
            for s in cur:
                for s2, v in self.fork(s, mk_eq(e, x)):
                    if v:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def index(self, st, base, key, node):
        """base[key] -> [(state, value|Exc)]"""
        if key[0] == 'bin' and key[1] == '+' and key[3] == C(-1) and key[2][:2] == ('call', 'len') and key[2][3] in ((base,), (st.at(base),)):
            key = C(-1)
        # the item at the position a loop over all of them has reached
        el = key[3][0] if key[:2] == ('call', 'position') else ('elem', key[1]) if key[0] == 'idx' else None
        if el is not None:
            col = st.loopcol.get(el[1])
            if col is not None and (col == base or col == st.at(base)) and st.at(base) in (base, col):
                return [(st, el)]
        if is_match(base):
            return [(st, ('call', '.group', base, (key,), (), 0))]
        if base[0] == 'call' and base[1] == '.groups' and is_match(base[2]) and not base[3] and not base[4] and is_c(key) and isinstance(cval(key), int) and cval(key) >= 0:
            return [(st, ('call', '.group', base[2], (C(cval(key) + 1),), (), 0))]
        if base[0] == 'tup' and is_c(key) and isinstance(cval(key), int):
            i = cval(key)
            if -len(base[1]) <= i < len(base[1]):
                return [(st, base[1][i])]
        if base[0] == 'bin' and base[1] == '+' and base[2][0] == 'tup' and is_c(key) and isinstance(cval(key), int) and cval(key) >= 0:
            i = cval(key)
            return [(st, base[2][1][i])] if i < len(base[2][1]) else self.index(st, base[3], C(i - len(base[2][1])), node)
        if base[0] == 'call' and base[1] == 'tuple' and base[2] is None and len(base[3]) == 1 and is_c(key) and isinstance(cval(key), int):
            return self.index(st, base[3][0], key, node)
        if base[0] == 'ref' and kind_tuple(st, base) and is_c(key) and isinstance(cval(key), int):
            ops = [o for o in st.ops(base) if o[0] != 'lit']
            if len(ops) == 1 and ops[0][0] in ('copy', 'ext', 'upd') and st.at(ops[0][1])[0] != 'ref':
                return self.index(st, ops[0][1], key, node)
        if is_c(base) and is_c(key):
            try:
                return [(st, C(cval(base)[cval(key)]))]
            except Exception:
                return [(st, self.unk('const index', node))]
        ops = st.ops(base)
        kind = st.kind(base)
        if is_c(key) and isinstance(cval(key), int) and not (kind == 'dict'):
            if ops and ops[0][0] == 'lit' and all(o[0] in ('lit', 'app') for o in ops):
                elems = [o[1] for o in ops[1:]]
                i = cval(key)
                if -len(elems) <= i < len(elems):
                    return [(st, elems[i])]
            if ops and ops[-1][0] == 'sort':
                src = st.at(base, len(ops) - 1)
                i = cval(key)
                return [(st, ('item', ('sorted', src, ops[-1][1], ops[-1][2]), key))]
            if base[0] == 'call' and base[1] == 'slice' and len(base[3]) == 4 and base[3][1] in (NONE, C(0)) and base[3][3] in (NONE, C(1)) \
                    and is_c(base[3][2]) and isinstance(cval(base[3][2]), int) and 0 <= cval(key) < cval(base[3][2]):
                return self.index(st, base[3][0], key, node)
            if base[0] == 'call' and base[1] == 'sorted':
                kw = dict(base[4])
                return [(st, ('item', ('sorted', base[3][0], kw.get('key', NONE), kw.get('reverse', FALSE)), key))]
            if base[0] in ('call', 'elem', 'sym', 'attr', 'item', 'phi', 'itemv', 'attrv', 'arg', 'sorted') and not ops:
                if base[0] == 'call' and base[1] in ('.partition', '.split', '.rpartition', '.rsplit'):
                    r = self.after_sep(st, base, key)
                    if r is not None:
                        return [(st, r)]
                return [(st, ('item', base, key))]
        if kind in ('list', 'deque', 'tuple') or (base[0] == 'ref' and kind == 'set'):
            return [(st, ('itemv', st.at(base), key))]
        out = []
        b = base
        while st.ops(b) and len(st.ops(b)) == 1 and st.ops(b)[0][0] == 'copy':
            b = st.ops(b)[0][1]
        isopen = base in self.open or b in self.open or (b[0] == 'at' and b[1] in self.open) or kind == 'dict'
        if not isopen and not st.tryd and not st.ops(base) and base[0] not in ('tup', 'at', 'ref'):
            a = ('in', key, base)
            if st.decide(a) is None:
                st = st.assume(a, True, primary=False) or st
        rs = self.lookup(st, base, key, node)
        for s, has, v in rs:
            if has:
                out.append((s, v))
            elif isopen or st.tryd or len(rs) == 1:
                out.append((s, Exc('KeyError', line=getattr(node, 'lineno', None))))
        return out

    def after_sep(self, st, base, key):
        recv, args = base[2], base[3]
        if len(args) >= 1 and is_c(args[0]):
            i = cval(key)
            if base[1] == '.partition' and i in (2, -1):
                return ('call', 'after1', None, (recv, args[0]), (), 0)
            if base[1] == '.split' and len(args) == 2 and is_c(args[1]) and cval(args[1]) == 1 and i in (1, -1):
                return ('call', 'after1', None, (recv, args[0]), (), 0)
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, self.unk('expr ' + type(e).__name__, e))]
        return m(e, st)

    def evs(self, es, st):
        """Evaluates a list of expressions: [(state, [values] | Exc)]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
            self.check(cur)
        return cur

    def e_Constant(self, e, st):
        return [(st, C(e.value) if not isinstance(e.value, type(Ellipsis)) else C('...'))]

    def e_Name(self, e, st):
        fid = st.fid
        while fid is not None:
            env = st.frames[fid]
            if e.id in env:
                return [(st, env[e.id])]
            fid = env.get('$parent')
        return [(st, self.global_name(e.id))]

    def global_name(self, name):
        r = self.repo.resolve_global(self.mod(), name)
        if r is not None:
            return self.global_term(r)
        if hasattr(builtins, name):
            return ('builtin', name)
        return ('glob', self.mod().name if self.mod() else '', name)

    def global_term(self, r):
        if r[0] == 'func':
            return ('func', r[1].qual)
        if r[0] == 'class':
            return ('cls', r[1].name)
        if r[0] == 'const':
            return C(r[1])
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'ext':
            return ('ext', r[1])
        return ('glob', r[1], r[2])

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                s = s.copy()
                s.setvar(e.target.id, v)
                out.append((s, v))
        return out

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_display(e, st, 'tuple')
        return [(s, v if isinstance(v, Exc) else tup(*v)) for s, v in self.evs(e.elts, st)]

    def starred_display(self, e, st, kind):
        out = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            s = s.copy()
            r = self.alloc(s, kind if kind != 'tuple' else 'tuple')
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    s.push(r, ('ext', s.at(v)))
                else:
                    s.push(r, ('add' if kind == 'set' else 'app', v))
            out.append((s, r))
        return out

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_display(e, st, 'list')
        out = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            s = s.copy()
            out.append((s, self.alloc(s, 'list', (('lit',),) + tuple(('app', v) for v in vs))))
        return out

    def e_Set(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_display(e, st, 'set')
        out = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            s = s.copy()
            out.append((s, self.alloc(s, 'set', (('lit',),) + tuple(('add', v) for v in vs))))
        return out

    def e_Dict(self, e, st):
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                flat.append(k)
            flat.append(v)
        out = []
        for s, vs in self.evs(flat, st):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            s = s.copy()
            r = self.alloc(s, 'dict')
            i = 0
            first = True
            for k in e.keys:
                if k is None:
                    if first:
                        s.heap[r] = ('dict', (('copy', vs[i], len(s.ops(vs[i]))),))
                    else:
                        s.push(r, ('upd', s.at(vs[i])))
                    i += 1
                else:
                    s.push(r, ('set', vs[i], vs[i + 1]))
                    i += 2
                first = False
            out.append((s, r))
        return out

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            parts.append(v if isinstance(v, ast.Constant) else v.value)
        plain = all(isinstance(v, ast.Constant) or (v.format_spec is None and v.conversion in (-1, 115)) for v in e.values)
        out = []
        for s, vs in self.evs(parts, st):
            if isinstance(vs, Exc):
                out.append((s, vs))
            elif plain:
                out.append((s, strcat(vs)))
            else:
                out.append((s, ('call', 'fstring', None, tuple(vs), (), 0)))
        return out

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_IfExp(self, e, st):
        out = []
        for s, v in self.test(e.test, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.ev(e.body if v else e.orelse, s))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for i, sub in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(sub, s):
                    if isinstance(v, Exc) or i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, v if isinstance(v, Exc) else B(not v)) for s, v in self.test(e.operand, st)]

        def f(s, v):
            if is_c(v) and isinstance(cval(v), (int, float)):
                return [(s, C(-cval(v) if isinstance(e.op, ast.USub) else +cval(v)))]
            return [(s, ('bin', 'neg' if isinstance(e.op, ast.USub) else 'un', v, NONE))]
        return self.bind(self.ev(e.operand, st), f)

    def e_BinOp(self, e, st):
        return self.bind(self.ev(e.left, st), lambda s, a: self.bind(self.ev(e.right, s), lambda s2, b: self.binop(e.op, a, b, s2, e)))

    def binop(self, op, a, b, st, node):
        o = type(op).__name__
        if is_c(a) and is_c(b):
            try:
                r = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Mod': lambda x, y: x % y,
                     'FloorDiv': lambda x, y: x // y, 'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y,
                     'Div': lambda x, y: x / y, 'Pow': lambda x, y: x ** y}[o](cval(a), cval(b))
                if isinstance(r, (str, int, float, bool)) and not (isinstance(r, str) and len(r) > 2000):
                    return [(st, C(r))]
            except Exception:
                pass
        if o == 'Add':
            if isstr(a) or isstr(b):
                return [(st, strcat([a, b]))]
            if a[0] == 'tup' and b[0] == 'tup':
                return [(st, tup(*(a[1] + b[1])))]
            ka, kb = st.kind(a), st.kind(b)
            if ka in ('list', 'deque') or kb in ('list', 'deque'):
                st = st.copy()
                r = self.alloc(st, 'list', (('copy', a, len(st.ops(a))),))
                st.push(r, ('ext', st.at(b)))
                return [(st, r)]
        if o == 'Mod' and is_c(a) and isinstance(cval(a), str):
            return [(st, strmod(a, b))]
        if o == 'BitOr':
            if st.kind(a) in ('set', 'dict') or st.kind(b) in ('set', 'dict'):
                st = st.copy()
                r = self.alloc(st, st.kind(a) or st.kind(b), (('copy', a, len(st.ops(a))),))
                st.push(r, ('upd' if st.kind(r) == 'dict' else 'ext', st.at(b)))
                return [(st, r)]
            return [(st, ('call', 'union', None, tuple(sorted([st.at(a), st.at(b)], key=repr)), (), 0))]
        if o == 'BitAnd':
            return [(st, ('call', 'intersection', None, tuple(sorted([st.at(a), st.at(b)], key=repr)), (), 0))]
        if o in ('Sub', 'BitXor') and any(st.kind(x) == 'set' or x[0] == 'view' and x[1] == 'keys' or x[0] == 'call' and x[1] in ('union', 'intersection', 'difference', 'symdiff') for x in (a, b)):
            return [(st, ('call', 'difference' if o == 'Sub' else 'symdiff', None, (st.at(a), st.at(b)), (), 0))]
        sign = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Mod': '%', 'Div': '/', 'FloorDiv': '//', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^'}.get(o, o)
        if o == 'Sub' and is_c(b) and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool):
            return [(st, norm_add(a, -cval(b)))]
        if o == 'Add' and is_c(b) and isinstance(cval(b), (int, float)):
            return [(st, norm_add(a, cval(b)))]
        if o == 'Add' and is_c(a) and isinstance(cval(a), (int, float)):
            return [(st, norm_add(b, cval(a)))]
        if o == 'Mult' and is_c(a) and not is_c(b):
            a, b = b, a
        if o == 'Mult' and b == C(-1):
            return [(st, ('bin', 'neg', a, NONE))]
        return [(st, ('bin', sign, a, b))]

    def e_Compare(self, e, st):
        return [(s, v if isinstance(v, Exc) else B(v)) for s, v in self.compare_chain(e, st)]

    def compare_chain(self, e, st):
        def step(s, left, i):
            def f(s2, right):
                out = []
                for s3, v in self.compare(s2, e.ops[i], left, right, e):
                    if isinstance(v, Exc) or not v or i == len(e.ops) - 1:
                        out.append((s3, v))
                    else:
                        out.extend(step(s3, right, i + 1))
                return out
            return self.bind(self.ev(e.comparators[i], s), f)
        return self.bind(self.ev(e.left, st), lambda s, l: step(s, l, 0))

    def compare(self, st, op, a, b, node):
        o = type(op).__name__
        neg = o in ('NotIn', 'IsNot', 'NotEq')
        if o in ('In', 'NotIn'):
            ty = self.typeof(st, b)
            rs = self.member(st, a, b)
            if st.tryd and not is_c(a):
                s2 = st.copy()
                call = ('call', 'hash', None, (a,), (), 0)
                x = s2.assume(('raises', call), True)
                y = st.assume(('raises', call), False)
                rs = self.member(y, a, b) if y is not None else []
                res = [(s, (not v) if neg else v) for s, v in rs]
                if x is not None:
                    res.append((x, Exc('TypeError')))
                return res
        elif o in ('Is', 'IsNot'):
            if a == NONE and is_match(b):
                a, b = b, a
            if b == NONE and is_match(a):
                rs = [(s, v if isinstance(v, Exc) else not v) for s, v in self.truth(st, a)]
            else:
                x, c = (a, b) if b in (TRUE, FALSE) else (b, a)
                if c in (TRUE, FALSE) and not is_c(x) and self.boolean(x):
                    rs = [(s, v if isinstance(v, Exc) else v == cval(c)) for s, v in self.truth(st, x)]
                else:
                    rs = self.fork(st, mk_is(a, b)) if a != b else [(st, True)]
        elif o in ('Eq', 'NotEq'):
            r = self.cmp_method(st, a, '__eq__', b)
            if r is not None:
                rs = r
            else:
                rs = self.eq_fork(st, a, b)
        else:
            if o == 'Gt':
                r = self.cmp_method(st, a, '__gt__', b)
                if r is not None:
                    return r
            rs = self.order(st, o, a, b)
        return [(s, v if isinstance(v, Exc) else ((not v) if neg else v)) for s, v in rs]

    def cmp_method(self, st, a, name, b):
        return None

    def boolean(self, t):
        """Is the call known to give True or False?"""
        if t[0] != 'call' or not isinstance(t[1], str):
            return False
        if t[1] in ('.startswith', '.endswith', '.isidentifier', '.isdigit', '.isalpha', '.isalnum', '.isupper', '.islower', '.isdisjoint', '.issubset', '.issuperset'):
            return True
        if t[1].count('.') != 1 or t[1].startswith('.'):
            return False
        c, n = t[1].split('.')
        if c not in self.repo.classes:
            return False
        m = self.repo.find_method(self.repo.cls(c), n)
        if m is None:
            return False
        rets = [x.value for x in own_nodes(m.node) if isinstance(x, ast.Return)]
        ends = m.node.body and isinstance(m.node.body[-1], (ast.Return, ast.Raise, ast.If, ast.Try))
        return bool(rets) and bool(ends) and all(x is not None and yields_bool(x) for x in rets) and not falls(m.node.body)

    def eq_fork(self, st, a, b):
        if is_c(b) and not is_c(a):
            x, c = a, b
        elif is_c(a) and not is_c(b):
            x, c = b, a
        else:
            x, c = None, None
        if x is not None and x[0] == 'call' and x[1] == 'len' and isinstance(cval(c), int):
            if cval(c) == 0:
                return [(s, not v) for s, v in self.truth(st, x[3][0])]
        if x is not None and isinstance(cval(c), str) and cval(c) and x[:3] == ('call', 'slice', None) and len(x[3]) == 4 and x[3][3] in (NONE, C(1)):
            # the beginning or the end of a string
            b, lo, hi, _ = x[3]
            k = len(cval(c))
            end = '.startswith' if lo in (NONE, C(0)) and hi == C(k) else '.endswith' if lo == C(-k) and hi == NONE else None
            if end:
                return self.truth(st, ('call', end, b, (C(cval(c)),), (), 0))
        if x is not None and isinstance(cval(c), bool) and self.boolean(x):
            return [(s, v if isinstance(v, Exc) else v == cval(c)) for s, v in self.truth(st, x)]
        return self.fork(st, mk_eq(self.atcell(st, a), self.atcell(st, b)))

    def atcell(self, st, t):
        if t[0] == 'ref':
            return st.at(t)
        return t

    def order(self, st, o, a, b):
        """Canonical order atoms: lt(x, y) only."""
        neg = False
        if o == 'Gt':
            a, b = b, a
        elif o == 'GtE':
            neg = True
        elif o == 'LtE':
            a, b = b, a
            neg = True
        # now: a < b, possibly negated.  len(x) < n  ==  not (n-1 < len(x))
        for x in (a, b):
            pass
        if a[0] == 'call' and a[1] == 'len' and is_c(b) and isinstance(cval(b), int):
            a, b, neg = C(cval(b) - 1), a, not neg
        if b[0] == 'call' and b[1] == 'len' and a == C(0):
            return [(s, v != neg) for s, v in self.truth(st, b[3][0])]
        return [(s, v != neg) for s, v in self.fork(st, ('lt', a, b))]

    def e_Lambda(self, e, st):
        cid = self.fresh()
        f = Func(ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                                 decorator_list=[], lineno=e.lineno), self.mod(), None)
        defs = {}
        a = e.args
        for p, d in zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults):
            for s2, v in self.ev(d, st)[:1]:
                defs[p.arg] = v
        self.closures[cid] = (f, st.fid, defs)
        return [(st, ('clo', cid))]

    def e_Yield(self, e, st):
        def f(s, v):
            s = s.copy()
            y = s.env().get('$yield')
            if y is None:
                return [(s, self.unk('yield', e))]
            s.push(y, ('app', v))
            return [(s, NONE)]
        return self.bind(self.ev(e.value, st), f) if e.value is not None else f(st, NONE)

    def e_YieldFrom(self, e, st):
        def f(s, v):
            s = s.copy()
            y = s.env().get('$yield')
            s.push(y, ('ext', s.at(v)) if s.ops(y) != (('lit',),) else ('ext', s.at(v)))
            if s.ops(y)[:1] == (('lit',),) and len(s.ops(y)) == 2:
                s.heap[y] = ('list', (('copy', v, len(s.ops(v))),))
            return [(s, NONE)]
        return self.bind(self.ev(e.value, st), f)

    # comprehensions are loops filling a fresh container
    def comp(self, e, st, kind):
        acc = '$acc%d' % self.fresh()
        if kind == 'dict':
            inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=acc, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            inner = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr='add' if kind == 'set' else 'append', ctx=ast.Load()),
                                      args=[e.elt], keywords=[]))
        return self.run_comp(e, st, acc, [inner], lambda s: self.alloc(s, kind))

    def run_comp(self, e, st, acc, inner, init):
        body = inner
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            fixlines(b, e.lineno)
        st = st.copy()
        caller = st.fid
        fid = self.fresh()
        st.frames[fid] = {'$parent': caller, '$func': None}
        st.fid = fid
        r = init(st)
        st.setvar(acc, r)
        fake = Func(ast.FunctionDef(name='<comp>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=body + [ast.Return(value=ast.Name(id=acc, ctx=ast.Load()))], decorator_list=[], lineno=e.lineno),
                    self.mod(), self.stack[-1].cls if self.stack else None)
        self.stack.append(fake)
        out = []
        try:
            for s, o in self.block(body, st):
                s = s.copy()
                v = s.frames[fid].get(acc)
                s.fid = caller
                if o[0] == 'exc':
                    out.append((s, o[1]))
                else:
                    out.append((s, v))
        finally:
            self.stack.pop()
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def anyall(self, e, st, isany):
        acc = '$acc%d' % self.fresh()
        inner = [ast.If(test=e.elt if isany else ast.UnaryOp(op=ast.Not(), operand=e.elt),
                        body=[ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=ast.Constant(isany)), ast.Break()], orelse=[])]
        g = ast.GeneratorExp(elt=e.elt, generators=e.generators)
        g.lineno = e.lineno
        if len(e.generators) > 1:
            inner = [ast.If(test=inner[0].test, body=inner[0].body[:1], orelse=[])]
        return self.run_comp(g, st, acc, inner, lambda s: B(not isany))

    def next_gen(self, e, st, default):
        acc = '$acc%d' % self.fresh()
        inner = [ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=e.elt), ast.Break()]
        g = ast.GeneratorExp(elt=e.elt, generators=e.generators)
        g.lineno = e.lineno
        rs = self.run_comp(g, st, acc, inner, lambda s: ('nodefault',) if default is None else default)
        return [(s, Exc('StopIteration') if v == ('nodefault',) else v) for s, v in rs]

    def e_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, b: self.getattr_(s, b, e.attr, e))

    def e_Subscript(self, e, st):
        def f(s, b):
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                if sl.lower is None and sl.upper is None and sl.step is None:
                    s = s.copy()
                    if b[0] == 'tup' or is_c(b):
                        return [(s, b)]
                    return [(s, self.alloc(s, s.kind(b) or 'list', (('copy', b, len(s.ops(b))),)))]
                parts = [x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)]

                def g(s2, vs):
                    if is_c(b) and all(is_c(x) for x in vs):
                        try:
                            return [(s2, C(cval(b)[slice(*[cval(x) for x in vs])]))]
                        except Exception:
                            pass
                    if b[0] == 'tup' and all(is_c(x) for x in vs):
                        return [(s2, tup(*b[1][slice(*[cval(x) for x in vs])]))]
                    # text after a known prefix ending with its only '_'
                    if vs[1] == NONE and vs[2] == NONE and is_c(vs[0]) and isinstance(cval(vs[0]), int):
                        for a, v in s2.facts.items():
                            if v and a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == '.startswith' and a[1][2] == b and is_c(a[1][3][0]):
                                p = cval(a[1][3][0])
                                if len(p) == cval(vs[0]) and p.find('_') == len(p) - 1:
                                    return [(s2, ('call', 'after1', None, (b, C('_')), (), 0))]
                    return [(s2, ('call', 'slice', None, (s2.at(b),) + tuple(vs), (), 0))]
                return self.bind([(s2, v if isinstance(v, Exc) else v) for s2, v in self.evs(parts, s)], g)
            return self.bind(self.ev(e.slice, s), lambda s2, k: self.index(s2, b, k, e))
        return self.bind(self.ev(e.value, st), f)

    # ------------------------------------------------------------------ attributes
    def getattr_(self, st, b, name, node=None):
        if b[0] == 'super':
            _, selft, clsname = b
            start = self.repo.classes.get(clsname)
            ty = self.typeof(st, selft)
            cls = self.repo.classes.get(ty[1]) if ty and ty[0] in ('inst', 'type') and ty[1] in self.repo.classes else start
            m = self.repo.find_method(cls, name, after=start) if start else None
            if m:
                return [(st, ('bm', selft, m.qual))]
            return [(st, ('meth', b, name))]
        if b[0] == 'mod':
            if b[1] in self.repo.modules:
                r = self.repo.resolve_global(self.repo.modules[b[1]], name)
                if r is None and b[1] + '.' + name in self.repo.modules:
                    r = ('mod', b[1] + '.' + name)
                return [(st, self.global_term(r) if r else ('glob', b[1], name))]
            return [(st, ('ext', b[1] + '.' + name))]
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + '.' + name))]
        if b[0] == 'excval':
            return [(st, ('attr', ('sym', 'exception'), name))]
        if b[0] == 'call' and b[1] == 'type' and len(b[3]) == 1:
            b = ('attr', b[3][0], '__class__')
        if isstr(b) and not hasattr(str, name):
            return [(st, Exc('AttributeError'))]
        if (b, name) in st.attrs:
            v = st.attrs[(b, name)]
            if v == ('deleted',):
                return [(st, Exc('AttributeError'))]
            return [(st, v)]
        ty = self.typeof(st, b)
        inst = b
        if b[0] == 'attr' and b[2] == '__class__':
            ty2 = self.typeof(st, b[1])
            if ty2 and ty2[0] == 'inst' and ty2[1] in self.repo.classes:
                cls = self.repo.cls(ty2[1])
                if any(name in c.assigns and name not in c.props for c in self.repo.mro(cls)):
                    return self.getattr_(st, b[1], name, node)
        if ty and ty[0] in ('inst', 'type') and ty[1] in self.repo.classes:
            cls = self.repo.cls(ty[1])
            p = self.repo.find_prop(cls, name)
            if p and p[0] and ty[0] == 'inst':
                if p[0].qual in self.opaque:
                    return [(st, ('attr', b, name))]
                return self.call_func(st, p[0], b, self.bind_args(st, p[0], b, [], {}), None)
            m = self.repo.find_method(cls, name)
            if m:
                if ty[0] == 'type' and not m.is_classmethod and not m.is_static:
                    return [(st, ('func', m.qual))]
                recv = b
                return [(st, ('bm', recv, m.qual))]
            if name == '__dict__':
                return [(st, ('attr', b, name))]
            dk = ('attr', b, '__dict__')
            if any(self.touches(st, o, C(name)) for o in st.ops(dk)) and not (name.startswith('__') and name.endswith('__')):
                rs = []
                for s, has, v in self.lookup(st, dk, C(name)):
                    if has:
                        rs.append((s, v))
                if rs:
                    return rs
            if ty[0] == 'inst' and ty[1] in self.repo.classes and name not in KNOWN_FIELDS(self.repo, cls):
                pass
            return [(st, ('attr', b, name))]
        if b[0] == 'func':
            return [(st, ('attr', b, name))]
        return [(st, ('attr', b, name))]

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        if self.is_log(e):
            return [(st, NONE)]
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(e.args) == 1 and not self.shadowed(f.id, st):
            g = e.args[0]
            if isinstance(g, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                return self.anyall(g, st, f.id == 'any')
            if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == 'map' and len(g.args) == 2:
                nm = '$m%d' % self.fresh()
                gen = ast.GeneratorExp(elt=ast.Call(func=g.args[0], args=[ast.Name(id=nm, ctx=ast.Load())], keywords=[]),
                                       generators=[ast.comprehension(target=ast.Name(id=nm, ctx=ast.Store()), iter=g.args[1], ifs=[], is_async=0)])
                fixlines(gen, e.lineno)
                return self.anyall(gen, st, f.id == 'any')
            nm = '$m%d' % self.fresh()
            gen = ast.GeneratorExp(elt=ast.Name(id=nm, ctx=ast.Load()),
                                   generators=[ast.comprehension(target=ast.Name(id=nm, ctx=ast.Store()), iter=g, ifs=[], is_async=0)])
            fixlines(gen, e.lineno)
            return self.anyall(gen, st, f.id == 'any')
        if isinstance(f, ast.Name) and f.id == 'next' and e.args and isinstance(e.args[0], ast.GeneratorExp) and not self.shadowed(f.id, st):
            if len(e.args) > 1:
                return self.bind(self.ev(e.args[1], st), lambda s, d: self.next_gen(e.args[0], s, d))
            return self.next_gen(e.args[0], st, None)
        if isinstance(f, ast.Name) and f.id in ('filter', 'map') and len(e.args) == 2 and not self.shadowed(f.id, st):
            nm = '$m%d' % self.fresh()
            x = ast.Name(id=nm, ctx=ast.Load())
            call = ast.Call(func=e.args[0], args=[x], keywords=[])
            isnone = isinstance(e.args[0], ast.Constant) and e.args[0].value is None
            gen = ast.ListComp(elt=x if f.id == 'filter' else call,
                               generators=[ast.comprehension(target=ast.Name(id=nm, ctx=ast.Store()), iter=e.args[1],
                                                             ifs=[] if f.id == 'map' else [x if isnone else call], is_async=0)])
            fixlines(gen, e.lineno)
            return self.ev(gen, st)

        if isinstance(f, ast.Attribute) and f.attr in ('union', 'update') and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            acc, m = '$acc%d_%d' % (e.lineno, e.col_offset), '$m%d_%d' % (e.lineno, e.col_offset)
            if f.attr == 'union':
                first = ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=ast.Call(func=ast.Name(id='set', ctx=ast.Load()), args=[f.value], keywords=[]))
            else:
                first = ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=f.value)
            each = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr='update', ctx=ast.Load()), args=[ast.Name(id=m, ctx=ast.Load())], keywords=[]))
            body = [first, ast.For(target=ast.Name(id=m, ctx=ast.Store()), iter=e.args[0].value, body=[each], orelse=[])]
            for b in body:
                fixlines(b, e.lineno)
            return [(s, o[1] if o[0] == 'exc' else NONE if f.attr == 'update' else self.e_Name(ast.Name(id=acc, ctx=ast.Load()), s)[0][1]) for s, o in self.block(body, st)]

        def withcallee(s, callee):
            posn, stars = [], []
            for a in e.args:
                posn.append(a.value if isinstance(a, ast.Starred) else a)
            kwn = [k.value for k in e.keywords]

            def withargs(s2, vs):
                pos, star_pos = [], None
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        if v[0] == 'tup':
                            pos.extend(v[1])
                        else:
                            ops = s2.ops(v)
                            if ops and all(o[0] in ('lit', 'app') for o in ops):
                                pos.extend(o[1] for o in ops[1:])
                            else:
                                pos.append(('star', s2.at(v)))
                    else:
                        pos.append(v)
                kw, star = {}, None
                self.ownstar = None
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if self.last_use(k.value, s2):
                            self.ownstar = v
                        ops = s2.ops(v)
                        if ops and ops[0][0] == 'lit' and all(o[0] in ('lit', 'set') and (o[0] == 'lit' or is_c(o[1])) for o in ops):
                            for o in ops[1:]:
                                kw[cval(o[1])] = o[2]
                        elif star is None:
                            star = v
                        else:
                            star = ('unk', self.fresh())
                    else:
                        kw[k.arg] = v
                return self.apply(s2, callee, pos, kw, star, e)
            return self.bind(self.evs(posn + kwn, s), withargs)
        return self.bind(self.ev(f, st), withcallee)

    def last_use(self, n, st):
        """Is this the only place of the function where its own ** argument appears, outside loops?"""
        f = st.frames[st.fid].get('$func')
        node = getattr(f, 'node', None)
        kw = node is not None and getattr(node, 'args', None) is not None and node.args.kwarg
        if not kw or not isinstance(n, ast.Name) or n.id != kw.arg:
            return False
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id == n.id and x is not n:
                return False
            if isinstance(x, (ast.For, ast.While, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(y is n for y in ast.walk(x)):
                return False
            if x is not node and isinstance(x, ast.FunctionDef) and any(y is n for y in ast.walk(x)):
                return False
        return True

    def shadowed(self, name, st):
        fid = st.fid
        while fid is not None:
            if name in st.frames[fid]:
                return True
            fid = st.frames[fid].get('$parent')
        return False

    def funcby(self, qual):
        if ':' in qual:
            m, n = qual.split(':')
            return self.repo.module(m).funcs.get(n)
        c, n = qual.split('.', 1)
        cls = self.repo.classes.get(c)
        return self.repo.find_method(cls, n) if cls else None

    def apply(self, st, callee, pos, kw, star, node):
        h = callee[0]
        line = getattr(node, 'lineno', 0)
        if h == 'clo':
            f, fid, defs = self.closures[callee[1]]
            b = self.bind_args(st, f, None, pos, kw, star)
            if b is None or any(x is f for x in self.stack):
                return self.opaque_call(st, 'closure', None, pos, kw, star, node)
            for k, v in defs.items():
                b.setdefault(k, v)
            return self.call_func(st, f, None, b, fid)
        if h == 'func' or h == 'bm':
            recv, qual = (None, callee[1]) if h == 'func' else (callee[1], callee[2])
            f = self.funcby(qual)
            if f is not None:
                r = None if (f.is_static or h == 'func') else recv
                if h == 'bm' and f.is_classmethod:
                    ty = self.typeof(st, recv)
                    if ty and ty[0] == 'inst':
                        r = attr(recv, '__class__')
                if f.name == 'tag_clean' and False:
                    pass
                inl = f.qual not in self.opaque and not any(x is f for x in self.stack)
                b = self.bind_args(st, f, r, pos, kw, star) if inl else None
                if b is not None and star is not None and not self.star_ok(f):
                    b = None
                if b is not None:
                    return self.call_func(st, f, r, b, None)
                return self.opaque_call(st, f.qual, r, pos, kw, star, node, f)
            return self.opaque_call(st, qual, recv, pos, kw, star, node)
        if h == 'cls':
            cls = self.repo.cls(callee[1])
            init = self.repo.find_method(cls, '__init__')
            if cls.name in self.inline_ctor and init is not None:
                st = st.copy()
                o = ('ref', self.fresh(), 'obj:' + cls.name)
                self.types[o] = ('inst', cls.name)
                b = self.bind_args(st, init, o, pos, kw, star)
                if b is not None:
                    out = []
                    for s, v in self.call_func(st, init, o, b, None):
                        out.append((s, v if isinstance(v, Exc) else o))
                    return out
            return self.opaque_call(st, 'new ' + cls.name, None, pos, kw, star, node, init, skipself=True)
        if pos and pos[0][0] != 'star':
            # an unbound method of a builtin type
            base, m = (callee[1].split('.') if h in ('builtin', 'ext') and callee[1].count('.') == 1 else
                       (callee[1][1], callee[2]) if h in ('attr', 'meth') and callee[1][0] == 'builtin' else (None, None))
            if base in ('str', 'list', 'dict', 'set', 'tuple') and m not in ('fromkeys', 'maketrans', '__new__'):
                return self.method(st, pos[0], m, list(pos[1:]), kw, star, node)
        if h == 'builtin':
            return self.builtin(st, callee[1], pos, kw, star, node)
        if h == 'ext':
            return self.external(st, callee[1], pos, kw, star, node)
        if h == 'meth':
            return self.method(st, callee[1], callee[2], pos, kw, star, node)
        if h == 'attr':
            ty = self.typeof(st, callee)
            m = ty and ty[0] == 'inst' and ty[1] in self.repo.classes and self.repo.find_method(self.repo.cls(ty[1]), '__call__')
            if m:
                return self.apply(st, ('bm', callee, m.qual), pos, kw, star, node)
            return self.method(st, callee[1], callee[2], pos, kw, star, node)
        if h == 'glob':
            return self.opaque_call(st, callee[1].split('.')[-1] + ':' + callee[2], None, pos, kw, star, node)
        # calling a value: instances of package classes with __call__
        ty = self.typeof(st, callee)
        if ty and ty[0] == 'inst' and ty[1] in self.repo.classes:
            m = self.repo.find_method(self.repo.cls(ty[1]), '__call__')
            if m:
                return self.apply(st, ('bm', callee, m.qual), pos, kw, star, node)
        if ty in (('ext', 'Catalog'), ('inst', 'Collector')):
            st = st.copy()
            return [(st, self.alloc(st, 'list', (('copy', attr(callee, '_items'), len(st.ops(attr(callee, '_items')))),)))]
        return self.opaque_call(st, 'apply', callee, pos, kw, star, node)

    def star_ok(self, f):
        return f.node.args.kwarg is not None

    def norm_args(self, st, f, pos, kw, skipself, recv):
        """Positional arguments of a known function are named after its parameters."""
        if f is None:
            return tuple(pos), tuple(sorted(kw.items()))
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if (skipself or recv is not None or (f.cls is not None and not f.is_static and recv is not None)) and names:
            names = names[1:]
        elif f.cls is not None and not f.is_static and recv is None and not skipself:
            names = names
        if any(x[0] == 'star' for x in pos) or len(pos) > len(names):
            return tuple(pos), tuple(sorted(kw.items()))
        k = dict(kw)
        for n, v in zip(names, pos):
            k[n] = v
        return (), tuple(sorted(k.items()))

    def opaque_call(self, st, label, recv, pos, kw, star, node, f=None, skipself=False, pure=False):
        p, k = self.norm_args(st, f, list(pos), kw, skipself, recv)
        if star is not None:
            k = k + (('**', st.at(star)),)
        st = st.copy()
        line = getattr(node, 'lineno', 0)
        tp = tuple(self.frz(st, x) for x in p)
        tk = tuple((a, self.frz(st, x)) for a, x in k)
        if pure or label in PURE_CALLS or label in PURE_QUALS:
            res = ('call', label, recv, tp, tk, 0)
        else:
            cnt = 0
            q = st.ev
            while q is not None:
                e = q[1]
                if e.kind == 'call' and e.label == label and e.res is not None and e.res[2:5] == (recv, tp, tk):
                    cnt += 1
                q = q[0]
            res = ('call', label, recv, tp, tk, cnt)
            st.emit(Ev('call', label, recv, p, k, res, line, self.file()))
        return self.maybe_raise(st, res)

    def frz(self, st, x):
        """References to containers are kept as such; their content version is not part of the call's name."""
        return x

    def field_kind(self, st, b):
        """list, dict or set when the attribute is only given such containers by the constructor of its class."""
        k = st.kind(b)
        if k not in (None, 'ext') or b[0] != 'attr':
            return k
        ty = self.typeof(st, b[1])
        cls = self.repo.classes.get(ty[1]) if ty and ty[0] == 'inst' else None
        init = cls and self.repo.find_method(cls, '__init__')
        if not init:
            return k
        kinds = set()
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == b[2] for t in n.targets):
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set'):
                    kinds.add(v.func.id)
                else:
                    kinds.add({ast.List: 'list', ast.ListComp: 'list', ast.Dict: 'dict', ast.DictComp: 'dict', ast.Set: 'set'}.get(type(v)))
        return kinds.pop() if len(kinds) == 1 and None not in kinds else k

    def maybe_raise(self, st, res):
        out = []
        if st.tryd and not (res[0] == 'call' and res[2] is None and res[1] in ('id', 'type', 'callable') and len(res[3]) == 1):
            a = ('raises', res)
            s1 = st.assume(a, False)
            s2 = st.assume(a, True)
            if s1 is not None:
                out.append((s1, res))
            if s2 is not None:
                out.append((s2, Exc(None, call=res)))
            return out
        return [(st, res)]

    def predicate(self, st, a):
        return [(s, B(v)) for s, v in self.fork(st, a)]

    # builtins
    def builtin(self, st, name, pos, kw, star, node):
        if name == 'isinstance' and len(pos) == 2:
            return self.isinstance_(st, pos[0], pos[1])
        if name == 'issubclass' and len(pos) == 2:
            if pos[1][0] == 'tup':
                return self.anyof(st, [lambda s, t=t: self.predicate(s, ('issubclass', pos[0], t)) for t in pos[1][1]])
            return self.predicate(st, ('issubclass', pos[0], pos[1]))
        if name == 'hasattr' and len(pos) == 2:
            k = self.knows_attr(st, pos[0], pos[1])
            if k is not None:
                return [(st, B(k))]
            return self.predicate(st, ('hasattr', pos[0], pos[1]))
        if name == 'callable' and len(pos) == 1:
            if pos[0][0] in ('func', 'bm', 'cls', 'clo', 'builtin'):
                return [(st, TRUE)]
            return self.predicate(st, ('callable', pos[0]))
        if name == 'bool':
            if not pos:
                return [(st, FALSE)]
            return [(s, B(v)) for s, v in self.truth(st, pos[0])]
        if name == 'len' and len(pos) == 1:
            v = pos[0]
            if v[0] == 'tup':
                return [(st, C(len(v[1])))]
            if is_c(v) and isinstance(cval(v), str):
                return [(st, C(len(cval(v))))]
            ops = st.ops(v)
            if ops and ops[0][0] == 'lit' and all(o[0] in ('lit', 'app') for o in ops):
                return [(st, C(len(ops) - 1))]
            if v[0] == 'view':
                v = v[2]
            ty = self.typeof(st, v)
            if ty and ty[0] == 'inst' and ty[1] in self.repo.classes:
                m = self.repo.find_method(self.repo.cls(ty[1]), '__len__')
                if m and m.qual not in self.opaque:
                    return self.call_func(st, m, v, self.bind_args(st, m, v, [], {}), None)
            return [(st, ('call', 'len', None, (st.at(v),), (), 0))]
        if name in CONTAINER_CTORS and not bounded(CONTAINER_CTORS[name], pos, kw):
            return self.ctor(st, CONTAINER_CTORS[name], pos, kw, star, node)
        if name == 'str' and star is not None:
            return self.opaque_call(st, 'apply', ('builtin', 'str'), pos, kw, star, node)
        if name == 'str' and len(pos) == 1 and not kw:
            if is_c(pos[0]):
                return [(st, C(str(cval(pos[0]))))]
            if isstr(pos[0]):
                return [(st, pos[0])]
            return self.maybe_raise(st, ('call', 'str', None, (pos[0],), (), 0))
        if name in ('getattr',) and len(pos) >= 2:
            return self.getattr_dyn(st, pos, node)
        if name == 'setattr' and len(pos) == 3:
            if is_c(pos[1]):
                return [(s, NONE if o[0] == 'next' else o[1]) for s, o in self.setattr_(st, pos[0], cval(pos[1]), pos[2], node)]
            st = st.copy()
            st.emit(Ev('call', 'setattr', pos[0], (pos[1], pos[2]), (), None, node.lineno, self.file()))
            return [(st, NONE)]
        if name == 'delattr' and len(pos) == 2 and is_c(pos[1]):
            st = st.copy()
            st.attrs[(pos[0], cval(pos[1]))] = ('deleted',)
            st.emit(Ev('delattr', cval(pos[1]), pos[0], (), (), None, node.lineno, self.file()))
            return [(st, NONE)]
        if name == 'super':
            if not pos:
                fid = st.fid
                selft, cls = None, None
                for fr in reversed(self.stack):
                    if fr.cls is not None:
                        cls = fr.cls.name
                        break
                while fid is not None and selft is None:
                    fn = st.frames[fid].get('$func')
                    if fn is not None and getattr(fn, 'cls', None) is not None and fn.node.args.args:
                        selft = st.frames[fid].get(fn.node.args.args[0].arg)
                    fid = st.frames[fid].get('$parent')
                return [(st, ('super', selft or ('unk', self.fresh()), cls))]
            if pos[0][0] == 'cls' and len(pos) == 2:
                return [(st, ('super', pos[1], pos[0][1]))]
            return [(st, self.unk('super', node))]
        if name == 'sorted' and pos:
            k = {a: self.keyterm(st, v) if a == 'key' else v for a, v in kw.items()}
            if k.get('reverse') == FALSE:
                k.pop('reverse')
            return [(st, ('call', 'sorted', None, (st.at(pos[0]),), tuple(sorted(k.items())), 0))]
        if name in ('max', 'min') and len(pos) == 1 and 'key' in kw and 'default' not in kw:
            return [(st, ('item', ('sorted', st.at(pos[0]), self.keyterm(st, kw['key']), TRUE if name == 'max' else FALSE), C(0)))]
        if name in ('max', 'min') and len(pos) == 2 and not kw:
            if all(is_c(x) for x in pos):
                return [(st, C((max if name == 'max' else min)(cval(x) for x in pos)))]
            return [(st, ('call', name, None, tuple(sorted(pos, key=repr)), (), 0))]
        if name == 'type' and len(pos) == 1:
            return [(st, attr(pos[0], '__class__'))]
        if name == 'iter' and len(pos) == 1:
            return [(st, st.at(pos[0]) if pos[0][0] != 'view' else pos[0])]
        if name == 'next' and pos and pos[0][0] != 'clo':
            # first element of an iterable
            base = pos[0]
            out = []
            for s, v in self.truth(st, base):
                if v:
                    out.append((s, ('item', s.at(base), C(0))))
                elif len(pos) > 1:
                    out.append((s, pos[1]))
                else:
                    out.append((s, Exc('StopIteration')))
            return out
        if name in ('reversed', 'enumerate', 'zip', 'range'):
            p = tuple(st.at(x) if x[0] != 'tup' and not is_c(x) else x for x in pos)
            return [(st, ('call', name, None, p, tuple(sorted(kw.items())), 0))]
        if name == 'vars' and len(pos) == 1:
            return [(st, st.attrs.get((pos[0], '__dict__')) or attr(pos[0], '__dict__'))]
        if name == 'hash' and len(pos) == 1:
            return self.maybe_raise(st, ('call', 'hash', None, (st.at(pos[0]) if pos[0][0] != 'tup' else pos[0],), (), 0))
        if name in PURE_CALLS:
            return self.opaque_call(st, name, None, [st.at(x) if x[0] in ('ref',) else x for x in pos], kw, star, node, pure=True)
        if name in EXC_TREE:
            return [(st, ('call', 'new ' + name, None, tuple(pos), (), 0))]
        return self.opaque_call(st, name, None, pos, kw, star, node)

    def keyterm(self, st, f):
        """Canonical description of a key function: its result on a generic argument."""
        arg = ('arg', 0)
        s = st.copy()
        s.tryd = 0
        try:
            if f[0] == 'call' and f[1] == 'operator.itemgetter':
                ks = f[3]
                return ('keyfn', ('item', arg, ks[0])) if len(ks) == 1 else ('keyfn', tup(*[('item', arg, k) for k in ks]))
            ety = getattr(self, 'key_arg_types', None)
            if ety:
                self.types.update(ety)
            rs = self.apply(s, f, [arg], {}, None, ast.Constant(0, lineno=0))
            rs = [(s2, v) for s2, v in rs if not isinstance(v, Exc)]
            if len(rs) == 1:
                return ('keyfn', rs[0][1])
            if 1 < len(rs) < 9:
                return ('keyfn', ('unk', self.fresh(), ('cases', tuple((tuple(s2.conds()[len(st.conds()):]), v) for s2, v in rs))))
        except Budget:
            raise
        return ('keyfn', ('unk', self.fresh()))

    def someof(self, st, lit, coll):
        """Is some item of a container written item by item in coll?  None if it is not such a container."""
        plans = self.iter_plan(st, lit)
        if any(p[0] != 'unroll' for _, p in plans):
            return None
        out = []
        for s0, p in plans:
            out.extend(self.anyof(s0, [lambda s, x=x: [(s2, B(v)) for s2, v in self.member(s, x, coll)] for x in p[1]]))
        return out

    def anyof(self, st, tests):
        out, cur = [], [st]
        for t in tests:
            nxt = []
            for s in cur:
                for s2, v in t(s):
                    if v == TRUE:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, FALSE) for s in cur]

    def isinstance_(self, st, x, t):
        if t[0] == 'tup':
            return self.anyof(st, [lambda s, q=q: self.isinstance_(s, x, q) for q in t[1]])
        if t[0] == 'cls':
            ty = self.typeof(st, x)
            if ty and ty[0] == 'inst' and ty[1] in self.repo.classes and self.repo.cls(t[1]) in self.repo.mro(self.repo.cls(ty[1])):
                return [(st, TRUE)]
        if t == ('builtin', 'type'):
            ty = self.typeof(st, x)
            if ty and ty[0] == 'type':
                return [(st, TRUE)]
        if t == ('builtin', 'object'):
            return [(st, TRUE)]
        if t[0] == 'cls' and (isstr(x) or is_c(x) or x[0] in ('tup', 'strcat') or x[0] == 'ref' and x[2] in ('list', 'dict', 'set', 'deque')):
            return [(st, FALSE)]
        return self.predicate(st, ('isinstance', x, t))

    def knows_attr(self, st, b, n):
        """Has b an attribute n?  (None: it depends)"""
        if not is_c(n):
            return None
        nm = cval(n)
        if (b, nm) in st.attrs:
            return st.attrs[(b, nm)] != ('deleted',)
        ty = self.typeof(st, b)
        if ty and ty[0] in ('inst', 'type') and ty[1] in self.repo.classes:
            c = self.repo.cls(ty[1])
            if self.repo.find_method(c, nm) or self.repo.find_prop(c, nm):
                return True
        if nm in ('__iter__', '__contains__', '__len__') and (b[0] == 'ref' and b[2] in ('list', 'dict', 'set', 'deque', 'tuple') or b[0] == 'tup'):
            return True
        if isstr(b) and isinstance(nm, str) and not hasattr(str, nm):
            return False
        return None

    def getattr_dyn(self, st, pos, node):
        b, n = pos[0], pos[1]
        if is_c(n):
            if len(pos) == 2:
                return self.getattr_(st, b, cval(n), node)
            out = []
            k = self.knows_attr(st, b, n)
            for s, v in self.fork(st, ('hasattr', b, n)) if k is None else [(st, k)]:
                if v:
                    out.extend(self.getattr_(s, b, cval(n), node))
                else:
                    out.append((s, pos[2]))
            return out
        v = ('call', 'getattr', None, (b, n), (), 0)
        if len(pos) == 2:
            return self.maybe_raise(st, v)
        out = []
        for s, has in self.fork(st, ('hasattr', b, n)):
            out.append((s, v if has else pos[2]))
        return out

    def ctor(self, st, kind, pos, kw, star, node):
        if pos and star is not None and kind == 'dict':
            out = []
            for s, r in self.ctor(st, kind, pos, {}, None, node):
                s = s.copy()
                s.push(r, ('upd', s.at(star)))
                for k, v in kw.items():
                    s.push(r, ('set', C(k), v))
                out.append((s, r))
            return out
        st = st.copy()
        if not pos:
            r = self.alloc(st, kind)
            if star is not None:
                st.heap[r] = (kind, (('copy', star, len(st.ops(star))),))
            for k, v in kw.items():
                if kind == 'dict':
                    st.push(r, ('set', C(k), v))
            if kind == 'tuple' and not kw:
                return [(st, tup())]
            return [(st, r)]
        src = pos[0]
        if kind in ('list', 'tuple', 'set', 'deque') and src[0] == 'tup':
            if kind == 'tuple':
                return [(st, src)]
            return [(st, self.alloc(st, kind, (('lit',),) + tuple(('add' if kind == 'set' else 'app', v) for v in src[1])))]
        if kind == 'dict' and (st.kind(src) in ('list', 'tuple') or src[0] == 'tup' or (src[0] == 'call' and src[1] in ('zip', 'enumerate'))):
            elems = list(src[1]) if src[0] == 'tup' else None
            ops = st.ops(src)
            if ops and all(o[0] in ('lit', 'app') for o in ops):
                elems = [o[1] for o in ops[1:]]
            if elems is not None and all(x[0] == 'tup' and len(x[1]) == 2 for x in elems):
                r = self.alloc(st, 'dict')
                for x in elems:
                    st.push(r, ('set', x[1][0], x[1][1]))
                for k, v in kw.items():
                    st.push(r, ('set', C(k), v))
                return [(st, r)]
            if ops and ops[0][0] == 'lit' and len(ops) == 2 and ops[1][0] == 'each':
                # dict(<pairs built by a loop>)
                each = ops[1]
                d = each[3]
                r = self.alloc(st, 'dict')
                st.push(r, ('each', each[1], each[2], _PairDelta(d)))
                return [(st, r)]
        if src[0] == 'view' and src[1] == 'items' and kind == 'dict':
            src = src[2]
        if src[0] == 'view' and src[1] == 'keys' and kind != 'dict':
            src = src[2]
        if src[0] == 'at':
            r = self.alloc(st, kind, (('copy', src[1], src[2]),))
        else:
            ty = self.typeof(st, src)
            if ty in (('inst', 'Collector'), ('ext', 'Catalog')):
                src = attr(src, '_items')
            elif ty and ty[0] == 'inst' and ty[1] in self.repo.classes and self.repo.find_method(self.repo.cls(ty[1]), '__iter__'):
                m = self.repo.find_method(self.repo.cls(ty[1]), '__iter__')
                out = []
                for s, v in self.call_func(st, m, src, self.bind_args(st, m, src, [], {}), None):
                    out.extend(self.ctor(s, kind, [v], kw, star, node))
                return out
            r = self.alloc(st, kind, (('copy', src, len(st.ops(src))),))
        for k, v in kw.items():
            if kind == 'dict':
                st.push(r, ('set', C(k), v))
        return [(st, r)]

    def touches(self, st, op, key):
        """May this operation change the entry of the key?"""
        if op[0] in ('set', 'del', 'setdef'):
            return self.same_key(st, op[1], key) is not False
        if op[0] == 'each':
            return any(self.touches(st, o, key) for e in op[2].edges for o in op[3](e))
        if op[0] == 'phi' and op[3:]:
            return any(self.touches(st, o, key) for o in self.phiops.get((op[1], op[3]), ()))
        return True

    def overridden(self, st, src, key, v):
        """v once updated by src under a known key; None when unknown."""
        if v is None or src[0] == 'view':
            return None
        rows = self.lookup(st, src, key)
        if len(rows) != 1 or rows[0][1] and rows[0][2][0] == 'itemv':
            return None
        return rows[0][2] if rows[0][1] else v

    def external(self, st, dotted, pos, kw, star, node):
        short = dotted
        if dotted.endswith('stdtypes.catalog.Catalog.__init__') and pos and pos[0][0] != 'star' and st.attrs:
            # the named arguments become attributes
            out = self.opaque_call(st, short, None, pos, kw, star, node)
            res = []
            for s, r in out:
                if isinstance(r, Exc):
                    res.append((s, r))
                    continue
                s = s.copy()
                for k in [k for k in s.attrs if k[0] == pos[0] and k[1] not in ('_items', '_weak', 'weak')]:
                    if k[1] in kw:
                        s.attrs[k] = kw[k[1]]
                    elif star is not None:
                        v = self.overridden(s, star, C(k[1]), s.attrs[k])
                        s.attrs[k] = v if v is not None else ('getd', s.at(star), C(k[1]), s.attrs[k])
                res.append((s, r))
            return res
        if dotted in CONTAINER_CTORS and not bounded(CONTAINER_CTORS[dotted], pos, kw) or dotted in ('collections.deque', 'collections.OrderedDict', 'weakref.WeakSet'):
            k = dict(kw)
            if 'maxlen' in k and not pos:
                st = st.copy()
                r = self.alloc(st, 'deque')
                st.attrs[(r, 'maxlen')] = k['maxlen']
                return [(st, r)]
            return self.ctor(st, CONTAINER_CTORS[dotted], pos, kw, star, node)
        if dotted == 'collections.defaultdict':
            st = st.copy()
            r = self.alloc(st, 'defaultdict')
            st.attrs[(r, 'default_factory')] = pos[0] if pos else NONE
            return [(st, r)]
        if dotted == 'copy.copy' and len(pos) == 1 and (st.kind(pos[0]) or self.typeof(st, pos[0]) is None):
            return self.ctor(st, st.kind(pos[0]) or 'dict', pos, {}, None, node)
        if dotted == 'operator.attrgetter' and len(pos) == 1 and is_c(pos[0]):
            pass
        if dotted.endswith('inspect.isclass') and len(pos) == 1:
            return self.isinstance_(st, pos[0], ('builtin', 'type'))
        out = self.opaque_call(st, short, None, pos, kw, star, node, pure=short in PURE_CALLS)
        if self.merging and dotted.endswith('syntax.dictmerge') and len(pos) == 2 and pos[0][0] == 'ref':
            # the first dictionary receives the keys of the second one, down the sub-dictionaries
            res = []
            for s, r in out:
                if not isinstance(r, Exc):
                    s = s.copy()
                    s.push(pos[0], ('upd', r))
                    r = pos[0]
                res.append((s, r))
            return res
        return out

    # methods on values whose class is not part of the package
    def method(self, st, recv, name, pos, kw, star, node):
        if any(x[0] == 'star' for x in pos) and (recv[0] == 'ref' or name in PURE_METHODS):
            if name in MUTATORS and st.kind(recv):
                st = st.copy()
                st.push(recv, ('inv',))
                return [(st, NONE)]
            return self.opaque_call(st, '.' + name, recv, pos, kw, star, node)
        if name == 'group' and is_match(recv) and star is None and not kw:
            if not pos:
                pos = [C(0)]
            if len(pos) > 1:
                return [(st, tup(*[('call', '.group', recv, (x,), (), 0) for x in pos]))]
        ty = self.typeof(st, recv)
        if recv[0] == 'attr' and ty is None and recv[2] in ('__class__',):
            pass
        iscat = ty in (('ext', 'Catalog'), ('inst', 'Collector'))
        if iscat and name in ('items', '__iter__', '__call__') and not pos:
            if name == '__call__':
                st = st.copy()
                return [(st, self.alloc(st, 'list', (('copy', attr(recv, '_items'), 0),)))]
            return [(st, attr(recv, '_items'))]
        if iscat and name in ('add', 'discard', 'clear', 'pop'):
            return self.opaque_call(st, '.' + name, recv, pos, kw, star, node)
        if ty and ty[0] in ('inst', 'type') and ty[1] in self.repo.classes:
            return self.opaque_call(st, '.' + name, recv, pos, kw, star, node)
        if recv[0] == 'super':
            return self.opaque_call(st, 'super.' + name, recv[1], pos, kw, star, node)
        if is_c(recv) and isinstance(cval(recv), str):
            if name == 'format':
                return [(st, strformat(recv, pos, kw))]
            if name == 'join' and len(pos) == 1:
                whole = ('call', '.join', recv, (st.at(pos[0]),), (), 0)
                if pos[0][0] != 'tup' and not (pos[0][0] == 'ref' and len(pos[0]) > 2 and pos[0][2] == 'list'):
                    return [(st, whole)]
                out = []
                for s, p in self.iter_plan(st, pos[0]):
                    if p[0] == 'unroll' and 0 < len(p[1]) <= 6:
                        parts = [p[1][0]]
                        for x in p[1][1:]:
                            parts += [recv, x]
                        out.append((s, strcat(parts)))
                    else:
                        out.append((s, whole))
                return out
            if all(is_c(p) or (p[0] == 'tup' and all(is_c(q) for q in p[1])) for p in pos) and not kw and name in STR_METHODS:
                try:
                    r = getattr(cval(recv), name)(*[cval(p) if is_c(p) else tuple(cval(q) for q in p[1]) for p in pos])
                    if isinstance(r, (str, bool, int)):
                        return [(st, C(r))]
                    if isinstance(r, (list, tuple)):
                        return [(st, tup(*[C(x) for x in r]))]
                except Exception:
                    pass
        if name in ('startswith', 'endswith') and pos and pos[0][0] == 'tup':
            return self.anyof(st, [lambda s, q=q: self.predicate(s, ('truth', ('call', '.' + name, recv, (q,), (), 0))) for q in pos[0][1]])
        kind = st.kind(recv)
        if recv[0] == 'view':
            kind = 'view'
        if name == 'removeprefix' and pos and is_c(pos[0]) and str(cval(pos[0])).find('_') == len(str(cval(pos[0]))) - 1:
            a = ('truth', ('call', '.startswith', recv, (pos[0],), (), 0))
            if st.decide(a):
                return [(st, ('call', 'after1', None, (recv, C('_')), (), 0))]
        dictlike = kind in ('dict', 'defaultdict', 'ext', None, 'obj') or kind is None
        if name == 'get' and dictlike and 1 <= len(pos) <= 2 and not kw and (recv[0] not in ('ext', 'mod', 'glob') or st.ops(recv)):
            out = []
            dflt = pos[1] if len(pos) > 1 else NONE
            if kind in (None, 'ext') and not st.ops(recv) and recv[0] in ('sym', 'attr', 'item', 'elem', 'call') and recv not in self.open \
                    and not (recv[0] == 'attr' and recv[2] == '__dict__'):
                d = st.decide(('in', pos[0], recv))
                if d is None and self.presume:
                    d = self.presume(('in', pos[0], recv))
                if d is None:
                    return [(st, ('getd', recv, pos[0], dflt))]
            for s, has, v in self.lookup(st, recv, pos[0], node):
                out.append((s, v if has else dflt))
            return out
        if name in ('keys', 'values', 'items') and not pos and not kw and recv[0] not in ('glob', 'mod'):
            return [(st, ('view', name, st.at(recv)))]
        if name == 'copy' and not pos and recv[0] not in ('mod', 'ext'):
            st = st.copy()
            return [(st, self.alloc(st, kind if kind and kind != 'ext' else 'dict', (('copy', recv, len(st.ops(recv))),)))]
        if name == '__contains__' and len(pos) == 1:
            return [(s, B(v)) for s, v in self.member(st, pos[0], recv)]
        if name == '__getitem__' and len(pos) == 1:
            return self.index(st, recv, pos[0], node)
        if name in MUTATORS and not (kw and name in ('add',)) and recv[0] not in ('glob', 'mod', 'ext', 'cls'):
            return self.mutator(st, recv, name, pos, kw, star, node, kind)
        if name in ('union', 'intersection', 'difference') and len(pos) == 1:
            if kind == 'set' and name == 'union':
                st = st.copy()
                r = self.alloc(st, 'set', (('copy', recv, len(st.ops(recv))),))
                st.push(r, ('ext', st.at(pos[0])))
                return [(st, r)]
            args = [st.at(recv), st.at(pos[0])]
            if name != 'difference':
                args.sort(key=repr)
            return [(st, ('call', name, None, tuple(args), (), 0))]
        if name == 'isdisjoint' and len(pos) == 1:
            out = self.someof(st, pos[0], recv) or self.someof(st, recv, pos[0])
            if out is not None:
                return [(s, FALSE if v == TRUE else TRUE) for s, v in out]
            return [(s, B(not v)) for s, v in self.truth(st, ('call', 'intersection', None, tuple(sorted([st.at(recv), st.at(pos[0])], key=repr)), (), 0))]
        if name in PRED_METHODS and not kw:
            return self.predicate(st, ('truth', ('call', '.' + name, recv, tuple(pos), (), 0)))
        if name in STR_METHODS or name in ('index', 'count', 'group', 'groups'):
            if name in ('upper', 'lower') and recv[0] == 'call' and recv[1] == '.' + name and not recv[3] and not pos:
                return [(st, recv)]
            r = ('call', '.' + name, st.at(recv) if kind in ('list', 'deque', 'ext') else recv, tuple(pos), tuple(sorted(kw.items())), 0)
            if name == 'index' and len(pos) == 1 and not kw and self.field_kind(st, recv) in ('list', 'deque'):
                return [(s, r if v else Exc('ValueError', line=node.lineno)) for s, v in self.member(st, pos[0], recv)]
            return self.maybe_raise(st, r) if name in ('index', 'group', 'format', 'group') else [(st, r)]
        return self.opaque_call(st, '.' + name, recv, pos, kw, star, node)

    def mutator(self, st, recv, name, pos, kw, star, node, kind):
        if name == 'setdefault' and 1 <= len(pos) <= 2:
            out = []
            d = pos[1] if len(pos) > 1 else NONE
            for s, has, v in self.lookup(st, recv, pos[0], node):
                if has:
                    out.append((s, v))
                else:
                    s = s.copy()
                    s.push(recv, ('set', pos[0], d))
                    self.mut(s, recv, 'setitem', (pos[0], d), node)
                    out.append((s, d))
            return out
        if name == 'pop' and len(pos) == 1 and self.field_kind(st, recv) in ('list', 'deque') and pos[0][0] == 'call' and pos[0][1] == '.index' \
                and pos[0][2] == st.at(recv) and len(pos[0][3]) == 1:
            # the element found at that place
            st = st.copy()
            st.push(recv, ('rem', pos[0][3][0]))
            self.mut(st, recv, 'remove', (pos[0][3][0],), node)
            return [(st, pos[0][3][0])]
        if name == 'pop' and pos and self.field_kind(st, recv) not in ('list', 'deque') and (len(pos) == 2 or (is_c(pos[0]) and isinstance(cval(pos[0]), str)) or not is_c(pos[0])):
            out = []
            for s, has, v in self.lookup(st, recv, pos[0], node):
                if has:
                    s = s.copy()
                    s.push(recv, ('del', pos[0]))
                    self.mut(s, recv, 'delitem', (pos[0],), node)
                    out.append((s, v))
                elif len(pos) > 1:
                    out.append((s, pos[1]))
                else:
                    out.append((s, Exc('KeyError', line=node.lineno)))
            return out
        st = st.copy()
        res = NONE
        n = len(st.ops(recv))
        at = st.at(recv)
        if name == 'append' and len(pos) == 1:
            st.push(recv, ('app', pos[0]))
        elif name == 'appendleft' and len(pos) == 1:
            st.push(recv, ('appl', pos[0]))
        elif name == 'add' and len(pos) == 1 and not kw:
            st.push(recv, ('add', pos[0]))
        elif name in ('extend',) and len(pos) == 1:
            self.push_all(st, recv, pos[0], 'app')
        elif name == 'update' and len(pos) <= 1:
            isset = kind == 'set'
            if pos:
                if isset:
                    self.push_all(st, recv, pos[0], 'add')
                else:
                    src = pos[0]
                    sops = st.ops(src)
                    if sops and sops[0][0] == 'lit' and all(o[0] == 'lit' or (o[0] == 'set' and is_c(o[1])) for o in sops):
                        for o in sops[1:]:
                            st.push(recv, o)
                    elif sops and sops[0][0] == 'lit' and st.kind(src) != 'dict' and all(o[0] in ('app', 'add') and o[1][0] == 'tup' and len(o[1][1]) == 2 for o in sops[1:]):
                        for o in sops[1:]:
                            st.push(recv, ('set', o[1][1][0], o[1][1][1]))
                    elif len(sops) == 2 and sops[0][0] == 'lit' and sops[1][0] == 'each' and st.kind(src) != 'dict':
                        st.push(recv, ('each', sops[1][1], sops[1][2], _PairDelta(sops[1][3])))
                    else:
                        st.push(recv, ('upd', st.at(src) if src[0] != 'view' else src[2]))
            if star is not None:
                st.push(recv, ('upd', st.at(star)))
            for k, v in kw.items():
                st.push(recv, ('set', C(k), v))
            if recv[0] == 'attr' and recv[2] == '__dict__':
                for k in [k for k in st.attrs if k[0] == recv[1]]:
                    v = C(k[1]) in [C(n) for n in kw] and kw[k[1]] or st.attrs[k]
                    for src in ([star] if star is not None else []) + list(pos):
                        v = self.overridden(st, src, C(k[1]), v)
                    st.attrs[k] = v if v is not None else ('attrv', k[0], k[1], 'upd')
            self.mut(st, recv, 'update', tuple(pos) + (() if star is None else (star,)) + tuple(x for kv in sorted(kw.items()) for x in (C(kv[0]), kv[1])), node)
            return [(st, NONE)]
        elif name in ('remove', 'discard') and len(pos) == 1:
            if name == 'remove':
                out = []
                for s, v in self.member(st, pos[0], recv):
                    if v:
                        s = s.copy()
                        s.push(recv, ('rem', pos[0]))
                        self.mut(s, recv, 'remove', tuple(pos), node)
                        out.append((s, NONE))
                    else:
                        out.append((s, Exc('ValueError' if self.field_kind(s, recv) in ('list', 'deque') else 'KeyError', line=node.lineno)))
                return out
            st.push(recv, ('rem', pos[0]))
            name = 'remove'
        elif name == 'popleft' or (name == 'pop' and pos and pos[0] == C(0)):
            res = ('popped', at, 'left')
            st.push(recv, ('popl', res))
            name = 'popleft'
        elif name == 'pop' and (not pos or pos[0] == C(-1)):
            res = ('popped', at, 'right')
            st.push(recv, ('pop', res))
        elif name == 'pop':
            res = ('popped', at, pos[0])
            st.push(recv, ('inv',))
        elif name == 'insert' and len(pos) == 2:
            st.push(recv, ('ins', pos[0], pos[1]))
        elif name == 'clear':
            st.push(recv, ('clr',))
        elif name == 'sort':
            st.push(recv, ('sort', self.keyterm(st, kw['key']) if 'key' in kw else NONE, kw.get('reverse', FALSE)))
        elif name == 'reverse':
            st.push(recv, ('reverse',))
        else:
            st.push(recv, ('inv',))
            res = ('call', '.' + name, recv, tuple(pos), (), n)
        self.mut(st, recv, name, tuple(pos), node)
        return [(st, res)]

    def push_all(self, st, recv, src, op):
        if src[0] == 'tup':
            for x in src[1]:
                st.push(recv, (op, x))
            return
        ops = st.ops(src)
        if ops and ops[0][0] == 'lit' and all(o[0] in ('lit', 'app', 'add') for o in ops):
            for o in ops[1:]:
                st.push(recv, (op, o[1]))
            return
        if ops and len(ops) == 2 and ops[0] == ('lit',) and ops[1][0] == 'each':
            st.push(recv, ops[1])
            return
        if src[0] == 'view' and src[1] == 'keys':
            src = src[2]
        st.push(recv, ('ext', st.at(src) if src[0] != 'view' else src))


PURE_QUALS = {'Footprint.mandatory', 'Footprint.allkeys', 'Footprint.as_opts', 'FootprintBase.fullname', 'Footprint.get_values', 'Footprint.optional', 'Footprint.in_values'}


class _Delta:
    """Operations one iteration (edge) applies to a container; hashable so that states stay comparable."""

    def __init__(self, rec, base):
        self.rec, self.base = rec, base

    def __call__(self, edge):
        ops = edge.st.ops(self.base)
        for i, o in enumerate(ops):
            if o[0] == 'phi' and o[1] == self.rec.lid:
                return ops[i + 1:]
        return ()

    def __repr__(self):
        return 'delta'


class _PairDelta:
    def __init__(self, d):
        self.d = d
        self.base = d.base

    def __call__(self, edge):
        out = []
        for o in self.d(edge):
            if o[0] in ('app', 'add') and o[1][0] == 'tup' and len(o[1][1]) == 2:
                out.append(('set', o[1][1][0], o[1][1][1]))
            else:
                out.append(('inv',))
        return tuple(out)


def _frsig(s):
    out = []
    for k in sorted(s.frames):
        fr = s.frames[k]
        out.append((k, tuple(sorted(((n, v) for n, v in fr.items() if n not in ('$parent', '$func')), key=lambda x: x[0]))))
    return tuple(out)


def _join(a, b):
    """Join of two states that only differ by one complementary decision (exact), else None."""
    fa, fb = a.facts, b.facts
    ca, cb = a.conds(), b.conds()
    i = 0
    while i < len(ca) and i < len(cb) and ca[i] == cb[i]:
        i += 1
    ra, rb = ca[i:], cb[i:]
    if not ra or not rb:
        # one is implied by the other's prefix: keep the weaker
        return a if not ra else b
    if len(ra) == 1 and len(rb) == 1 and ra[0][0] == rb[0][0] and ra[0][1] != rb[0][1]:
        s = a.copy()
        keep = {}
        for k, v in fa.items():
            if fb.get(k) == v:
                keep[k] = v
        s.facts = keep
        p = a.path
        s.path = p[0]
        return s
    return None


def KNOWN_FIELDS(repo, cls):
    return ()


def assigned_names(body):
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def _nonlocals(fn):
    if not hasattr(fn, '_nl'):
        s = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Nonlocal):
                s.update(x.names)
        try:
            fn._nl = s
        except Exception:
            return s
    return fn._nl


def own_nodes(fn):
    """The nodes of a function, those of the functions defined inside left out."""
    work = list(fn.body)
    while work:
        n = work.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            work.extend(ast.iter_child_nodes(n))


def yields_bool(x):
    if isinstance(x, ast.Compare) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
        return True
    if isinstance(x, ast.Constant):
        return isinstance(x.value, bool)
    if isinstance(x, ast.BoolOp):
        return all(yields_bool(v) for v in x.values)
    if isinstance(x, ast.IfExp):
        return yields_bool(x.body) and yields_bool(x.orelse)
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('bool', 'any', 'all', 'isinstance', 'issubclass', 'hasattr', 'callable')


def falls(body):
    """May the statements be left at their end?"""
    if not body:
        return True
    n = body[-1]
    if isinstance(n, (ast.Return, ast.Raise)):
        return False
    if isinstance(n, ast.If):
        return falls(n.body) or falls(n.orelse)
    if isinstance(n, ast.Try):
        return (falls(n.orelse) if n.orelse else falls(n.body)) or any(falls(h.body) for h in n.handlers)
    if isinstance(n, ast.With):
        return falls(n.body)
    return True


def acts(x):
    """Does the expression change something?"""
    return any(isinstance(n, ast.NamedExpr) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ACTING for n in ast.walk(x))


ACTING = {'pop', 'popleft', 'popitem', 'setdefault', 'add', 'append', 'appendleft', 'insert', 'remove', 'discard', 'update', 'extend', 'clear', '__setitem__', '__delitem__'}


def read_before_write(name, loop):
    """May an iteration read the variable before writing it?  (structured walk, conservative)"""
    class Found(Exception):
        pass

    def expr(e, w):
        # evaluation order inside expressions: reads first
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and not w:
                raise Found

    def blk(body, w):
        for s in body:
            w = st(s, w)
            if w is None:
                return None
        return w

    def st(s, w):
        if w:
            return w
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                expr(s.value, w)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in targets:
                if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name) and t.id == name:
                    raise Found
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id == name:
                        if isinstance(x.ctx, ast.Store):
                            w = True
                        else:
                            raise Found
            return w
        if isinstance(s, ast.If):
            expr(s.test, w)
            a, b = blk(s.body, w), blk(s.orelse, w)
            if a is None:
                return b
            if b is None:
                return a
            return a and b
        if isinstance(s, (ast.For, ast.While)):
            expr(s.iter if isinstance(s, ast.For) else s.test, w)
            blk(s.body, w or (isinstance(s, ast.For) and name in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0)])))
            blk(s.orelse, w)
            return w
        if isinstance(s, ast.Try):
            a = blk(s.body, w)
            for h in s.handlers:
                blk(h.body, w)
            blk(s.orelse, a if a is not None else w)
            blk(s.finalbody, w)
            return w
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    raise Found
            return w or s.name == name
        if isinstance(s, ast.With):
            for it in s.items:
                expr(it.context_expr, w)
            return blk(s.body, w)
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            for x in ast.iter_child_nodes(s):
                expr(x, w)
            return None
        expr(s, w)
        if name in assigned_names([s]):
            w = True
        return w

    try:
        if isinstance(loop, ast.While):
            expr(loop.test, False)
        blk(loop.body, False)
    except Found:
        return True
    return False


def exc_names(t):
    if t is None:
        return None
    if isinstance(t, ast.Tuple):
        out = []
        for e in t.elts:
            out.extend(exc_names(e) or [])
        return out
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Attribute):
        return ['re.error' if (isinstance(t.value, ast.Name) and t.value.id == 're') else t.attr]
    return ['?']


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    fixlines(t2, t.lineno, force=True)
    return t2


def fixlines(n, line, force=False):
    for x in ast.walk(n):
        if force or not hasattr(x, 'lineno'):
            x.lineno = line
            x.col_offset = 0
            x.end_lineno = line
            x.end_col_offset = 0


def isstr(t):
    return (is_c(t) and isinstance(cval(t), str)) or t[0] == 'strcat' or (t[0] == 'call' and (t[1] == 'str' or t[1] in ('.upper', '.lower') and not t[3]))


def strcat(parts):
    out = []
    for p in parts:
        if p[0] == 'strcat':
            out.extend(p[1])
        elif p[0] == 'call' and p[1] == 'str' and len(p[3]) == 1:
            out.append(p[3][0])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_c(p):
            p = C(str(cval(p)))
            if res and is_c(res[-1]):
                res[-1] = C(cval(res[-1]) + cval(p))
                continue
        res.append(p)
    res = [p for p in res if not (is_c(p) and cval(p) == '')]
    if not res:
        return C('')
    if len(res) == 1 and is_c(res[0]):
        return res[0]
    if len(res) == 1:
        return ('call', 'str', None, (res[0],), (), 0)
    return ('strcat', tuple(res))


def strformat(recv, pos, kw):
    s = cval(recv)
    parts, i, auto = [], 0, 0
    import string
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(C(lit))
            if field is not None:
                if spec not in ('', 's') or conv not in (None, 's'):
                    raise ValueError
                if field == '':
                    parts.append(pos[auto])
                    auto += 1
                elif field.isdigit():
                    parts.append(pos[int(field)])
                elif field.isidentifier():
                    parts.append(kw[field])
                elif '.' in field and field.split('.')[0].isdigit():
                    b = pos[int(field.split('.')[0])]
                    for x in field.split('.')[1:]:
                        b = attr(b, x)
                    parts.append(b)
                else:
                    raise ValueError
    except Exception:
        return ('call', '.format', recv, tuple(pos), tuple(sorted(kw.items())), 0)
    return strcat(parts)


def strmod(a, b):
    s = cval(a)
    args = list(b[1]) if b[0] == 'tup' else [b]
    parts = []
    for i, chunk in enumerate(re.split(r'(%[sd])', s)):
        if chunk in ('%s', '%d'):
            if not args:
                return ('bin', '%', a, b)
            parts.append(args.pop(0))
        elif '%' in chunk:
            return ('bin', '%', a, b)
        elif chunk:
            parts.append(C(chunk))
    return strcat(parts)


def norm_add(a, k):
    if a[0] == 'bin' and a[1] == '+' and is_c(a[3]) and isinstance(cval(a[3]), (int, float)):
        k += cval(a[3])
        a = a[2]
    return ('bin', '+', a, C(k)) if k else a
