"""Abstract states: variables, container contents (as operation chains), attribute stores, path facts, events."""
from .terms import C, NONE, TRUE, FALSE, B, is_c, cval, walk, subst, mentions

import collections


class Ev(collections.namedtuple('Ev', 'kind label recv args kw res line file')):
    """One event of a path.  kind: call | mut | setattr | delattr | raise | loop."""
    __slots__ = ()


EXC_TREE = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
    'ZeroDivisionError': 'ArithmeticError', 'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception', 'StopIteration': 'Exception',
    'RuntimeError': 'Exception', 'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'OSError': 'Exception',
    'MemoryError': 'Exception', 'ReferenceError': 'Exception', 'NameError': 'Exception', 'UnicodeError': 'ValueError',
    're.error': 'Exception',
}


def exc_isa(name, target, seen=0):
    while name is not None:
        if name == target:
            return True
        name = EXC_TREE.get(name)
    return False


class State:
    __slots__ = ('frames', 'fid', 'heap', 'attrs', 'facts', 'path', 'ev', 'tryd', 'loopcol', 'kinds')

    def __init__(self):
        self.frames, self.fid, self.heap, self.attrs, self.facts = {}, None, {}, {}, {}
        self.path = None       # linked list (prev, atom, value) of the branch decisions taken
        self.ev = None         # linked list (prev, Ev)
        self.tryd = 0
        self.loopcol = {}
        self.kinds = {}

    def copy(self):
        s = State.__new__(State)
        s.frames, s.fid, s.heap, s.attrs = dict(self.frames), self.fid, dict(self.heap), dict(self.attrs)
        s.facts, s.path, s.ev, s.tryd = dict(self.facts), self.path, self.ev, self.tryd
        s.loopcol, s.kinds = dict(self.loopcol), self.kinds
        return s

    # variables
    def env(self):
        return self.frames[self.fid]

    def setvar(self, name, v, fid=None):
        fid = self.fid if fid is None else fid
        e = dict(self.frames[fid])
        e[name] = v
        self.frames[fid] = e

    # events
    def emit(self, ev):
        self.ev = (self.ev, ev)

    def events(self, since=None):
        out, p = [], self.ev
        while p is not None and p is not since:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    def conds(self, since=None):
        out, p = [], self.path
        while p is not None and p is not since:
            out.append((p[1], p[2]))
            p = p[0]
        out.reverse()
        return out

    # containers
    def ops(self, base):
        c = self.heap.get(base)
        return c[1] if c else ()

    def kind(self, base):
        c = self.heap.get(base)
        return c[0] if c else None

    def push(self, base, op):
        c = self.heap.get(base)
        self.heap[base] = (c[0], c[1] + (op,)) if c else ('ext', (op,))

    def at(self, base, n=None):
        """Canonical name of the current (or n-th) content of a container."""
        if base[0] == 'at':
            if n is None:
                base, n = base[1], base[2]
            else:
                base = base[1]
        ops = self.ops(base)
        if n is None:
            n = len(ops)
        ops = ops[:n]
        if len(ops) == 1 and ops[0][0] == 'copy':
            return self.at(ops[0][1], ops[0][2])
        if base[0] != 'ref' and n == 0:
            return base
        return ('at', base, n)

    # ---------------------------------------------------------------- facts
    def decide(self, a):
        """True/False when the path facts settle atom a, else None."""
        v = self.facts.get(a)
        if v is not None:
            return v
        h = a[0]
        if h == 'is' or h == 'eq':
            x, y = a[1], a[2]
            if x == y:
                return True
            if is_c(x) and is_c(y):
                if h == 'eq':
                    return bool(cval(x) == cval(y))
                return x == y
            if h == 'eq':
                if self.facts.get(('is', x, y)):
                    return True
                # x equals another constant
                if is_c(y):
                    for c in self.kinds_consts(x):
                        return bool(c == cval(y))
            if y == NONE:
                if x[0] in ('ref', 'tup', 'cls', 'func', 'bm', 'clo', 'builtin', 'ext', 'mod', 'strcat', 'at', 'new'):
                    return False
                if x[0] == 'call' and (x[1] in NOTNONE or isinstance(x[1], str) and x[1].startswith('new ')):
                    return False
                if self.facts.get(('truth', x)):
                    return False
            if h == 'is':
                if self.facts.get(('eq', x, y)) is False:
                    return False
                if x[0] == 'ref' and y[0] == 'ref':
                    return False
                if x[0] == 'ref' and is_c(y):
                    return False
            if h == 'eq' and is_c(y) and x[0] == 'call' and x[1] in ('.upper', '.lower') and not x[3]:
                if not isinstance(cval(y), str) or getattr(cval(y), x[1][1:])() != cval(y):
                    return False
            for u, w in ((x, y), (y, x)):
                if u[0] == 'call' and u[1] == 'object' and u[2] is None and not u[3] and u != w and w[0] != 'phi':
                    return False        # a fresh object
            if h == 'eq' and x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
                r = True
                for p, q in zip(x[1], y[1]):
                    d = self.decide(mk_eq(p, q)) if p != q else True
                    if d is False:
                        return False
                    if d is None:
                        r = None
                return r
        elif h == 'truth':
            x = a[1]
            if is_c(x):
                return bool(cval(x))
            if x[0] == 'tup':
                return bool(x[1])
            if x[0] in ('cls', 'func', 'bm', 'clo', 'builtin', 'ext', 'mod'):
                return True
            if self.facts.get(('is', x, NONE)):
                return False
            if x[0] == 'call' and x[1] in ('.startswith', '.endswith') and x[2] and is_c(x[2]) and isinstance(cval(x[2]), str) and len(x[3]) == 1 and is_c(x[3][0]):
                return getattr(cval(x[2]), x[1][1:])(cval(x[3][0]))
            if x[0] == 'strcat' and any(is_c(p) and cval(p) for p in x[1]):
                return True
        elif h == 'lt':
            x, y = a[1], a[2]
            if is_c(x) and is_c(y):
                try:
                    return bool(cval(x) < cval(y))
                except TypeError:
                    return None
            if x == y:
                return False
            if is_c(y) and isinstance(cval(y), int) and cval(y) <= 0 and natural(x):
                return False
            if self.facts.get(('lt', y, x)):
                return False
            if self.facts.get(('eq',) + tuple(sorted_pair(x, y))):
                return False
            # lt(n, len): monotone in n
            if is_c(x) and isinstance(cval(x), int):
                for b, bv in self.facts.items():
                    if b[0] == 'lt' and b[2] == y and is_c(b[1]) and isinstance(cval(b[1]), int):
                        if bv and cval(b[1]) >= cval(x):
                            return True
                        if not bv and cval(b[1]) <= cval(x):
                            return False
                if y[0] == 'call' and y[1] == 'len':
                    if cval(x) < 0:
                        return True
                    if self.decide(('truth', y[3][0])) is False:
                        return False
        elif h == 'in':
            x, c = a[1], a[2]
            if self.facts.get(('truth', c)) is False:
                return False
        elif h == 'isinstance':
            x, t = a[1], a[2]
            if t[0] == 'builtin':
                if is_c(x):
                    ty = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict,
                          'tuple': tuple, 'set': set, 'type': type}.get(t[1])
                    if ty:
                        return isinstance(cval(x), ty)
                k = None
                if x[0] == 'ref':
                    k = x[2]
                elif x[0] == 'tup':
                    k = 'tuple'
                elif x[0] == 'strcat':
                    k = 'str'
                if k in ('list', 'dict', 'set', 'tuple', 'str', 'deque'):
                    return k == t[1] or t[1] == 'object'
                # no class extends two of these
                if t[1] in LAYOUTS and any(u != t[1] and self.facts.get(('isinstance', x, ('builtin', u))) for u in LAYOUTS):
                    return False
            if self.facts.get(('is', x, NONE)):
                return False
        elif h == 'exists':
            return self.decide_exists(a)
        elif h == 'raises':
            return None
        return None

    def kinds_consts(self, x):
        for b, v in self.facts.items():
            if v and b[0] in ('eq', 'is') and b[1] == x and is_c(b[2]):
                yield cval(b[2])

    def assume(self, a, v, primary=True):
        """Copy of the state where atom a has truth v (None when contradictory)."""
        d = self.decide(a)
        if d is not None:
            return self if d == v else None
        s = self.copy()
        if primary:
            s.path = (s.path, a, v)
        return s if s._put(a, v) else None

    def _put(self, a, v):
        d = self.decide(a)
        if d is not None:
            if d != v:
                return False
            if a in self.facts:
                return True
        self.facts[a] = v
        h = a[0]
        ok = True
        if h in ('is', 'eq') and v and is_c(a[2]):
            for b in list(self.facts):
                if b[0] in ('is', 'eq') and b[1] == a[1] and is_c(b[2]) and b != a and self.facts[b] and cval(b[2]) != cval(a[2]):
                    return False
            if a[2] != NONE:
                ok = ok and self._put(('is', a[1], NONE), False)
            try:
                ok = ok and self._put(('truth', a[1]), bool(cval(a[2])))
            except Exception:
                pass
        if h == 'is' and v and not is_c(a[2]):
            pass
        if h == 'eq' and v:
            # an element of a collection that equals x: x is in the collection
            for e, x in ((a[1], a[2]), (a[2], a[1])):
                if e[0] == 'elem' and e[1] in self.loopcol and self.decide(('in', x, self.loopcol[e[1]])) is False:
                    return False
        if h == 'in' and not v:
            for b, w in self.facts.items():
                if w and b[0] == 'eq' and any(e[0] == 'elem' and self.loopcol.get(e[1]) == a[2] and x == a[1]
                                              for e, x in ((b[1], b[2]), (b[2], b[1]))):
                    return False
        if h == 'truth' and v:
            ok = ok and self._put(('is', a[1], NONE), False)
            for b in list(self.facts):
                if b[0] in ('eq', 'is') and b[1] == a[1] and self.facts[b] and is_c(b[2]) and not cval(b[2]):
                    return False
        if h == 'truth' and not v:
            for b, w in list(self.facts.items()):
                if w and ((b[0] == 'in' and b[2] == a[1]) or (b[0] == 'exists' and b[1] == a[1])):
                    return False
        if h == 'in' and v:
            ok = ok and self._put(('truth', a[2]), True)
        if h == 'exists' and v:
            ok = ok and self._put(('truth', a[1]), True)
        if h in ('isinstance', 'hasattr') and v and h == 'isinstance':
            ok = ok and self._put(('is', a[1], NONE), False)
        if h == 'lt' and v and is_c(a[1]) and a[2][0] == 'call' and a[2][1] == 'len' and a[2][3] and isinstance(cval(a[1]), (int, float)) and cval(a[1]) >= 0:
            ok = ok and self._put(('truth', a[2][3][0]), True)
        return ok

    def norm(self, t):
        """Rewrites d.get(k, x) into d[k] or x when the path knows whether k is in d."""
        def f(x):
            if x[0] == 'getd':
                b, k, dv = self.norm(x[1]), self.norm(x[2]), self.norm(x[3])
                d = self.facts.get(('in', k, b))
                if d is True:
                    return ('item', b, k)
                if d is False:
                    return dv
                return ('getd', b, k, dv)
            return None
        return subst(t, f) if mentions(t, lambda x: x and x[0] == 'getd') else t

    # -- quantified facts ------------------------------------------------------
    def decide_exists(self, a):
        _, coll, dnf = a
        t = self.decide(('truth', coll))
        if t is False:
            return False
        if not dnf:
            return False
        if frozenset() in dnf:
            return t
        none = frozenset()      # what no element satisfies
        for b, v in self.facts.items():
            if b[0] == 'exists' and b[1] == coll and not v:
                none |= b[2]
        if none and self.implies(dnf, none):
            return False
        for b, v in self.facts.items():
            if b[0] == 'exists' and b[1] == coll and v and self.implies(b[2], dnf | none):
                return True
        depth = bvdepth(dnf)
        for lid, col in self.loopcol.items():
            if col == coll and any(mentions(f, lambda x: x == ('elem', lid)) for f in self.facts):
                inst = inst_dnf(dnf, depth, ('elem', lid))
                if any(all(self.decide(f) == v for f, v in conj) for conj in inst):
                    return True
        if coll[0] == 'tup' and len(coll[1]) <= 6:
            vals = []
            for e in coll[1]:
                inst = inst_dnf(dnf, depth, e)
                r = None
                if any(all(self.decide(f) == v for f, v in conj) for conj in inst):
                    r = True
                elif all(any(self.decide(f) == (not v) for f, v in conj) for conj in inst):
                    r = False
                vals.append(r)
            if True in vals:
                return True
            if all(x is False for x in vals):
                return False
        return None

    def implies(self, d1, d2):
        if d1 == d2:
            return True
        for conj in d1:
            s = self
            for f, v in conj:
                if f[0] == 'exists':
                    if f not in s.facts:
                        s = s.copy()
                        s.facts[f] = v
                    continue
                s = s.assume(f, v, primary=False) if s is not None else None
                if s is None:
                    break
            if s is not None and not s.holds(d2):
                return False
        return True

    def holds(self, dnf, depth=0):
        open_ = None
        for conj in dnf:
            r = True
            for f, v in conj:
                d = self.decide(f) if f[0] != 'exists' else self.facts.get(f)
                if d is None:
                    r = None
                    und = f
                elif d != v:
                    r = False
                    break
            if r:
                return True
            if r is None and open_ is None:
                open_ = und
        if open_ is None or depth > 10:
            return False
        for v in (True, False):
            s = self.copy()
            if open_[0] == 'exists':
                s.facts[open_] = v
            elif not s._put(open_, v):
                continue
            if not s.holds(dnf, depth + 1):
                return False
        return True


LAYOUTS = ('str', 'list', 'tuple', 'set', 'dict', 'frozenset', 'bytes', 'int', 'float')
NOTNONE = {'range', 'enumerate', 'zip', 're.split', 're.findall', 'glob.glob', '.split', '.strip', '.replace', '.join', 'copy.deepcopy()', 'len', 'str', 'repr', 'type', 'id', 'bool', 'int', 'weakref.proxy', 'isinstance', 'Footprint.mandatory',
           'footprint_cleanup', 'sorted', 'getattr()', 'set', 'new', '.format', '.upper', '.lower', '.items', '.keys', '.values'}


def natural(x):
    """A number that cannot be negative?"""
    if is_c(x):
        return isinstance(cval(x), int) and cval(x) >= 0
    if x[0] == 'bin' and x[1] in ('+', '*'):
        return natural(x[2]) and natural(x[3])
    return x[0] == 'call' and (x[1] == 'len' or x[1] == '.index' and x[2] is not None)


def sorted_pair(x, y):
    """Canonical operand order of symmetric atoms: constants last."""
    if is_c(x) and not is_c(y):
        return y, x
    if is_c(x) == is_c(y) and repr(y) < repr(x):
        return y, x
    return x, y


def mk_eq(x, y):
    x, y = sorted_pair(x, y)
    if y == NONE:
        return ('is', x, NONE)
    return ('eq', x, y)


def mk_is(x, y):
    x, y = sorted_pair(x, y)
    return ('is', x, y)


def bvdepth(dnf):
    """Index of the bound variable of this dnf (1 + the largest index bound inside)."""
    m = -1
    for conj in dnf:
        for f, v in conj:
            for x in walk(f):
                if x[0] == 'exists' and len(x) == 3:
                    m = max(m, bvdepth(x[2]))
    return m + 1


def inst_dnf(dnf, depth, e):
    bv = ('bv', depth)
    f = lambda x: e if x == bv else None
    return frozenset(frozenset((subst_deep(a, f), v) for a, v in conj) for conj in dnf)


def subst_deep(t, f):
    """subst that also enters the frozensets of quantified atoms."""
    if isinstance(t, frozenset):
        return frozenset(subst_deep(x, f) for x in t)
    if not isinstance(t, tuple) or not t:
        return t
    r = f(t)
    if r is not None:
        return r
    if t and t[0] == 'c':
        return t
    n = tuple(subst_deep(x, f) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if n != t and n[0] == 'eq' and len(n) == 3 and isinstance(n[1], tuple) and isinstance(n[2], tuple):
        return mk_eq(n[1], n[2])
    return n


def mk_exists(coll, dnf):
    """Some element of coll satisfies one of the conjunctions; "equal to x" is membership."""
    if len(dnf) == 1:
        c = next(iter(dnf))
        if len(c) == 1:
            a, v = next(iter(c))
            if a[0] == 'eq' and v:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == 'bv' and not mentions(y, lambda t: t == x):
                        base = coll
                        while base[0] == 'view' and base[1] == 'keys':
                            base = base[2]
                        if base[0] in ('sym', 'attr', 'item', 'call') and not (base[0] == 'call' and base[1] in ('range', 'zip', 'enumerate', 'reversed', 'str')):
                            return ('in', y, base)
    return ('exists', coll, dnf)


def simplify_dnf(conjs):
    # what has an element is true
    cs = {frozenset((f, v) for f, v in c if not (v is True and f[0] == 'truth' and any(w is True and g[0] == 'in' and g[2] == f[1] for g, w in c))) for c in conjs}
    changed = True
    while changed:
        changed = False
        for c in list(cs):
            if any(d < c for d in cs):
                cs.discard(c)
                changed = True
                break
            for f, v in c:
                o = (c - {(f, v)}) | {(f, not v)}
                rest = c - {(f, v)}
                if o in cs:
                    cs.discard(c)
                    cs.discard(o)
                    cs.add(rest)
                    changed = True
                    break
                # absorption: rest' subset with opposite literal
                for d in cs:
                    if (f, not v) in d and (d - {(f, not v)}) <= rest and d != c:
                        cs.discard(c)
                        cs.add(rest)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    if 1 < len(cs) <= 80:
        # conditions that make no difference, which pairwise merging may leave
        atoms = {f for c in cs for f, _ in c}
        if len(atoms) <= 14:
            for a in sorted(atoms, key=repr):
                f1, f0 = cofactor(cs, a, True), cofactor(cs, a, False)
                if all(tautology(restrict(f0, c)) for c in f1) and all(tautology(restrict(f1, c)) for c in f0):
                    return simplify_dnf(f1)
    return frozenset(cs)


def cofactor(cs, a, v):
    return {c - {(a, v)} for c in cs if (a, not v) not in c}


def restrict(cs, c):
    for a, v in c:
        cs = cofactor(cs, a, v)
    return cs


def tautology(cs):
    if not cs:
        return False
    if any(not c for c in cs):
        return True
    a = next(iter(min(cs, key=len)))[0]
    return tautology(cofactor(cs, a, True)) and tautology(cofactor(cs, a, False))
