"""Conformance of the decision tables the interpreter extracts with the tables a property requires.

A row is (state, got): the facts of one path and what the code produces on it.  A requirement is a function of an
oracle q (q(atom) -> bool) giving what must be produced.  Every completion of the row's facts by the predicates the
requirement depends on is examined; the row conforms when all of them agree.
"""
import os
import traceback

from .repo import Repo, AnalysisBroken, REPO
from .interp import Interp, Budget, Exc
from .state import State, mk_eq, mk_exists, mk_is, bvdepth, exc_isa, simplify_dnf
from .terms import (C, NONE, TRUE, FALSE, is_c, cval, sym, attr, item, tup, walk, mentions, tainted, show, showfact)

UNKNOWN = C('__unknown__')


# ---------------------------------------------------------------- atoms
def isin(x, c):
    return ('in', x, c)


def isnone(x):
    return ('is', x, NONE)


def truth(x):
    return ('truth', x)


def lt(a, b):
    return ('lt', a, b)


def isinst(x, t):
    return ('isinstance', x, t)


def issub(x, t):
    return ('issubclass', x, t)


def has(x, name):
    return ('hasattr', x, C(name) if isinstance(name, str) else name)


def raises(call):
    return ('raises', call)


def exists(coll, f):
    """f(bound) -> list of conjunctions [[(atom, value), ...], ...]"""
    probe = f(('bv', 0))
    d = bvdepth(frozenset(frozenset(c) for c in probe))
    dnf = simplify_dnf(f(('bv', d)))
    return mk_exists(coll, dnf)


def call(label, recv=None, *args, **kw):
    return ('call', label, recv, tuple(args), tuple(sorted(kw.items())), 0)


# ---------------------------------------------------------------- outcomes
class Want:
    """Expected outcome given by a predicate on (state, got)."""

    def __init__(self, text, pred):
        self.text, self.pred = text, pred


ANY = Want('anything', lambda s, g: True)


def raising(*names):
    def pred(s, g):
        if not (isinstance(g, tuple) and g and g[0] == 'exc'):
            return False
        e = g[1]
        return e.name is not None and any(exc_isa(e.name, n) for n in names)
    return Want('raises ' + '/'.join(names), pred)


class Ask(Exception):
    def __init__(self, atom):
        self.atom = atom


class Q:
    def __init__(self, st):
        self.st = st

    def __call__(self, atom):
        if atom[0] == 'eq':
            atom = mk_eq(atom[1], atom[2])
        elif atom[0] == 'is':
            atom = mk_is(atom[1], atom[2])
        d = self.st.decide(atom)
        if d is None:
            a2 = self.st.norm(atom)
            if a2 != atom:
                d = self.st.decide(a2)
                if d is None:
                    # the code may have asked with the other spelling of an optional entry
                    for a in self.st.facts:
                        if a[0] == atom[0] and mentions(a, lambda x: x[0] == 'getd') and self.st.norm(a) == a2:
                            return self.st.facts[a]
                    raise Ask(a2)
        if d is None:
            raise Ask(atom)
        return d


def completions(st, fn, limit=400):
    """All (state, fn(q)) over the consistent completions of the predicates fn asks for."""
    out, work = [], [st]
    while work:
        s = work.pop()
        try:
            out.append((s, fn(Q(s))))
        except Ask as a:
            for v in (False, True):
                s2 = s.assume(a.atom, v, primary=False)
                if s2 is not None:
                    work.append(s2)
        if len(out) + len(work) > limit:
            raise Budget('completions')
    return out


def same(st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] != 'exc' and b[0] != 'exc' and isinstance(a[0], str) and isinstance(b[0], str):
        a, b = st.norm(a), st.norm(b)
        if a == b:
            return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b:
        return False
    if a[0] == 'tup' and b[0] == 'tup':
        return len(a[1]) == len(b[1]) and all(same(st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] in ('exc',) or b[0] in ('exc',):
        return False
    if st.facts.get(mk_is(a, b)) or st.facts.get(mk_eq(a, b)):
        return True
    # boolean results: True / a decided truth
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return a == b
    if len(a) == len(b) and a[0] == b[0] and a[0] not in ('c', 'sym', 'ref', 'elem', 'phi'):
        return all((x == y) or (isinstance(x, tuple) and isinstance(y, tuple) and (same(st, x, y) if (x and y and isinstance(x[0], str)) else
                                                                                   len(x) == len(y) and all(same(st, p, q) for p, q in zip(x, y))))
                   for x, y in zip(a[1:], b[1:]))
    return False


def canon(st, t):
    return t


def hide(t, clear):
    """Replaces the terms of clear (symbolic values a rule knows how to name) by plain symbols."""
    from .state import subst_deep
    return subst_deep(t, lambda x: ('sym', '$clear') if x in clear else None) if clear else t


def row_tainted(st, got, since=None, clear=()):
    for a, v in st.conds(since):
        if tainted_f(hide(a, clear)):
            return True
    if isinstance(got, tuple) and got and isinstance(got[0], str) and got[0] != 'exc':
        got = hide(got, clear)
    return tainted_got(got)


def tainted_got(got):
    if isinstance(got, tuple):
        if got and got[0] == 'exc' and len(got) == 2 and isinstance(got[1], Exc):
            return got[1].name is None and (got[1].call is None)
        return any(tainted_got(x) for x in got) if got and not isinstance(got[0], str) else tainted_f(got)
    return False


def tainted_f(t):
    return tainted(t)


def showgot(g):
    if isinstance(g, tuple) and g and g[0] == 'exc':
        return 'raises %s' % (g[1],)
    if isinstance(g, tuple):
        if g and isinstance(g[0], str):
            return show(g)
        return '<' + ', '.join(showgot(x) for x in g) + '>'
    return str(g)


# ---------------------------------------------------------------- check context
class Finding:
    def __init__(self, rule, construct, msg, where):
        self.rule, self.construct, self.msg, self.where = rule, construct, msg, where

    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.repo = Repo()
        self.findings, self.undecided, self.obls = [], [], []
        self.functions, self.rules = set(), {}
        self.samples = []
        self.interps = []
        self.short = []         # [(long text, abbreviation)] for messages

    # -- bookkeeping
    def rule(self, rid, text):
        self.rules.setdefault(rid, {'text': text, 'obligations': 0, 'constructs': set()})
        return rid

    def ok(self, rid, construct, n=1):
        r = self.rules[rid]
        r['obligations'] += n
        r['constructs'].add(construct)

    def abbrev(self, text):
        for a, b in self.short:
            text = text.replace(a, b)
        return text

    def fail(self, rid, construct, msg, where):
        msg = self.abbrev(msg)[:1500]
        r = self.rules[rid]
        r['obligations'] += 1
        r['constructs'].add(construct)
        f = Finding(rid, construct, msg, where)
        if all(x.key() != f.key() or x.msg != f.msg for x in self.findings):
            self.findings.append(f)

    def undec(self, rid, construct, why):
        u = (rid, construct, self.abbrev(why)[:600])
        if u not in self.undecided:
            self.undecided.append(u)

    def need(self, rid, construct, cond, msg, where, taint=False):
        """Single obligation."""
        if cond:
            self.ok(rid, construct)
        elif taint:
            self.undec(rid, construct, msg)
        else:
            self.fail(rid, construct, msg, where)

    # -- running the interpreter
    def interp(self, **kw):
        if self.tier == 'thorough':
            kw.setdefault('max_steps', 4000000)
            kw.setdefault('max_states', 20000)
            kw.setdefault('time_limit', 400.0)
        I = Interp(self.repo, **kw)
        self.interps.append(I)
        return I

    def guard(self, rid, construct, fn):
        """Runs one rule instance; anything the engine does not understand leaves it undecided."""
        try:
            return fn()
        except AnalysisBroken as e:
            if not construct.split('.')[-1].split(':')[-1].startswith('_') or construct.endswith('__'):
                raise
            self.undec(rid, construct, 'a private helper has vanished: %s' % e)
        except Budget as e:
            self.undec(rid, construct, 'budget: %s' % e)
        except RecursionError:
            self.undec(rid, construct, 'recursion')
        except Exception as e:
            if os.environ.get('FPSA_TB'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undec(rid, construct, 'engine: %s: %s (%s:%s)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
        return None

    def conform(self, rid, construct, rows, want, where, since=None, sample=True, clear=(), undec_ok=False):
        """rows: [(state, got)].  want(q, state) -> term | Want | (label, term|Want)."""
        n = 0
        for st, got in rows:
            try:
                comps = completions(st, lambda q: (want(q)))
            except Budget:
                self.undec(rid, construct, 'completions')
                continue
            for s, w in comps:
                n += 1
                if isinstance(w, Want):
                    good = w.pred(s, got)
                    text = w.text
                else:
                    good = same(s, got, w)
                    text = showgot(w)
                if good:
                    self.ok(rid, construct)
                    if sample and len(self.samples) < 12:
                        self.samples.append('%s %s: [%s] -> %s' % (rid, construct, self.abbrev('; '.join(showfact(a, v) for a, v in st.conds(since)))[:400], self.abbrev(showgot(got))[:160]))
                elif good is None or row_tainted(st, got, since, clear(st) if callable(clear) else clear):
                    self.undec(rid, construct, 'got %s, required %s' % (showgot(got), text))
                else:
                    conds = '; '.join(showfact(a, v) for a, v in st.conds(since))
                    extra = [f for f in s.facts if f not in st.facts]
                    ex = '; '.join(showfact(a, s.facts[a]) for a in extra[:6])
                    self.fail(rid, construct, 'when %s%s: the code gives %s, required: %s' % (
                        conds[:5000] or 'always', (' (case ' + ex[:1500] + ')') if ex else '', showgot(got)[:300], text), where)
        return n

    def finish(self):
        for I in self.interps:
            self.functions |= I.functions_seen
