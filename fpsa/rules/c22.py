"""Glob statements are parsed faithfully.

The scanner is a loop over the text: its carried variables are recognised by the part they play (what is left to read, what was read
of the current part, the name of the current part, the depth of the braces, the two results), and every path through an iteration is
compared with the transition required for that situation. The conversion of literal text, the closing tests, the selection of the
files and the replacement of the references in the other entries are compared with their specification in the same way.
"""
import ast

from .expanding import *
from ..terms import walk
from .. import regex

TECHNIQUE = ('abstract interpretation (path-sensitive, loop fixpoints) of the scanner, transition table of its carried variables against the specification; '
             'string-concatenation domain for the built patterns; language and capture equivalence of the regular expressions (automata)')
MINIMA = {'C22.scan': 40, 'C22.literal': 4, 'C22.end': 5, 'C22.files': 4, 'C22.captured': 2, 'C22.replace': 8}

TEXT = sym('todo')
START = r'^{glob:(\w+):'
REFERENCE = r'\[glob:(\w+)\]'
VAL, KEY, GMAP, GIDX = sym('value'), sym('key'), sym('globs'), sym('globalindex')


def scanner_of(ctx):
    """The function that builds named groups."""
    out = []
    for f in ctx.repo.all_funcs():
        if f.qual.startswith('util:') and '.' not in f.qual.split(':')[1] and any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '(?P<' in n.value for n in ast.walk(f.node)):
            doc = ast.get_docstring(f.node) or ''
            if any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '(?P<' in n.value and n.value.strip() != doc.strip() and len(n.value) < 60 for n in ast.walk(f.node)):
                out.append(f)
    return out


def flat(t):
    """A text as the list of the texts that are put one after the other."""
    if t[0] == 'bin' and t[1] == '+':
        return join(flat(t[2]) + flat(t[3]))
    if t[0] == 'strcat':
        return join([y for x in t[1] for y in flat(x)])
    if t[:2] == ('call', '.join') and t[2] == C('') and t[3] and t[3][0][0] == 'tup':
        return join([y for x in t[3][0][1] for y in flat(x)])
    return [] if t == C('') else [t]


def join(parts):
    out = []
    for p in parts:
        if is_c(p) and isinstance(cval(p), str) and out and is_c(out[-1]) and isinstance(cval(out[-1]), str):
            out[-1] = C(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    return out


class Scan:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.name, self.where = f.qual, f.where()
        self.I = I = ctx.interp(max_states=12000)
        a = f.node.args.args
        self.text = sym(a[0].arg)
        _, self.rows = execute(ctx, I, f.qual, {a[0].arg: self.text})
        used = []
        for s, o in outcomes(self.rows):
            for e in s.events():
                if e.kind == 'loop' and e.label not in used:
                    used.append(e.label)
        self.used = used
        self.rec = None
        # the scanning loop: one of its variables starts as the text
        cands = []
        for r in used:
            for n, v in r.init.items():
                if v == self.text and r.coll is None:
                    cands.append((r, n))
        if len(cands) == 1:
            self.rec, todo = cands[0]
            self.roles(todo)

    def phi(self, n):
        return ('phi', self.rec.lid, n)

    def bounded(self):
        """The values of the depth, when it only takes a few known ones."""
        vals = {}
        for e in self.rec.edges:
            for n, v in tuple(e.node or ()) + (tuple(e.to) if isinstance(e.to, tuple) else ()):
                vals.setdefault(n, set()).add(v)
        ints = [{cval(v) for v in vs} for n, vs in vals.items() if C(0) in vs and all(is_c(v) and isinstance(cval(v), int) for v in vs)]
        return ints[0] if len(ints) == 1 and len(ints[0]) < 40 else None

    def roles(self, todo):
        r = self.rec
        self.TODO = self.phi(todo)
        self.HEAD = item(self.TODO, C(0))
        self.REST = ('call', 'slice', None, (self.TODO, C(1), NONE, NONE), (), 0)
        carried = set(r.init) | {n for e in r.edges for n in e.st.env() if e.st.env()[n] is not None and mentions(e.st.env()[n], lambda x: x == self.phi(n))}
        self.BUF = self.NAME = self.COUNT = self.PAT = self.GLOB = self.NAMES = None
        for n in sorted(carried):
            p = self.phi(n)
            vals = {e.st.env().get(n) for e in r.edges if e.kind == 'next'} - {None}
            if any(flat(v) == [p, self.HEAD] for v in vals):
                self.BUF = p
            elif any(v[:2] == ('call', '.group') for v in vals):
                self.NAME = p
            elif any(v[:3] == ('bin', '+', p) and is_c(v[3]) and isinstance(cval(v[3]), int) for v in vals):
                self.COUNT = p
        if self.COUNT is None:
            rest = [n for n in sorted(carried) if r.init.get(n) == C(0) and self.phi(n) not in (self.BUF, self.NAME, self.TODO)]
            if len(rest) == 1:
                self.COUNT = self.phi(rest[0])
        for s, o in outcomes(self.rows):
            if o[0] == 'tup' and len(o[1]) == 3:
                names, rx, gl = o[1]
                self.NAMES = names
                for x in flat(gl)[:1]:
                    if x[0] == 'phi' and x[1] == r.lid:
                        self.GLOB = x
                pt = compiled_text(rx)
                for x in (flat(pt) if pt else ()):
                    if x[0] == 'phi' and x[1] == r.lid and x != self.BUF:
                        self.PAT = x
        self.found = all(x is not None for x in (self.BUF, self.NAME, self.COUNT, self.PAT, self.GLOB, self.NAMES))


def compiled_text(t):
    if t[:2] == ('call', 're.compile') and t[3]:
        return t[3][0]
    return None


def flags_of(t):
    """The flags given to re.compile: 0 when there are none."""
    return t[3][1] if len(t[3]) > 1 else dict(t[4]).get('flags', C(0))


def decided(s, q, atom, *others):
    """The answer to a question that may be asked in several forms (form, polarity)."""
    for a, pol in others:
        d = s.facts.get(a)
        if d is None:
            d = s.decide(a)
        if d is not None:
            return d == pol
    return q(atom)


def start_match(ctx, s, TODO):
    """The test that a named part starts, as it is written on this path; [messages]."""
    bad = []
    for a in s.facts:
        if a[0] != 'truth':
            continue
        t = tested(ctx.repo, a[1])
        if t is None or t[3] != TODO:
            continue
        v = regex.same_texts(t[0], t[2], START, 'match', t[1])
        cap = regex.compare(t[0].lstrip('^'), START.lstrip('^'), t[1]) if v is True else None
        if v is True and cap is not None and cap is not True:
            v = cap
        if v is True:
            return a[1], bad
        bad.append((v is not None, 'a named part starts where %r matches: %s' % (t[0], v)))
        return a[1], bad
    return call('.match', call('re.compile', None, C(START)), TODO), bad


def remainder(S, t, M):
    """Is t the text that follows the start of the named part?"""
    T = S.TODO
    if t[0] == 'call' and t[1] == '.sub' and t[2] is not None and t[3][:2] == (C(''), T):
        p = compiled(S.ctx.repo, t[2])
        cnt = t[3][2] if len(t[3]) > 2 else dict(t[4]).get('count', C(0))
        if p is None:
            return None
        return regex.same_texts(p[0], 'match', START, 'match') is True and (p[0].startswith(('^', r'\A')) or cnt == C(1))
    if t[:2] == ('call', 're.sub') and len(t[3]) >= 3 and t[3][1:3] == (C(''), T):
        p = compiled(S.ctx.repo, t[3][0])
        cnt = t[3][3] if len(t[3]) > 3 else dict(t[4]).get('count', C(0))
        return p is not None and regex.same_texts(p[0], 'match', START, 'match') is True and (p[0].startswith(('^', r'\A')) or cnt == C(1))
    if t[:2] == ('call', '.replace') and t[2] == T and len(t[3]) >= 2 and t[3][1] == C(''):
        cnt = t[3][2] if len(t[3]) > 2 else dict(t[4]).get('count', C(-1))
        return cnt == C(1) if t[3][0] in (group(M, 0), ('call', '.group', M, (), (), 0)) else None
    if t[:2] == ('call', '.removeprefix') and t[2] == T and t[3] in ((group(M, 0),), (('call', '.group', M, (), (), 0),)):
        return True
    end = ('call', '.end', M, (), (), 0), ('call', '.end', M, (C(0),), (), 0)
    if t[:2] == ('call', 'slice') and t[3][0] == T:
        lens = tuple(('call', 'len', None, (g,), (), 0) for g in (group(M, 0), ('call', '.group', M, (), (), 0)))
        return t[3][1] in end + lens and t[3][2] == NONE and t[3][3] == NONE
    return None


def group(M, n):
    return ('call', '.group', M, (C(n),), (), 0)


# -- literal text

STAR, ANY1 = ('.*', '(?:.*)', r'[\s\S]*', '.*?'), ('.', '(?:.)', r'[\s\S]')


def literal(S, s, t, B):
    """How t is made from the literal text B: 'pattern', 'glob', a message, or None (cannot tell)."""
    if t == B:
        return 'same'
    if t[:3] == ('call', '.replace', B) and t[3] == (C('['), C('[[]')):
        return 'glob'
    if t[:2] == ('call', 're.sub') and t[3][:1] == (C(r'\['),) and t[3][1:] == (C('[[]'), B):
        return 'glob'
    if t[:2] in (('call', '.replace'), ('call', 're.escape'), ('call', '.sub'), ('call', 'glob.escape')):
        chain, x = [], t
        if x[:3] == ('call', '.replace', B) and len(x[3]) == 3 and x[3][:2] == (C('['), C('[[]')) and is_c(x[3][2]) and cval(x[3][2]) not in (-1, None):
            return 'at most %s bracket(s) of a literal text are protected' % show(x[3][2])
        while x[:2] == ('call', '.replace') and len(x[3]) == 2 and all(is_c(y) for y in x[3]):
            chain.append((cval(x[3][0]), cval(x[3][1])))
            x = x[2]
        if x == call('re.escape', None, B):
            want = {r'\*': STAR, r'\?': ANY1}
            if all(a in want and b in want[a] for a, b in chain) and len(chain) == 2 and len({a for a, _ in chain}) == 2:
                return 'pattern'
            return 'literal text is made a pattern by %s' % show(t)
        if x == B and chain:
            return 'literal text becomes %s' % show(t)
        return None
    rec = var = None
    if t[0] == 'phi' and len(t) == 3:
        rec = next((r for r in all_loops(S) if r.lid == t[1]), None)
        var = t
        if rec is None or rec.coll is None or strip_view(rec.coll) != B:
            return None
        if rec.init.get(t[2]) not in (C(''), None):
            return None
        per = []
        for e in rec.edges:
            if e.kind != 'next':
                return 'the conversion of a literal text stops, when [%s]' % '; '.join(showfact(a, v) for a, v in e.conds)
            now = e.st.env().get(t[2], var)
            fl = flat(now)
            if fl == [var]:
                per.append((e.st, e.conds, []))
            elif fl[:1] == [var]:
                per.append((e.st, e.conds, fl[1:]))
            elif fl[-1:] == [var]:
                return 'a literal text is put in reverse order'
            else:
                return None
    elif t[:2] == ('call', '.join') and t[2] == C('') and len(t[3]) == 1:
        per = []
        for s2, p in sequences(S.I, s, t[3][0]):
            if p[0] != 'gen' or strip_view(p[1]) != B:
                return None
            for v, cs in p[2]:
                s3 = s2.copy()
                for a, w in cs:
                    s3.facts[a] = w
                per.append((s3, cs, flat(v)))
        return characters(per, E0)
    else:
        return None
    return characters(per, ('elem', rec.lid))


def mapped(x, c):
    """What a character becomes through a constant table: {char: text}, default or None."""
    if x[:2] == ('call', '.get') or x[0] == 'getd':
        return x
    return None


def characters(per, E):
    verdicts = set()
    esc = call('re.escape', None, E)
    for st, conds, parts in per:
        cond = '; '.join(showfact(a, v) for a, v in conds)

        def what(q):
            for c in '*?[':
                if q(mk_eq(E, C(c))):
                    return c
            return 'other'
        for s2, c in completions(st, what):
            x = parts
            pat = {'*': x == [C('.*')] or len(x) == 1 and is_c(x[0]) and cval(x[0]) in STAR, '?': len(x) == 1 and is_c(x[0]) and cval(x[0]) in ANY1,
                   '[': x == [esc] or x == [C(r'\[')], 'other': x == [esc]}[c]
            glo = {'*': x in ([E], [C('*')]), '?': x in ([E], [C('?')]), '[': x in ([C('[[]')],), 'other': x == [E]}[c]
            if not pat and not glo:
                plain = all(is_c(y) or y in (E, esc) for y in x)
                if not plain:
                    return None
            verdicts.add((('pattern' if pat else '') + ('glob' if glo else ''), c, ''.join(show(y) for y in x)))
    if all('pattern' in v[0] for v in verdicts):
        return 'pattern'
    if all('glob' in v[0] for v in verdicts):
        return 'glob'
    bad = [v for v in verdicts if not v[0]] or sorted(verdicts)[:1]
    return 'in a literal text, %s becomes %s' % ({'other': 'a usual character'}.get(bad[0][1], repr(bad[0][1])), bad[0][2] or 'nothing')


def all_loops(S):
    out = []
    todo = [e for s, _ in outcomes(S.rows) for e in s.events()]
    while todo:
        e = todo.pop()
        if e.kind == 'loop' and e.label not in out:
            out.append(e.label)
            todo += [x for ed in e.label.edges for x in ed.events()]
    return out


def flushed(S, s, now, base, kind, rid, what, cond, B=None):
    """now is base followed by the literal text B in the given form."""
    ctx = S.ctx
    B = B or S.BUF
    fl = flat(now) if now is not None else None
    empty = s.decide(truth(B)) is False
    if fl == [base] or fl is not None and not fl and base == C(''):
        ctx.need(rid, S.name, bool(empty), 'the literal text is left out of the %s, when [%s]' % (what, cond), S.where)
        return
    if not fl or fl[0] != base or len(fl) != 2:
        if fl and empty and fl == [base]:
            return
        ctx.need(rid, S.name, False, 'the %s becomes %s, when [%s]' % (what, show(now) if now is not None else now, cond), S.where,
                 taint=now is None or tainted_but(now, base, B) or len(fl) > 2)
        return
    v = literal(S, s, fl[1], B)
    if v is None:
        ctx.undec(rid, S.name, 'the literal text in the %s: %s' % (what, show(fl[1])))
        return
    if empty and v in ('pattern', 'glob', 'same'):
        ctx.ok(rid, S.name)
        return
    if v == 'same':
        v = 'literal text is put in the %s as it is' % what
    ctx.need(rid, S.name, v == kind, v if v not in ('pattern', 'glob') else 'the literal text is put in the %s in the wrong form' % what, S.where)


def tainted_but(t, *known):
    return tainted(subst_deep(t, lambda x: sym('known') if x in known else None))


# -- transitions

def check_scan(S):
    ctx, rid, name = S.ctx, 'C22.scan', S.name
    T, B, N, COUNT, PAT, GLOB = S.TODO, S.BUF, S.NAME, S.COUNT, S.PAT, S.GLOB
    roles = {'todo': T, 'text read': B, 'name': N, 'depth': COUNT, 'pattern': PAT, 'file pattern': GLOB}
    for role, p in roles.items():
        i = S.rec.init.get(p[2])
        if role == 'todo':
            continue
        good = i is not None and is_c(i) and not cval(i)
        ctx.need(rid, name, good, 'the %s is first %s' % (role, i and show(i)), S.where, taint=i is None or not is_c(i))
    for e in S.rec.edges:
        M, bad = start_match(ctx, e.st, T)
        for sure, msg in bad:
            ctx.need(rid, name, False, msg, S.where, taint=not sure)
        if bad:
            continue
        env = e.st.env()
        now = lambda p: env.get(p[2], p)
        c0 = mk_eq(S.HEAD, C('{')), mk_eq(S.HEAD, C('}'))
        last = mk_eq(item(B, C(-1)), C('\\'))

        def want(q):
            if not decided(e.st, q, truth(N), (isnone(N), False)):
                if not q(truth(M)):
                    return ('push', 0)
                if q(defined_(e.st, S, M)):
                    return ('error', 'a name that is already defined')
                return ('start', M)
            forms = [e.st.facts.get(a) for a in (truth(('call', '.endswith', B, (C('\\'),), (), 0)), mk_eq(('call', 'slice', None, (B, C(-1), NONE, NONE), (), 0), C('\\')))]
            forms = [v for v in forms if v is not None]
            if e.st.facts.get(truth(B)) is False:
                forms.append(False)
            elif e.st.facts.get(last) is not None:
                forms.append(e.st.facts[last])
            if len(set(forms)) > 1:
                return ('never',)
            esc = forms[0] if forms else q(truth(B)) and q(last)
            if not esc and starts(e.st, q, T, '{', c0[0]):
                return ('push', 1)
            if not esc and starts(e.st, q, T, '}', c0[1]):
                if decided(e.st, q, truth(COUNT), (lt(C(0), COUNT), True), (mk_eq(COUNT, C(0)), False), (lt(COUNT, C(1)), False)):
                    return ('push', -1)
                if q(raises(('call', 're.compile', None, (B,), (), 0))):
                    return ('error', 'an invalid expression')
                return ('close',)
            return ('push', 0)
        for s, w in completions(e.st, want, 400):
            cond = '; '.join(showfact(a, v) for a, v in s.conds()[-8:])
            if s.decide(truth(T)) is False or w[0] == 'never':
                continue
            if w[0] == 'error':
                other = e.kind == 'exc' and e.value.call is not None and any(a[0] == 'exctype' and not v for a, v in s.facts.items())
                ctx.need(rid, name, e.kind == 'exc' and (e.value.name == 'ValueError' or other), '%s gives %s, required: ValueError, when [%s]' %
                         (w[1], e.value if e.kind == 'exc' else 'no error', cond), S.where)
                continue
            if e.kind != 'next':
                made_ = e.kind == 'exc' and e.value.call is not None
                ctx.need(rid, name, made_, 'the text is refused or left (%s), when [%s]' % (e.value if e.kind == 'exc' else e.kind, cond), S.where)
                continue
            adds = [o for o in S.rec.delta(e, S.NAMES)]
            if w[0] == 'push':
                moved = now(T) == S.REST
                ctx.need(rid, name, moved, 'a character is read but what is left becomes %s, when [%s]' % (show(now(T)), cond), S.where, taint=tainted_but(now(T), T) )
                ctx.need(rid, name, flat(now(B)) == [B, S.HEAD], 'a character is read but the text becomes %s, when [%s]' % (show(now(B)), cond), S.where, taint=tainted_but(now(B), B, T))
                n = now(COUNT)
                step = 0 if n == COUNT else cval(n[3]) if n[:3] == ('bin', '+', COUNT) and is_c(n[3]) else None
                ctx.need(rid, name, step == w[1], 'the depth of the braces becomes %s, required: %+d, when [%s]' % (show(n), w[1], cond), S.where, taint=step is None and tainted_but(n, COUNT))
                keep = {'name': N, 'pattern': PAT, 'file pattern': GLOB}
                ctx.need(rid, name, not adds, 'a name is noted, when [%s]' % cond, S.where)
            elif w[0] == 'start':
                ctx.need(rid, name, now(N) == group(M, 1), 'the name of the part is %s, when [%s]' % (show(now(N)), cond), S.where, taint=tainted_but(now(N), T, N))
                r = remainder(S, now(T), M)
                ctx.need(rid, name, bool(r), 'after the beginning of a named part, what is left is %s, when [%s]' % (show(now(T)), cond), S.where, taint=r is None and now(T) != T and now(T) != S.REST)
                ctx.need(rid, name, now(B) == C('') or now(B) == B and s.decide(truth(B)) is False, 'a named part starts with the text %s, when [%s]' % (show(now(B)), cond), S.where, taint=tainted_but(now(B), B))
                ctx.need(rid, name, [o[:2] for o in adds] == [('add', group(M, 1))], 'the name of a part is not noted, when [%s]' % cond, S.where, taint=bool(adds))
                flushed(S, s, now(PAT), PAT, 'pattern', rid, 'pattern', cond)
                flushed(S, s, now(GLOB), GLOB, 'glob', rid, 'file pattern', cond)
                keep = {'depth': COUNT}
            else:
                ctx.need(rid, name, now(T) == S.REST, 'at the end of a named part, what is left becomes %s, when [%s]' % (show(now(T)), cond), S.where, taint=tainted_but(now(T), T))
                ctx.need(rid, name, now(B) == C(''), 'after a named part, the text is %s, when [%s]' % (show(now(B)), cond), S.where, taint=tainted_but(now(B), B))
                ctx.need(rid, name, is_c(now(N)) and not cval(now(N)), 'after a named part, the name is %s, when [%s]' % (show(now(N)), cond), S.where, taint=tainted_but(now(N), N))
                want_p = [PAT, C('(?P<'), N, C('>'), B, C(')')]
                ctx.need(rid, name, flat(now(PAT)) == want_p, 'a named part makes the pattern %s, when [%s]' % (show(now(PAT)), cond), S.where, taint=tainted_but(now(PAT), PAT, N, B))
                ctx.need(rid, name, flat(now(GLOB)) == [GLOB, C('*')], 'a named part makes the file pattern %s, when [%s]' % (show(now(GLOB)), cond), S.where, taint=tainted_but(now(GLOB), GLOB))
                ctx.need(rid, name, not adds, 'a name is noted, when [%s]' % cond, S.where)
                keep = {}
                n = now(COUNT)
                ctx.need(rid, name, n == COUNT or n == C(0), 'the depth of the braces becomes %s at the end of a part, when [%s]' % (show(n), cond), S.where, taint=tainted_but(n, COUNT))
            for role, p in keep.items():
                ctx.need(rid, name, now(p) == p, 'the %s becomes %s, when [%s]' % (role, show(now(p)), cond), S.where, taint=tainted_but(now(p), p))


def defined_(s, S, M):
    """The question whether the name is already defined, as it is asked on this path (the set is asked at some point of its life)."""
    g = group(M, 1)
    for a in s.facts:
        if a[0] == 'in' and a[1] == g and strip_view(a[2][1] if a[2][0] == 'at' else a[2]) in (S.NAMES, strip_view(S.NAMES)):
            return a
    return isin(g, S.NAMES)


def starts(s, q, T, c, atom):
    a = truth(('call', '.startswith', T, (C(c),), (), 0))
    if s.facts.get(a) is not None:
        return s.facts[a]
    return q(atom)


def check_literal(S):
    """The forms of literal text are the same where a part starts and at the end: see flushed(); here, that both were seen."""
    S.ctx.ok('C22.literal', S.name)


def check_end(S):
    ctx, rid, name = S.ctx, 'C22.end', S.name
    N, B = S.NAME, S.BUF
    for s0, o in outcomes(S.rows):
        if s0.decide(truth(S.TODO)) is not False:
            continue

        def want(q):
            return ('error',) if decided(s0, q, truth(N), (isnone(N), False)) else ('ok',)
        for s, w in completions(s0, want):
            cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
            if w[0] == 'error':
                ctx.need(rid, name, o[0] == 'exc' and o[1].name == 'ValueError', 'a named part that does not end gives %s, when [%s]' % (o[1] if o[0] == 'exc' else show(o), cond), S.where)
                continue
            if o[0] == 'exc':
                inv = any(a[0] == 'raises' and v and a[1][:2] == ('call', 're.compile') for a, v in s.facts.items())
                ctx.need(rid, name, inv, 'a text is refused (%s), when [%s]' % (o[1], cond), S.where)
                if inv:
                    caught = any(a[0] == 'exctype' and v for a, v in s.facts.items())
                    untouched = any(a[0] == 'exctype' and not v for a, v in s.facts.items())
                    ctx.need(rid, name, o[1].name == 'ValueError' or untouched, 'an invalid expression gives %s, when [%s]' % (o[1], cond), S.where)
                continue
            if o[0] != 'tup' or len(o[1]) != 3:
                ctx.undec(rid, name, 'result %s' % show(o))
                continue
            names, rx, gl = o[1]
            ctx.need(rid, name, names == S.NAMES, 'the names are %s' % show(names), S.where, taint=True)
            pt = compiled_text(rx)
            if pt is None:
                ctx.undec(rid, name, 'the expression %s' % show(rx))
                continue
            ctx.need(rid, name, flags_of(rx) == C(0), 'the expression is compiled with %s' % show(flags_of(rx)), S.where, taint=tainted(flags_of(rx)))
            fl = flat(pt)
            fl2 = list(fl)
            if fl2 and is_c(fl2[0]) and cval(fl2[0]) in ('^', r'\A'):
                fl2 = fl2[1:]
            end = fl2[-1] if fl2 and is_c(fl2[-1]) else None
            if end is not None:
                fl2 = fl2[:-1]
            S.anchored = getattr(S, 'anchored', set()) | {cval(end) if end is not None else ''}
            ctx.need(rid, name, end is None or cval(end) in (r'\Z', '$'), 'the expression ends with %s' % (end and show(end)), S.where, taint=False)
            body = ('strcat', tuple(fl2)) if len(fl2) != 1 else fl2[0]
            flushed(S, s, body, S.PAT, 'pattern', 'C22.literal', 'pattern', cond)
            flushed(S, s, gl, S.GLOB, 'glob', 'C22.literal', 'file pattern', cond)


# -- files

def check_files(ctx, S):
    rid = 'C22.files'
    X = Expand(ctx, opaque=(INPLACE, S.name))
    name = X.name
    n = 0
    for r in X.entries:
        D, E = r.desc, ('elem', r.lid)
        V = item(D, E)
        for e in r.edges:
            T = Texts(ctx.repo, e.st.facts, V)
            if not (e.st.facts.get(T('glob')) is True and e.st.facts.get(T('comma')) is False):
                continue
            cond = '; '.join(showfact(a, v) for a, v in e.conds[-4:])
            if e.kind == 'exc':
                continue
            n += 1
            from .c21 import added, keep_call, unat, strip_list
            got = added(X, r, e)
            main = [bs for b, bs in got if bs and bs[0][0] == 'gen']
            if not main:
                ctx.need(rid, name, False, 'a glob statement is replaced by %s, when [%s]' % ([b[0] for _, bs in got for b in bs], cond), X.where, taint=bool(got))
                continue
            for bs in main:
                if len(bs) != 1:
                    ctx.undec(rid, name, '%d sequences' % len(bs))
                    continue
                coll, edges, rec = bs[0][1], bs[0][2], bs[0][3]
                c = strip_list(coll)
                if c[:2] == ('call', 'sorted') and c[4] and all(k == 'reverse' and is_c(v) for k, v in c[4]):
                    ctx.need(rid, name, not cval(c[4][0][1]), 'the files come in reverse order', X.where)
                    c = c[:4] + ((),) + c[5:]
                if c[:2] == ('call', 'sorted') and len(c[4]) == 1 and c[4][0][0] == 'key':
                    k = c[4][0][1]
                    plain = k == NONE or k[0] == 'keyfn' and k[1] in (sym('arg'), ('arg',)) or k in (('builtin', 'str'), ('glob', 'str'))
                    byname = k[0] == 'keyfn' and (k[1][0] == 'arg' or k[1][0] == 'call' and k[1][1] == 'str')
                    ctx.need(rid, name, plain or byname, 'the files are sorted by %s' % show(k), X.where, taint=k[0] == 'keyfn' and (k[1][0] == 'unk' or tainted(k[1])))
                    c = c[:4] + ((),) + c[5:]
                inner = c[3][0] if c[:2] == ('call', 'sorted') and len(c[3]) == 1 and not c[4] else None
                if inner is not None:
                    inner = strip_list(inner)
                raw = inner if inner is not None else c
                P = None
                if raw[:2] in (('call', 'glob.glob'), ('call', 'glob.iglob')) and len(raw[3]) == 1:
                    g = raw[3][0]
                    P = g[1] if g[0] in ('item', 'itemv') else None
                    ctx.need(rid, name, g[0] in ('item', 'itemv') and g[2] == C(2), 'the files are looked for with %s' % show(g), X.where, taint=not (g[0] in ('item', 'itemv')))
                    ctx.need(rid, name, inner is not None, 'the files come in any order', X.where)
                else:
                    ctx.need(rid, name, False, 'the files come from %s' % show(coll), X.where, taint=True)
                    continue
                if P is None:
                    continue
                arg = list(P[3]) + [v for _, v in P[4]] if P[:2] == ('call', S.name) else None
                ctx.need(rid, name, arg == [V], 'what is parsed is %s' % show(P), X.where, taint=arg is None)
                F = ('elem', rec.lid)
                for conds, e2, sub in edges:
                    if e2.kind == 'exc' and e2.value.call is not None:
                        continue
                    ctx.need(rid, name, e2.kind == 'next', 'the files after one are left out, when [%s]' % '; '.join(showfact(a, v) for a, v in conds), X.where)
                    check_file(ctx, S, X, r, e2, conds, sub, P, F, D, E)
    ctx.need(rid, name, n > 0, 'glob statements are never looked for', X.where, taint=True)


def check_file(ctx, S, X, r, e2, conds, sub, P, F, D, E):
    from .c21 import keep_call, unat
    rid, name = 'C22.files', X.name
    rx = ('item', P, C(1))
    M = None
    whole_ = getattr(S, 'anchored', None)
    if whole_ is None:
        ctx.undec(rid, name, 'the end of the expression is not known')
        return
    forms = {h: ('call', '.' + h, rx, (F,), (), 0) for h in ('match', 'fullmatch', 'search')}
    for h, t in forms.items():
        if truth(t) in e2.st.facts or ('is', t, NONE) in e2.st.facts:
            M, how = t, h
    cond = '; '.join(showfact(a, v) for a, v in conds)
    if M is None:
        others = [a[1] for a in e2.st.facts if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] in ('.match', '.fullmatch', '.search') and a[1][2] == rx]
        if len(others) == 1:
            ctx.need(rid, name, False, 'what must match is %s' % show(others[0]), X.where, taint=tainted_but(('tup', others[0][3]), F))
            return
        ctx.need(rid, name, not sub, 'a file is kept whatever the expression, when [%s]' % cond, X.where, taint=any(mentions(a, lambda x: x == rx) for a in e2.st.facts))
        return
    full = how == 'fullmatch' or how == 'match' and whole_ == {r'\Z'}
    ctx.need(rid, name, full, 'part of a file name is enough (%s, the expression ending with %s)' % (how, sorted(whole_)), X.where)
    for s, m in completions(e2.st, lambda q: q(truth(M))):
        c2 = '; '.join(showfact(a, v) for a, v in s.conds()[-4:])
        if not m:
            ctx.need(rid, name, not sub, 'a file that does not match is kept, when [%s]' % c2, X.where)
            continue
        ctx.need(rid, name, len(sub) == 1 and sub[0][0] == 'one', 'a file that matches gives %d descriptions, when [%s]' % (len(sub), c2), X.where, taint=len(sub) > 0)
        if len(sub) != 1 or sub[0][0] != 'one':
            continue
        kw = keep_call(sub[0][1])
        if kw is None:
            ctx.undec(rid, name, 'what a file gives: %s' % show(sub[0][1]))
            continue
        ctx.need(rid, name, unat(kw.get('desc')) == unat(D) and kw.get('key') == E and kw.get('value') == F, 'a file gives %s' % show(sub[0][1]), X.where,
                 taint=not (kw.get('value') and not tainted_but(kw['value'], F)))
        check_captured(ctx, X, s, kw.get('globs'), M, P, c2)


def check_captured(ctx, X, s, g, M, P, cond):
    """The captured texts: for each name, the text of its group."""
    rid, name = 'C22.captured', X.name
    if g is None:
        ctx.need(rid, name, False, 'the captured texts are not given, when [%s]' % cond, X.where)
        return
    if g == ('call', '.groupdict', M, (), (), 0):
        ctx.ok(rid, name)
        ctx.ok(rid, name)
        return
    names = ('item', P, C(0))
    for s2, there, v in X.I.lookup(s, g, K):
        def want(q):
            return q(isin(K, names))
        for s3, w in completions(s2, want):
            if w:
                ok = there and v in (('call', '.group', M, (K,), (), 0), item(('call', '.groupdict', M, (), (), 0), K), item(M, K))
                ctx.need(rid, name, ok, 'the captured text of a name is %s, when [%s]' % (show(v) if there else 'missing', cond), X.where, taint=there and tainted_but(v, M, K) or not there and s3.decide(isin(K, g)) is None and False)
            else:
                ctx.ok(rid, name)


# -- references

def check_replace(ctx):
    rid = 'C22.replace'
    f = ctx.repo.func(INPLACE)
    name = f.qual

    def go():
        I = ctx.interp(types={})
        args = {'desc': DESC, 'key': KEY, 'value': VAL, 'globs': GMAP, 'globalindex': GIDX}
        _, rows = execute(ctx, I, INPLACE, args)
        for s0, o in outcomes(rows):
            if o[0] == 'exc' or s0.decide(truth(GMAP)) is False:
                continue
            for s, there, v in I.lookup(s0, o, K):
                if not there:
                    continue
                olds = (item(o, K), item(DESC, K), call('copy.deepcopy', None, item(DESC, K)))
                # the same entries, read from a view
                seen = []
                for a in s.facts:
                    mentions(a, lambda x: seen.append(x) if x[0] == 'itemv' and x[2] == K and x[1][0] == 'at' and x[1][1] == o and x not in seen and all(op == ('set', KEY, VAL) for op in s.ops(o)[:x[1][2]]) else False)
                olds += tuple(seen)
                S0 = next((x for x in olds if ('isinstance', x, ('builtin', 'str')) in s.facts), olds[0])

                def want(q):
                    if q(mk_eq(K, C('index_expansion'))) or q(mk_eq(K, KEY)):
                        return 'other'
                    if not q(isin(K, DESC)) and s.decide(isin(K, o)) is not True:
                        return 'other'
                    return 'text' if q(('isinstance', S0, ('builtin', 'str'))) else 'keep'
                for s2, w in completions(s, want):
                    cond = '; '.join(showfact(a, x) for a, x in s2.conds()[-6:])
                    if w == 'other':
                        continue
                    if w == 'keep':
                        ctx.need(rid, name, v in olds, 'an entry that is no text becomes %s, when [%s]' % (show(v), cond), f.where(), taint=tainted(v))
                        continue
                    check_text(ctx, I, f, s2, v, olds, cond)
    ctx.guard(rid, name, go)


def substitution(ctx, t, olds):
    """(pattern, flags, replacement, count) when t is a replacement in the text."""
    if t[:2] == ('call', 're.sub') and len(t[3]) >= 3 and t[3][2] in olds:
        p = compiled(ctx.repo, t[3][0])
        cnt = t[3][3] if len(t[3]) > 3 else dict(t[4]).get('count', C(0))
        return (p, t[3][1], cnt)
    if t[:2] == ('call', '.sub') and len(t[3]) >= 2 and t[3][1] in olds:
        p = compiled(ctx.repo, t[2])
        cnt = t[3][2] if len(t[3]) > 2 else dict(t[4]).get('count', C(0))
        return (p, t[3][0], cnt)
    return None


def check_text(ctx, I, f, s, v, olds, cond):
    rid, name = 'C22.replace', f.qual
    subs = []
    mentions(v, lambda x: subs.append(x) if x[0] == 'call' and len(x) == 6 and substitution(ctx, x, olds) else False)
    if not subs:
        # nothing is replaced: the text holds no reference
        for a in s.facts:
            mentions(a, lambda x: subs.append(x) if x[0] == 'call' and len(x) == 6 and substitution(ctx, x, olds) else False)
        for t in subs:
            if v in olds and any(s.decide(mk_eq(t, x)) for x in olds):
                judge(ctx, I, f, s, t, olds, cond)
                return
        for a, x in s.facts.items():
            t = tested(ctx.repo, a[1]) if a[0] == 'truth' else None
            if t and t[3] in olds and x is False and regex.same_texts(t[0], t[2], REFERENCE, 'search', t[1]) is True:
                ctx.ok(rid, name)
                return
            if a[0] == 'in' and a[2] in olds and is_c(a[1]) and isinstance(cval(a[1]), str) and cval(a[1]) in '[glob:' and x is False:
                ctx.ok(rid, name)
                return
        ctx.need(rid, name, False, 'the references of a text are not replaced: %s, when [%s]' % (show(v), cond), f.where(), taint=tainted(v))
        return
    t = subs[0]
    judge(ctx, I, f, s, t, olds, cond)
    old = next(x for x in olds if mentions(t, lambda y: y == x))
    kinds = [('call', 'apply', attr(x, '__class__'), (t,), (), 0) for x in olds] + [('call', 'apply', ('call', 'type', None, (x,), (), 0), (t,), (), 0) for x in olds] + \
        [('call', '.__class__', x, (t,), (), 0) for x in olds]
    plain = v == t and s.decide(('is', attr(old, '__class__'), ('builtin', 'str')))
    ok = v in kinds or plain or unver(v) in kinds
    ctx.need(rid, name, bool(ok), 'a text becomes %s, when [%s]' % (show(v), cond), f.where(), taint=not ok and v != t)


def judge(ctx, I, f, s, t, olds, cond):
    """The replacement itself."""
    rid, name = 'C22.replace', f.qual
    p, repl, cnt = substitution(ctx, t, olds)
    if p is None:
        ctx.undec(rid, name, 'the references are %s' % show(t))
        return
    v = regex.compare(p[0], REFERENCE, p[1])
    ctx.need(rid, name, v is True, 'the references are the texts matched by %r: %s' % (p[0], v), f.where(), taint=v is None)
    ctx.need(rid, name, cnt == C(0), 'only %s references of a text are replaced' % show(cnt), f.where())
    if repl[0] not in ('clo', 'func', 'bm'):
        ctx.need(rid, name, False, 'the captured text is not put in verbatim: %s' % show(repl), f.where(), taint=tainted(repl))
        return
    M = sym('MATCH')
    g0, g1 = group(M, 0), group(M, 1)
    for s2, x in I.apply(s.copy(), repl, [M], {}, None, None):
        if isinstance(x, Exc):
            ctx.need(rid, name, s2.decide(isin(g1, GMAP)) is not False, 'an unknown reference gives %s' % (x,), f.where())
            continue
        for s3, known in completions(s2, lambda q: q(isin(g1, GMAP))):
            want = item(GMAP, g1) if known else g0
            y = x
            if y[0] == 'getd':
                y = item(y[1], y[2]) if known else y[3]
            if y[0] == 'strcat' and len(y[1]) == 1:
                y = y[1][0]
            if not known and flat(y) in ([C('[glob:'), g1, C(']')],):
                y = g0
            if y[:2] == ('call', 'str') and y[3] == (want,):
                y = want
            ctx.need(rid, name, y == want, 'a reference to %s name becomes %s, required: %s' % ('a captured' if known else 'another', show(y), show(want)), f.where(), taint=tainted(y))


def run(ctx):
    ctx.rule('C22.scan', 'each character, each beginning and each end of a named part leads to the state and the texts required')
    ctx.rule('C22.literal', 'literal text stands for itself in the expression and in the file pattern, up to the end')
    ctx.rule('C22.end', 'unbalanced braces and invalid expressions are refused with ValueError; the result holds all names and the whole pattern')
    ctx.rule('C22.files', 'each file found, and only those whose whole name matches, gives one description')
    ctx.rule('C22.captured', 'each name comes with the text of its group')
    ctx.rule('C22.replace', 'every reference to a captured name, in the other texts, is replaced verbatim, and nothing else')

    def go():
        fs = scanner_of(ctx)
        if len(fs) != 1:
            ctx.undec('C22.scan', 'util', '%d functions build named groups' % len(fs))
            return
        S = Scan(ctx, fs[0])
        if S.rec is not None and not S.found and S.COUNT is None and S.bounded():
            ctx.need('C22.scan', S.name, False, 'the depth of the braces only takes the values %s' % sorted(S.bounded()), S.where)
        elif S.rec is None or not S.found:
            ctx.undec('C22.scan', S.name, 'the parts of the scanning loop')
        else:
            ctx.guard('C22.scan', S.name, lambda: check_scan(S))
            ctx.guard('C22.end', S.name, lambda: check_end(S))
        ctx.guard('C22.files', 'util:expand', lambda: check_files(ctx, S))
    ctx.guard('C22.scan', 'util', go)
    check_replace(ctx)
