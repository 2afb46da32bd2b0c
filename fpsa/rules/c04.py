"""What replaces a bracketed reference, what is waited for, and why the whole thing ends.

The replacement step is interpreted on all its paths: for each iteration of its substitution loop, what is known of the
reference (settled, pending, extra, unknown) decides what the text becomes. The text that is put in, the walk along the
members, the acceptance of the result and the counting of the passes by the resolution queue are compared with the requirements.
"""
from .common import *
from .resolving import Resolve
from .. import regex

TECHNIQUE = ('abstract interpretation (path-sensitive, loop fixpoints) of the replacement step, decision table of every substitution against the '
             'specification; ranking argument on the pass counters; language and capture equivalence of the reference pattern (automata)')
MINIMA = {'C04.pick': 15, 'C04.text': 10, 'C04.member': 10, 'C04.accept': 6, 'C04.bound': 3, 'C04.queue': 6, 'C04.pattern': 1, 'C04.formatter': 2}

GUESS, EXTRAS, TODO, TODOFAST, TODOSET, KFAST, PASS = (sym(n) for n in ('guess', 'extras', 'todok', 'todokfast', 'todokset', 'kfast', 'nbpass'))
REPL = ('glob', 'footprints', 'replattr')
PATTERN = r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]'
STOP, NOTHING = ('same',), ('none',)


def search_of(t):
    """x when t is the search of a reference in x."""
    if t[:2] == ('call', '.search') and t[2] == REPL and len(t[3]) == 1:
        return t[3][0]
    if t[:2] == ('call', 're.search') and t[2] is None and len(t[3]) == 2 and t[3][0] == REPL:
        return t[3][1]
    return None


class Step:
    """The replacement step: its substitution loop and its ways out."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = ctx.interp(types={SELF: ('inst', 'Footprint')}, max_states=8000)
        args = {'self': SELF, 'k': K, 'kfast': KFAST, 'guess': GUESS, 'extras': EXTRAS, 'todok': TODO, 'todokfast': TODOFAST, 'todokset': TODOSET, 'nbpass': PASS}
        self.f, self.rows = execute(ctx, I, 'Footprint._replacement', args)
        self.where = self.f.where()
        # the loop where the references of a value are looked for, one after the other
        used = []
        for s, o in outcomes(self.rows):
            for e in s.events():
                if e.kind == 'loop' and e.label not in used:
                    used.append(e.label)
        self.loops = [r for r in used if self.looked(r) is not None]

    def looked(self, rec):
        """The value of the loop in which references are looked for."""
        for e in rec.edges:
            for x in e.events():
                if x.kind == 'call' and x.res is not None:
                    v = search_of(x.res)
                    if v is not None and v[0] == 'phi' and v[1] == rec.lid:
                        return v
        return None


def edges_of(rec):
    return [e for e in rec.edges]


def group(M, n):
    return ('call', '.group', M, (C(n),), (), 0)


def verdict(S, rec, G, e):
    """[(state, requirement)] for an edge of the substitution loop; the requirement is a function of what comes out."""
    M = None
    for a, v in e.st.facts.items():
        def look(x):
            nonlocal M
            if len(x) == 6 and x[0] == 'call' and search_of(x) == G:
                M = x
            return False
        mentions(a, look)
    if M is None:
        M = ('call', '.search', REPL, (G,), (), 0)
    R = group(M, 1)

    def pending(q, s):
        for c in (TODOSET, TODO):
            if s.decide(isin(R, c)) is not None:
                return q(isin(R, c))
        return q(isin(R, TODO))

    def want(q):
        if not q(('isinstance', G, ('builtin', 'str'))) or not q(truth(M)):
            return STOP
        if q(isin(R, GUESS)):
            if pending(q, e.st) or q(mk_eq(R, K)):
                return STOP
            V, src = item(GUESS, R), 'guess'
        elif q(isin(R, EXTRAS)):
            V, src = item(EXTRAS, R), 'extras'
        elif q(truth(group(M, 3))):
            return ('put', M, group(M, 3), None)
        else:
            return ('exc', 'FootprintUnreachableAttr')
        if not q(truth(group(M, 2))):
            return ('put', M, None, V)
        return ('walk', M, V, src)
    return completions(e.st, want, 4000)


def put_text(S, s, t, M, G, known=()):
    """[(state, text)] when t is G with the reference M (and it alone) replaced, else None (unknown form) or a message."""
    I = S.I
    sub = None
    if t[:2] == ('call', '.sub') and t[2] == REPL:
        pos, kw = t[3], dict(t[4])
        sub = list(pos[:2]) + [kw.get('count', pos[2] if len(pos) > 2 else C(0))]
    elif t[:2] == ('call', 're.sub') and t[2] is None and t[3] and t[3][0] == REPL:
        pos, kw = t[3][1:], dict(t[4])
        sub = list(pos[:2]) + [kw.get('count', pos[2] if len(pos) > 2 else C(0))]
    if sub is not None and len(sub) == 3:
        if sub[1] != G:
            return 'the reference is replaced in %s' % show(sub[1])
        if sub[2] != C(1):
            return 'more than the reference at hand is replaced (count %s)' % show(sub[2])
        if sub[0][0] in ('clo', 'func', 'bm'):
            return I.apply(s.copy(), sub[0], [sym('MATCH')], {}, None, None)
        if sub[0] == group(M, 3) or is_c(sub[0]) and isinstance(cval(sub[0]), str) and '\\' not in cval(sub[0]):
            return [(s, sub[0])]
        if tainted_more(sub[0], G, *known):
            return None
        return 'the text %s is not put in verbatim: it is interpreted as a template' % show(sub[0])
    parts = flat(t)
    if len(parts) == 3:
        head, txt, tail = parts
        start, end = ('call', '.start', M, (), (), 0), ('call', '.end', M, (), (), 0)
        cut = lambda x, lo, hi: x[:2] == ('call', 'slice') and x[3][0] == G and x[3][1] in lo and x[3][2] in hi
        if cut(head, (NONE, C(0)), (start,)) and cut(tail, (end,), (NONE,)):
            return [(s, txt)]
    return None


def flat(t):
    if t[0] == 'bin' and t[1] == '+':
        return flat(t[2]) + flat(t[3])
    if t[0] == 'strcat':
        return [y for x in t[1] for y in flat(x)]
    return [t]


def check_text(S, rid, name, s, t, M, G, V, walked=None):
    """The text put in place of the reference is the value asked for, in the format asked for."""
    ctx = S.ctx
    texts = put_text(S, s, t, M, G, (V, walked))
    cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
    if texts is None or isinstance(texts, str):
        ctx.need(rid, name, False, '%s, when [%s]' % (texts or 'the value becomes %s' % show(t), cond), S.where, taint=texts is None and tainted_more(t, G, walked))
        return
    F = group(M, 4)
    value = walked or V
    for s2, x in texts:
        if isinstance(x, Exc):
            made = x.call is not None and x.call[:2] == ('call', '.format')
            ctx.need(rid, name, made, 'the text is refused (%r), when [%s]' % (x, cond), S.where)
            continue
        if x[0] == 'strcat' and len(x[1]) == 1:
            x = x[1][0]

        def want(q):
            if not q(truth(F)):
                return ('str', value)
            full = q(isin(C(':'), F)) or q(isin(C('!'), F))
            return ('fmt', strcat(C('{0' if full else '{0:'), F, C('}')), value)
        for s3, w in completions(s2, want, 200):
            if w[0] == 'str':
                ok = x == ('call', 'str', None, (value,), (), 0) or x == ('call', '.format', C('{}'), (value,), (), 0) or x == value and (len(flat(t)) == 3 or s3.decide(('isinstance', value, ('builtin', 'str'))))
            else:
                ok = x[:2] == ('call', '.format') and x[2][:2] == ('call', 'new FoxyFormatter') and x[3] == (w[1], value)
            ctx.need(rid, name, bool(ok), 'the reference is replaced by %s, required: %s, when [%s]' %
                     (show(x), 'str(%s)' % show(value) if w[0] == 'str' else 'the value in the format %s' % show(w[1]), cond), S.where,
                     taint=not ok and tainted_more(x, G, value))


def strcat(*parts):
    return ('strcat', tuple(parts))


def check_pick(S):
    ctx = S.ctx
    name = S.f.qual
    ctx.need('C04.pick', name, len(S.loops) == 1, '%d loops look for references' % len(S.loops), S.where, taint=True)
    for rec in S.loops:
        G = S.looked(rec)
        start = rec.init.get(G[2])
        ctx.need('C04.pick', name, start == item(GUESS, K), 'the value looked at is first %s' % (start and show(start)), S.where)
        for e in rec.edges:
            if e.kind == 'exc' and isinstance(e.value, Exc) and e.value.name == 'FootprintMaxIter':
                continue                    # the guard of the loop: see C04.bound
            new = e.st.env().get(G[2], ('unbound',))
            for s, w in verdict(S, rec, G, e):
                cond = '; '.join(showfact(a, v) for a, v in s.conds()[-7:])
                untouched = not [1 for b in (GUESS, EXTRAS) if [o for o in rec.delta(e, b)]]
                ctx.need('C04.pick', name, untouched, 'the attributes are changed by a replacement, when [%s]' % cond, S.where)
                if w == STOP:
                    ctx.need('C04.pick', name, e.kind != 'exc' and new == G, 'the value becomes %s though nothing may be replaced, when [%s]' %
                             (e.value if e.kind == 'exc' else show(new), cond), S.where, taint=e.kind != 'exc' and tainted_more(new, G))
                    ctx.need('C04.pick', name, e.kind != 'next' or goes_on(S, rec, e) is False, 'the same reference is looked at again, when [%s]' % cond, S.where,
                             taint=e.kind == 'next' and goes_on(S, rec, e) is None)
                elif w[0] == 'exc':
                    ctx.need('C04.pick', name, e.kind == 'exc' and e.value.name == w[1], 'an unknown reference gives %s, required: %s, when [%s]' %
                             (e.value if e.kind == 'exc' else show(new), w[1], cond), S.where, taint=e.kind != 'exc' and tainted_more(new, G))
                elif w[0] == 'put':
                    if e.kind == 'exc':
                        made = e.value.call is not None and e.value.call[1] in ('.format', '.sub')
                        ctx.need('C04.pick', name, made, 'a known reference gives %s, when [%s]' % (e.value, cond), S.where)
                        continue
                    ctx.need('C04.pick', name, new != G, 'the reference is not replaced, when [%s]' % cond, S.where)
                    if new == G:
                        continue
                    ctx.need('C04.pick', name, e.kind == 'next' and goes_on(S, rec, e) is not False, 'the references that are left are not looked at, when [%s]' % cond, S.where)
                    if w[2] is not None:      # the fallback, as it is written
                        texts = put_text(S, s, new, w[1], G)
                        if isinstance(texts, list):
                            for s2, x in texts:
                                if isinstance(x, Exc):
                                    continue
                                ok = x == w[2] or x == ('call', 'str', None, (w[2],), (), 0)
                                ctx.need('C04.text', name, ok, 'the fallback is replaced by %s, when [%s]' % (show(x), cond), S.where)
                        else:
                            ctx.need('C04.text', name, False, '%s, when [%s]' % (texts or 'the value becomes %s' % show(new), cond), S.where, taint=texts is None and tainted_more(new, G))
                    else:
                        check_text(S, 'C04.text', name, s, new, w[1], G, w[3])
                else:
                    check_walked(S, rec, e, s, w, G, new, cond)


def tainted_more(t, *known):
    """Does the term hold something unknown, apart from the known terms?"""
    return tainted(subst_deep(t, lambda x: sym('known') if x in known else None))


def goes_on(S, rec, e):
    """Does the loop go on after this edge? (None: unknown)"""
    if e.kind != 'next':
        return False
    if rec.coll is not None:
        return None
    # the loop condition: what the exit states decided first
    env = e.st.env()
    vals = set()
    for x in rec.edges:
        if x.conds and mentions(x.conds[0][0], lambda y: y[0] == 'phi' and y[1] == rec.lid):
            vals.add(x.conds[0])
    verdicts = set()
    for a, v in vals:
        if a[0] == 'truth' and a[1][0] == 'phi' and a[1][1] == rec.lid:
            now = env.get(a[1][2])
            if now is not None and is_c(now):
                verdicts.add(bool(cval(now)) == v)
    if verdicts == {True}:
        return True
    if verdicts == {False}:
        return False
    # a constant condition: the iteration that follows is known by its starting node
    if e.to is not None:
        after = [x for x in rec.edges if x.node == e.to]
        return bool(after)
    return None


# -- members

def walk_loops(S, e, M):
    """The loops along the members, on this path of the substitution loop."""
    m = group(M, 2)

    def parts(c):
        c = c if c is None else strip_view(c)
        return c == ('call', 're.split', None, (C(':+'), m), (), 0) or c is not None and c[:3] == ('call', '.split', m) and c[3] == (C(':'),) or \
            c is not None and c[:2] == ('call', 're.split') and c[3][1:] == (m,)
    return [x.label for x in e.events() if x.kind == 'loop' and x.label.coll is not None and parts(x.label.coll)]


def wrong_cut(split):
    """Are the members certainly cut otherwise than at each sequence of colons?"""
    most = split[3][2] if len(split[3]) > 2 else dict(split[4]).get('maxsplit', C(0))
    p = split[3][0]
    if is_c(most) and cval(most):
        return True
    return is_c(p) and isinstance(cval(p), str) and regex.same_texts(cval(p), 'fullmatch', ':+', 'fullmatch') not in (True, None)


def check_walked(S, rec, e, s, w, G, new, cond):
    ctx, name = S.ctx, S.f.qual
    _, M, V, src = w
    walks = walk_loops(S, e, M)
    if not walks:
        # the path ended inside the loop along the members
        ctx.need('C04.member', name, e.kind == 'exc' and e.value.call is not None, 'the members of the reference are not followed: the value becomes %s, when [%s]' % (show(new), cond), S.where,
                 taint=e.kind == 'exc' or tainted_more(new, G))
        return
    wrec = walks[-1]
    split = strip_view(wrec.coll)
    good = split[1] == 're.split' and len(split[3]) == 2 and not split[4] and split[3][0] in (C(':+'), C('::*'), C('[:]+'))
    ctx.need('C04.member', name, good, 'the members are cut by %s' % show(split), S.where, taint=not good and split[1] == 're.split' and not wrong_cut(split))
    E = ('elem', wrec.lid)
    # the variable that walks along
    who = {a[2][0] if False else x for x in walkers(wrec, E)}
    if len(who) != 1:
        ctx.need('C04.member', name, False, 'cannot tell what walks along the members' if not fixed(wrec, E) else 'the members are all looked for in %s' % show(fixed(wrec, E)), S.where,
                 taint=not fixed(wrec, E))
        return
    P = who.pop()
    ctx.need('C04.member', name, wrec.init.get(P[2]) == V, 'the walk along the members starts from %s, required: %s, when [%s]' %
             (show(wrec.init.get(P[2]) or NONE), show(V), cond), S.where)
    A = ('call', 'getattr', None, (P, E), (), 0)
    # how it was left, on this path
    left = [a for a, v in s.facts.items() if mentions(a, lambda x: x == E)]
    if not left:
        if e.kind == 'exc':
            made = e.value.call is not None and e.value.call[1] in ('.format', '.sub')
            ctx.need('C04.member', name, made, 'a known member gives %s, when [%s]' % (e.value, cond), S.where)
            return
        ctx.need('C04.member', name, new not in (G, NONE), 'the reference is not replaced by its member: %s, when [%s]' % (show(new), cond), S.where)
        if new not in (G, NONE):
            check_text(S, 'C04.text', name, s, new, M, G, V, P)
            ctx.need('C04.pick', name, e.kind == 'next' and goes_on(S, rec, e) is not False, 'the references that are left are not looked at, when [%s]' % cond, S.where)
        return
    for s2, r in completions(s, lambda q: member(q, P, E)):
        if r[0] == 'next':
            ctx.need('C04.member', name, False, 'the walk along the members is left at %s, when [%s]' % (show(r[1]), cond), S.where)
        elif r[0] == 'none':
            ctx.need('C04.member', name, e.kind != 'exc' and new == NONE, 'a missing member gives %s, required: no value, when [%s]' % (e.value if e.kind == 'exc' else show(new), cond), S.where)
        elif r[0] == 'raises' and src == 'guess':
            ctx.need('C04.member', name, e.kind == 'exc' and e.value.call == r[1], 'a failing method of a settled value gives %s, when [%s]' % (e.value if e.kind == 'exc' else show(new), cond), S.where)
        elif r[0] == 'raises':
            handled = s2.facts.get(('exctype', r[1], frozenset(['Exception'])))
            ctx.need('C04.member', name, e.kind != 'exc' and new == G and goes_on(S, rec, e) is not True or e.kind == 'exc' and not handled_here(s2, r[1]),
                     'a failing method of an extra gives %s, required: wait, when [%s]' % (e.value if e.kind == 'exc' else show(new), cond), S.where)


def handled_here(s, c):
    return any(a[0] == 'exctype' and a[1] == c and v for a, v in s.facts.items())


def walkers(rec, E):
    """The loop-carried terms whose members named by E are read."""
    out = set()

    def look(x):
        if x[:2] == ('call', 'getattr') and len(x) == 6 and len(x[3]) >= 2 and x[3][1] == E and x[3][0][0] == 'phi' and x[3][0][1] == rec.lid:
            out.add(x[3][0])
        return False
    for e in rec.edges:
        for a, v in e.conds:
            mentions(a, look)
        for v in e.st.env().values():
            if v is not None:
                mentions(v, look)
    return out


def fixed(rec, E):
    """The value, always the same, in which all members are looked for."""
    out = []

    def look(x):
        if x[:2] == ('call', 'getattr') and len(x) == 6 and len(x[3]) >= 2 and x[3][1] == E and not mentions(x[3][0], lambda y: y[0] == 'phi' and y[1] == rec.lid):
            out.append(x[3][0])
        return False
    for e in rec.edges:
        for a, v in e.conds:
            mentions(a, look)
    return out[0] if out else None


def member(q, P, E):
    """What one step along the members gives."""
    A = ('call', 'getattr', None, (P, E), (), 0)
    if not q(has(P, E)) or q(isnone(A)):
        return NOTHING
    if not q(('callable', A)):
        return ('next', A)
    builtin = q(('isinstance', A, ('ext', 'types.BuiltinFunctionType')))
    c = ('call', 'apply', A, () if builtin else (GUESS, EXTRAS), (), 0)
    if not builtin and q(raises(c)):
        return ('raises', c)
    if q(isnone(c)):
        return NOTHING
    return ('next', c)


def check_member(S):
    """Each step along the members."""
    ctx, name = S.ctx, S.f.qual
    seen = set()
    for rec in S.loops:
        for e in rec.edges:
            for x in e.events():
                if x.kind == 'loop' and x.label.lid not in seen and x.label.coll is not None:
                    wrec = x.label
                    E = ('elem', wrec.lid)
                    who = walkers(wrec, E)
                    if len(who) != 1:
                        continue
                    seen.add(wrec.lid)
                    P = who.pop()
                    for we in wrec.edges:
                        new = we.st.env().get(P[2])
                        cond = '; '.join(showfact(a, v) for a, v in we.conds)
                        for s, r in completions(we.st, lambda q: member(q, P, E)):
                            if r[0] == 'next':
                                ctx.need('C04.member', name, we.kind == 'next' and new == r[1], 'the member gives %s, required: %s, when [%s]' %
                                         (show(new) if we.kind == 'next' else we.kind, show(r[1]), cond), S.where, taint=we.kind == 'next' and tainted_more(new, r[1]) and new != P and not mentions(new, lambda y: y == P))
                            else:
                                ctx.need('C04.member', name, we.kind != 'next', 'the walk goes on after %s, when [%s]' % ('nothing' if r == NOTHING else 'a failure', cond), S.where)


# -- what is accepted

def check_accept(S):
    ctx, name = S.ctx, S.f.qual
    for s, o in outcomes(S.rows):
        cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
        if o[0] == 'exc':
            ops = {b: [x for x in s.ops(b) if x[0] not in ('phi', 'each')] for b in (GUESS, EXTRAS)}
            ctx.need('C04.accept', name, not any(ops.values()), 'attributes are changed by a replacement that fails, when [%s]' % cond, S.where)
            continue
        recs = [e.label for e in s.events() if e.kind == 'loop' and e.label in S.loops]
        if len(recs) != 1:
            ctx.need('C04.accept', name, False, 'no reference is looked for, when [%s]' % cond, S.where, taint=bool(recs) or True)
            continue
        rec = recs[0]
        G = S.looked(rec)
        M = ('call', '.search', REPL, (G,), (), 0)
        M2 = ('call', 're.search', None, (REPL, G), (), 0)

        def held(q):
            if q(isnone(G)) is True and False:
                return False
            if s.decide(isnone(G)):
                return False
            if not q(('isinstance', G, ('builtin', 'str'))):
                return False
            m = M2 if s.decide(truth(M2)) is not None else M
            return q(truth(m))
        for s2, hold in completions(s, held):
            sets = {b: [x for x in s2.ops(b) if x[0] not in ('phi', 'lit')] for b in (GUESS, EXTRAS, TODO, TODOFAST, TODOSET)}
            cond = '; '.join(showfact(a, v) for a, v in s2.conds()[-6:])
            ctx.need('C04.accept', name, not sets[EXTRAS], 'the extras are changed by a replacement, when [%s]' % cond, S.where)
            if hold:
                ctx.need('C04.accept', name, is_c(o) and not cval(o), 'a value that still holds a reference is accepted (%s), when [%s]' % (show(o), cond), S.where, taint=not is_c(o))
                ok = sets[TODO] == [('app', K)] and sets[TODOFAST] == [('app', KFAST)] and sets[TODOSET] == [('add', K)]
                ctx.need('C04.accept', name, ok, 'the attribute is not put back at the end of the queue: %s, when [%s]' % ([sets[b] for b in (TODO, TODOFAST, TODOSET)], cond), S.where)
                ok = sets[GUESS] in ([], [('set', K, G)])
                ctx.need('C04.accept', name, ok, 'a pending attribute becomes %s, when [%s]' % (sets[GUESS], cond), S.where)
            else:
                ctx.need('C04.accept', name, is_c(o) and bool(cval(o)), 'a finished value is not accepted (%s), when [%s]' % (show(o), cond), S.where, taint=not is_c(o))
                ok = sets[GUESS] == [('set', K, G)]
                if not ok and sets[GUESS] and len(sets[GUESS]) == 1 and sets[GUESS][0][:2] == ('set', K):
                    x = sets[GUESS][0][2]
                    ok = x == NONE and s2.decide(isnone(G))
                ctx.need('C04.accept', name, ok, 'the finished value is not kept: %s, when [%s]' % (sets[GUESS], cond), S.where)
                ok = not sets[TODO] and not sets[TODOFAST] and not sets[TODOSET]
                ctx.need('C04.accept', name, ok, 'a finished attribute is put in the queue again, when [%s]' % cond, S.where)


# -- termination

def at_least_all(t):
    """Is t at least the number of attributes, for sure?"""
    n = ('call', 'len', None, (GUESS,), (), 0)
    if t == n:
        return True
    if t[:2] == ('call', 'max'):
        return any(at_least_all(x) for x in t[3])
    if t[0] == 'bin' and t[1] == '+':
        return any(at_least_all(a) and (is_c(b) and cval(b) >= 0 or at_least_all(b)) for a, b in ((t[2], t[3]), (t[3], t[2])))
    if t[0] == 'bin' and t[1] == '*':
        return any(at_least_all(a) and is_c(b) and cval(b) >= 1 for a, b in ((t[2], t[3]), (t[3], t[2])))
    return False


def check_bound(S):
    ctx, name = S.ctx, S.f.qual
    n = 0
    for s, o in outcomes(S.rows):
        over = [(a, v) for a, v in s.facts.items() if a[0] == 'lt' and PASS in (a[1], a[2])]
        mx = o[0] == 'exc' and o[1].name == 'FootprintMaxIter'
        if mx and any(e.kind == 'loop' for e in s.events()):
            continue
        good = False
        for a, v in over:
            refused = (a[2] == PASS) == v            # the pass counter is over the bound
            bound = a[1] if a[2] == PASS else ('bin', '+', a[2], C(-1))
            if refused:
                n += 1
                ctx.need('C04.bound', name, mx, 'too many passes give %s' % (o,), S.where)
                if a[1] == PASS and a[2][0] == 'bin' and a[2][1] == '+' and is_c(a[2][3]):
                    bound = a[2][2] if cval(a[2][3]) == 1 else bound
                ctx.need('C04.bound', name, at_least_all(bound), 'more than %s passes without any attribute being settled are refused: fewer than there may be pending attributes' % show(bound), S.where,
                         taint=tainted(bound) or not (is_c(bound) or mentions(bound, lambda x: x[:2] == ('call', 'len'))))
                good = True
            else:
                good = True
        if not mx:
            ctx.need('C04.bound', name, good, 'the passes are not bounded, when [%s]' % '; '.join(showfact(a, v) for a, v in s.conds()[-5:]), S.where)
    ctx.need('C04.bound', name, n > 0, 'no number of passes is refused', S.where)
    for rec in S.loops:
        ok = rec.coll is not None
        if not ok:
            # a counter that grows at each iteration and is compared with a constant
            ok = True
            for e in rec.edges:
                if e.kind != 'next' or goes_on(S, rec, e) is False:
                    continue
                env = e.st.env()
                counted = False
                for a, v in e.conds:
                    if a[0] != 'lt':
                        continue
                    for x, other, upper in ((a[2], a[1], False), (a[1], a[2], True)):
                        if is_c(other) and v is upper:
                            ph = [p for p in phis(x) if p[1] == rec.lid]
                            if len(ph) == 1 and env.get(ph[0][2]) == ('bin', '+', ph[0], C(1)) and x in (ph[0], ('bin', '+', ph[0], C(1))) and cval(other) >= 20:
                                counted = True
                ok = ok and counted
        ctx.need('C04.bound', name, ok, 'the substitutions of a value are not bounded', S.where)


def phis(t):
    out = set()

    def look(x):
        if x[0] == 'phi' and len(x) == 3:
            out.add(x)
        return False
    mentions(t, look)
    return out


# -- the queue

def check_queue(ctx):
    R = Resolve(ctx)
    name = R.f.qual
    ctx.need('C04.queue', name, len(R.queue) >= 1, '%d loops over the attributes to resolve' % len(R.queue), R.where, taint=True)
    for it in R.iters:
        e, rec, kw = it.edge, it.rec, it.kw
        cond = '; '.join(showfact(a, v) for a, v in e.conds[-4:])
        p = kw.get('nbpass')
        ph = [x for x in phis(p) if x[1] == rec.lid] if p is not None else []
        ok = p is not None and len(ph) == 1 and p == ('bin', '+', ph[0], C(1))
        ctx.need('C04.queue', name, ok, 'the number of passes given is %s' % (p and show(p)), R.where, taint=p is not None and tainted(p) and not ok and not ph)
        if not ok:
            continue
        if rec.init.get(ph[0][2]) not in (C(0), None):
            ctx.need('C04.queue', name, is_c(rec.init[ph[0][2]]) and cval(rec.init[ph[0][2]]) <= 0, 'the passes are counted from %s' % show(rec.init[ph[0][2]]), R.where)
        if e.kind == 'next':
            now = e.st.env().get(ph[0][2])
            if it.ok is False:
                ctx.need('C04.queue', name, now == p, 'after a pass that settled nothing the counter is %s' % show(now), R.where)
            elif it.ok:
                ctx.need('C04.queue', name, is_c(now) and cval(now) <= 0, 'after an attribute was settled the passes still count %s: long chains are refused' % show(now), R.where)
        if it.ok is False:
            ctx.need('C04.queue', name, e.kind == 'next', 'an attribute that waits for others ends the resolution (%s), when [%s]' % (e.kind, cond), R.where)
            seen = [b for b in e.st.heap if b not in (it.kw.get('todok'), it.kw.get('todokset'), it.kw.get('todokfast')) and
                    [o for o in rec.delta(e, b) if o[0] in ('set', 'add', 'app', 'del', 'rem') and not popping(o)]]
            ctx.need('C04.queue', name, not seen, 'an attribute that waits for others is noted in %s' % [show(b) for b in seen], R.where)
        # what is taken out of the queues is what is resolved
        took = {}
        for part in ('todok', 'todokfast', 'todokset'):
            b = kw.get(part)
            took[part] = [o for o in rec.delta(e, strip_at(b))] if b is not None else None
        ok = took['todok'] and took['todok'][0][0] == 'popl' and len(took['todok']) == 1 and took['todokfast'] and took['todokfast'][0][0] == 'popl' and len(took['todokfast']) == 1
        ctx.need('C04.queue', name, bool(ok), 'the attribute resolved is not the first of the queue: %s' % took, R.where, taint=not took['todok'])
        ok = took['todokset'] is not None and [(o[0] in ('rem', 'del', 'discard') or o[0] == 'disc') and it.k in o[1:] for o in took['todokset']] == [True]
        ctx.need('C04.queue', name, ok, 'the attribute being resolved still counts as pending: %s' % (took['todokset'],), R.where, taint=took['todokset'] is None)


def popping(o):
    return o[0] in ('popl', 'pop')


def strip_at(t):
    while t[0] == 'at':
        t = t[1]
    return t


# -- formatter and pattern

def check_formatter(ctx):
    f = ctx.repo.func('FoxyFormatter.get_field')
    I = ctx.interp(types={SELF: ('inst', 'FoxyFormatter')})
    f, rows = execute(ctx, I, f.qual, {'self': SELF, 'field_name': sym('field_name'), 'args': sym('args'), 'kwargs': sym('kwargs')})
    for s, o in outcomes(rows):
        if o[0] == 'exc':
            continue
        base = [e for e in s.events() if e.kind == 'call' and e.label in ('super.get_field', 'string.Formatter.get_field')]
        ctx.need('C04.formatter', f.qual, len(base) == 1 and sym('field_name') in base[0].args and sym('args') in base[0].args and sym('kwargs') in base[0].args,
                 'the field is not looked for as usual', f.where(), taint=len(base) > 1)
        if len(base) != 1:
            continue
        obj, key = item(base[0].res, C(0)), item(base[0].res, C(1))

        def want(q):
            return tup(('call', 'apply', obj, (), (), 0) if q(('callable', obj)) else obj, key)
        if o == base[0].res:
            o = tup(obj, key)
        ctx.conform('C04.formatter', f.qual, [(s, o)], want, f.where())


def check_pattern(ctx):
    import ast
    node = ctx.repo.module('__init__').globals.get('replattr')
    where = 'footprints/__init__.py:%d' % getattr(node, 'lineno', 0)
    val, flags = None, None
    if isinstance(node, ast.Call) and node.args:
        try:
            val = ast.literal_eval(node.args[0])
        except ValueError:
            val = None
        flags = len(node.args) > 1 or bool(node.keywords)
    if val is None or flags:
        ctx.need('C04.pattern', 'replattr', False, 'the pattern of the references is not a constant', where, taint=True)
        return
    r = regex.compare(PATTERN, val)
    ctx.need('C04.pattern', 'replattr', r is True, 'the pattern %r of the references is another one: %s' % (val, r), where, taint=r is None)


def run(ctx):
    ctx.rule('C04.pick', 'a reference is replaced by a settled attribute, else by an extra, else by its fallback; a pending one waits, an unknown one is refused')
    ctx.rule('C04.text', 'the text put in, verbatim and once, is the value asked for, in the format asked for')
    ctx.rule('C04.member', 'members are followed from the value, one after the other; nothing gives nothing; a failing extra is waited for')
    ctx.rule('C04.accept', 'a value is accepted, and kept, if and only if it holds no reference; otherwise the attribute goes back to the end of the queue')
    ctx.rule('C04.bound', 'passes that settle nothing are bounded, by at least the number of attributes; so are the substitutions of a value')
    ctx.rule('C04.queue', 'the queue is worked off in order; each pass is counted, and the count starts again when an attribute is settled')
    ctx.rule('C04.formatter', 'methods named in a format are called')
    ctx.rule('C04.pattern', 'references are the bracketed names, with their member, fallback and format')
    box = []
    ctx.guard('C04.pick', 'Footprint._replacement', lambda: box.append(Step(ctx)))
    if box:
        S = box[0]
        ctx.guard('C04.pick', S.f.qual, lambda: check_pick(S))
        ctx.guard('C04.member', S.f.qual, lambda: check_member(S))
        ctx.guard('C04.accept', S.f.qual, lambda: check_accept(S))
        ctx.guard('C04.bound', S.f.qual, lambda: check_bound(S))
    ctx.guard('C04.queue', 'Footprint.resolve', lambda: check_queue(ctx))
    ctx.guard('C04.formatter', 'FoxyFormatter.get_field', lambda: check_formatter(ctx))
    ctx.guard('C04.pattern', 'replattr', lambda: check_pattern(ctx))
