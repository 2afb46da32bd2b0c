"""Expanding a description: the full product, in order, and nothing else.

Three nested loops are recognised by what they do: the passes, the descriptions of a pass, the entries of a description. For every
path through the entries' loop, the kind of expansion required for that entry (decided by its type, its class name, and the language
of the regular expressions it was tested with) is compared with what is really added to the next pass.
"""
from .expanding import *
from ..terms import walk

TECHNIQUE = ('abstract interpretation (path-sensitive, nested loop fixpoints) of the expansion, decision table of every entry against the specification, '
             'list-content analysis of what each pass adds; ranking argument on the passes; language equivalence of the tests (automata); effect analysis')
MINIMA = {'C21.kind': 12, 'C21.items': 4, 'C21.range': 3, 'C21.keyed': 6, 'C21.order': 2, 'C21.number': 1, 'C21.passes': 3, 'C21.bound': 2, 'C21.copy': 4, 'C21.pure': 2}

VAL, KEY, GMAP, GIDX = sym('value'), sym('key'), sym('globs'), sym('globalindex')


def tests_of(ctx, rid, name, where, s, W):
    T = Texts(ctx.repo, s.facts, W)
    for b in T.bad:
        ctx.need(rid, name, False, b, where)
    for b in T.unclear:
        ctx.undec(rid, name, 'the test %r' % b)
    return T


def added(X, r, e):
    """[(base, blocks)]: the lists that replaced descriptions are added to, on this path through the entries."""
    out = []
    given_back = [x for x in walk(e.value) if x and x[0] == 'ref'] if e.kind == 'ret' and isinstance(e.value, tuple) else []
    for b in e.st.heap:
        if b not in r.heapmark and (e.node, b) not in r.heapmark and b not in given_back:
            continue                    # made on the way
        bs = blocks(e.st, r.delta(e, b))
        if bs and made(bs):
            out.append((b, bs))
    # a list that only feeds another one does not count
    fed = set()
    for b, _ in out:
        for o in r.delta(e, b):
            if o[0] == 'ext':
                fed.add(o[1][1] if o[1][0] == 'at' else o[1])
    out = [(b, bs) for b, bs in out if b not in fed]
    return out


def keep_call(t):
    """Arguments of the call that replaces an entry."""
    return dict(t[4]) if t[:2] == ('call', INPLACE) else None


def check_kind(X):
    ctx = X.ctx
    for r in X.entries:
        D, E = r.desc, ('elem', r.lid)
        V = item(D, E)
        for e in r.edges:
            if e.kind == 'exc' and e.value.call is not None:
                continue
            cond0 = '; '.join(showfact(a, v) for a, v in e.conds[-6:])
            V = value_of(e.st, r, D, E)
            T = tests_of(ctx, 'C21.kind', X.name, X.where, e.st, V)
            for s, k in completions(e.st, lambda q: kind(q, e.st, V, T)):
                cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
                got = added(X, r, e)
                if k == 'leave':
                    ctx.need('C21.kind', X.name, not got and e.kind == 'next', 'an entry that is to be left alone is replaced, when [%s]' % cond, X.where, taint=not got and e.kind == 'exc')
                elif k in ('items', 'range', 'comma', 'glob'):
                    ctx.need('C21.kind', X.name, bool(got), 'an entry to be replaced by its %s is left alone, when [%s]' % ({'items': 'items', 'range': 'numbers', 'comma': 'parts', 'glob': 'files'}[k], cond), X.where,
                             taint=e.kind == 'ret' or e.kind == 'exc')
                    if not got:
                        continue
                    ctx.need('C21.kind', X.name, e.kind != 'next', 'two entries of a description are replaced in the same pass, when [%s]' % cond, X.where)
                    if k == 'glob':
                        continue            # see C22
                    if len(got) != 1 or len(got[0][1]) != 1:
                        ctx.need('C21.items', X.name, False, 'an entry is replaced %d times, when [%s]' % (sum(len(b) for _, b in got), cond), X.where,
                                 taint=len(got) != 1 or any(b[0] == 'unknown' for b in got[0][1]))
                        continue
                    check_items(X, r, e, s, k, V, got[0][1][0], cond)
                elif k == 'dict':
                    check_keyed(X, r, e, s, V, got, cond)


def value_of(st, r, D, E):
    return item(D, E)


def check_items(X, r, e, s, k, V, b, cond):
    """The items of an entry, each once and in order."""
    ctx = X.ctx
    if b[0] != 'gen':
        ctx.need('C21.items', X.name, False, 'only one description is made: %s, when [%s]' % (show(b[1]) if isinstance(b[1], tuple) else b[1], cond), X.where, taint=b[0] == 'unknown')
        return
    coll, edges, rec = b[1], b[2], b[3]
    c = strip_list(coll)
    if k == 'items':
        good = c == V or c[:2] in (('call', 'sorted'), ('call', 'set'), ('call', 'reversed')) and c[3] == (V,) and s.decide(isa(V, 'set'))
        ctx.need('C21.items', X.name, good, 'the items come from %s, when [%s]' % (show(coll), cond), X.where, taint=tainted_but(c, V, r.desc) or c[0] == 'ref')
        if not good:
            return
    elif k == 'comma':
        good = c[:3] == ('call', '.split', V) and c[3] == (C(','),) and not c[4] or c[:2] == ('call', 're.split') and c[3] == (C(','), V)
        ctx.need('C21.items', X.name, good, 'the parts come from %s, when [%s]' % (show(coll), cond), X.where, taint=tainted_but(c, V))
        if not good:
            return
    else:
        check_range(X, e, s, V, c, cond)
    E2 = ('elem', rec.lid)
    for conds, e2, bs in edges:
        if e2.kind == 'exc' and e2.value.call is not None:
            continue
        if len(bs) == 1 and bs[0][0] == 'first':
            ctx.need('C21.items', X.name, False, 'the descriptions are put in reverse order, when [%s]' % cond, X.where)
            continue
        if len(bs) != 1 or bs[0][0] != 'one':
            ctx.need('C21.items', X.name, False, 'an item gives %d descriptions, when [%s]' % (len(bs), cond), X.where, taint=any(x[0] != 'one' for x in bs))
            continue
        ctx.need('C21.items', X.name, e2.kind == 'next', 'the items after the first are skipped, when [%s]' % cond, X.where)
        kw = keep_call(bs[0][1])
        if kw is None:
            ctx.need('C21.items', X.name, False, 'an item gives %s' % show(bs[0][1]), X.where, taint=True)
            continue
        given(X, r, kw, E2, cond)


def given(X, r, kw, want, cond, extra=()):
    """The call that replaces the entry is about this description, this entry, that value."""
    ctx = X.ctx
    D, E = r.desc, ('elem', r.lid)
    ctx.need('C21.items', X.name, unat(kw.get('desc')) == unat(D), 'the description that is replaced is %s, when [%s]' % (show(kw.get('desc', NONE)), cond), X.where)
    ctx.need('C21.items', X.name, kw.get('key') == E, 'the entry that is replaced is %s, when [%s]' % (show(kw.get('key', NONE)), cond), X.where)
    got = kw.get('value', NONE)
    ctx.need('C21.items', X.name, got == want, 'the entry becomes %s, required: %s, when [%s]' % (show(got), show(want), cond), X.where, taint=tainted_but(got, want, D) or got[0] == 'phi' or got[0] == 'ref')


def unat(t):
    return t[1] if t is not None and t[0] == 'at' else t


def strip_list(c):
    while True:
        if c[0] == 'at':
            c = c[1]
        elif c[0] == 'call' and c[1] in ('list', 'tuple', 'iter') and len(c[3]) == 1:
            c = c[3][0]
        elif c[0] == 'call' and c[1] == 'enumerate':
            c = c[3][0]
        else:
            return c


def tainted_but(t, *known):
    return tainted(subst_deep(t, lambda x: sym('known') if x in known else None))


# -- ranges

class Unclear(Exception):
    pass


def numbers(X, s, t, V):
    """Is t the sequence of the numbers written in V? (as 'int', 'str')"""
    t = strip_list(t)
    if t[:2] == ('call', 're.findall') and len(t[3]) == 2 and t[3][1] == V and t[3][0] in (C(r'\d+'), C('[0-9]+')):
        return 'str'
    return None


def list_of(X, s, t, n, V, depth=0):
    """The content of the list t when V holds n numbers."""
    if depth > 12:
        raise Unclear('depth')
    N = [sym('number %d' % i) for i in range(n)]
    cut = None
    if t[0] == 'at':
        t, cut = t[1], t[2]
    if t[0] == 'tup':
        return list(t[1])
    if numbers(X, s, t, V) == 'str':
        return [('text', x) for x in N]
    if t[:2] == ('call', 'map') and t[3][0] == ('builtin', 'int'):
        return [as_int(x) for x in list_of(X, s, t[3][1], n, V, depth + 1)]
    if t[0] == 'call' and t[1] in ('list', 'tuple') and len(t[3]) == 1:
        return list_of(X, s, t[3][0], n, V, depth + 1)
    if t[:2] == ('call', 'slice') and all(x == NONE or is_c(x) for x in t[3][1:]):
        return list_of(X, s, t[3][0], n, V, depth + 1)[slice(*[None if x == NONE else cval(x) for x in t[3][1:]])]
    if t[0] == 'bin' and t[1] == '+':
        return list_of(X, s, t[2], n, V, depth + 1) + list_of(X, s, t[3], n, V, depth + 1)
    if t[0] != 'ref':
        raise Unclear(show(t))
    out = []
    ops = s.ops(t)
    for o in ops if cut is None else ops[:cut]:
        if o[0] == 'lit':
            continue
        if o[0] == 'copy':
            out = list_of(X, s, ('at', o[1], o[2]), n, V, depth + 1)
        elif o[0] == 'app':
            out.append(value(X, s, o[1], n, V, depth))
        elif o[0] == 'set' and is_c(o[1]):
            i = cval(o[1])
            if not -len(out) <= i < len(out):
                raise Unclear('index %s of %d' % (i, len(out)))
            out[i] = value(X, s, o[2], n, V, depth)
        elif o[0] == 'ins' and is_c(o[1]):
            out.insert(cval(o[1]), value(X, s, o[2], n, V, depth))
        elif o[0] == 'ext':
            out.extend(list_of(X, s, o[1], n, V, depth + 1))
        elif o[0] == 'each':
            out.extend(filtered(X, s, o, n, V, depth))
        else:
            raise Unclear(str(o[0]))
    return out


def as_int(x):
    return x[1] if x[0] == 'text' else x


def filtered(X, s, o, n, V, depth):
    rec = o[2]
    E = ('elem', rec.lid)
    c = strip_list(rec.coll)
    N = [sym('number %d' % i) for i in range(n)]
    adds = {}
    split = c[:2] == ('call', 're.split') and len(c[3]) == 2 and c[3][1] == V
    whole = numbers(X, s, c, V) == 'str'
    if split and not (is_c(c[3][0]) and regex.same_texts(cval(c[3][0]), 'fullmatch', r'[(),]+', 'fullmatch') is True or
                      is_c(c[3][0]) and regex.same_texts(cval(c[3][0]), 'fullmatch', r'[(),]', 'fullmatch') is True or
                      is_c(c[3][0]) and regex.same_texts(cval(c[3][0]), 'fullmatch', r'\D+', 'fullmatch') is True):
        raise Unclear('split by %s' % show(c[3][0]))
    if not split and not whole:
        src = list_of(X, s, c, n, V, depth + 1)
    out = []
    for ed in rec.edges:
        d = o[3](ed)
        keep = None
        for a, v in ed.conds:
            t = tested(X.ctx.repo, a[1]) if a[0] == 'truth' else None
            if t and t[3] == E and regex.same_texts(t[0], t[2], r'\d+', 'fullmatch', t[1]) is True:
                keep = v
            elif a == truth(('call', '.isdigit', E, (), (), 0)) or a == truth(E):
                keep = v
            else:
                raise Unclear('filter %s' % showfact(a, v))
        if not d:
            adds[keep] = None
        elif len(d) == 1 and d[0][0] == 'app':
            x = d[0][1]
            adds[keep] = 'int' if x == ('call', 'int', None, (E,), (), 0) else 'str' if x == E else Unclear
        else:
            raise Unclear('edge')
    if Unclear in adds.values():
        raise Unclear('item')
    if whole or not split:
        how = adds.get(True, adds.get(None))
        base = [('text', x) for x in N] if whole else src
        if True in adds and not whole or how is None:
            raise Unclear('filter')
        return [as_int(x) for x in base] if how == 'int' else base
    # the split leaves the word and an empty text around the numbers
    if adds.get(True) is None or adds.get(False, 1) is not None:
        raise Unclear('filter')
    return N if adds[True] == 'int' else [('text', x) for x in N]


def value(X, s, t, n, V, depth=0):
    """A term, with the numbers of V in place of the items of the lists."""
    def one(x):
        if x[0] in ('itemv', 'item') and is_c(x[2]) and isinstance(cval(x[2]), int):
            try:
                L = list_of(X, s, x[1], n, V, depth + 1)
            except Unclear:
                return None
            i = cval(x[2])
            if -len(L) <= i < len(L):
                return L[i] if L[i][0] != 'text' else ('texted', L[i][1])
            raise Unclear('index %d of %d' % (i, len(L)))
        if x[:2] == ('call', 'int') and len(x[3]) == 1:
            y = value(X, s, x[3][0], n, V, depth)
            return y[1] if y[0] == 'texted' else None
        return None
    return simplify(subst_deep(t, one))


def simplify(t):
    if t[0] == 'bin' and t[1] == '+' and is_c(t[2]) and not is_c(t[3]):
        return ('bin', '+', t[3], t[2])
    return t


def possible(X, s, n, V):
    """Is the path possible when V holds n numbers? (None: cannot tell)"""
    known = True
    for a, v in s.facts.items():
        lens = []
        mentions(a, lambda x: lens.append(x) if x[:2] == ('call', 'len') else False)
        texts = [x for x in lens]
        if a[0] == 'lt' and texts:
            vals = []
            for x in a[1:]:
                if is_c(x):
                    vals.append(cval(x))
                elif x[:2] == ('call', 'len'):
                    try:
                        vals.append(len(list_of(X, s, x[3][0], n, V)))
                    except Unclear:
                        vals.append(None)
                else:
                    vals.append(None)
            if None in vals:
                continue
            if (vals[0] < vals[1]) != v:
                return False
        elif a[0] == 'eq' and texts:
            vals = []
            for x in a[1:]:
                try:
                    vals.append(cval(x) if is_c(x) else len(list_of(X, s, x[3][0], n, V)) if x[:2] == ('call', 'len') else None)
                except Unclear:
                    vals.append(None)
            if None not in vals and (vals[0] == vals[1]) != v:
                return False
        elif a[0] == 'truth' and a[1][0] in ('at', 'ref'):
            try:
                if (len(list_of(X, s, a[1], n, V)) > 0) != v:
                    return False
            except Unclear:
                pass
    return known


def check_range(X, e, s, V, c, cond):
    ctx = X.ctx
    if c[:2] != ('call', 'range'):
        ctx.need('C21.range', X.name, False, 'the numbers come from %s, when [%s]' % (show(c), cond), X.where, taint=True)
        return
    for n in (1, 2, 3):
        try:
            if not possible(X, s, n, V):
                continue
            args = []
            for a in c[3]:
                if a[0] == 'star':
                    args += list_of(X, s, a[1], n, V)
                else:
                    args.append(value(X, s, a, n, V))
            args = [simplify(x) for x in args]
        except Unclear as u:
            if str(u).startswith('index'):
                ctx.need('C21.range', X.name, False, 'a range of %d number(s) fails: %s, when [%s]' % (n, u, cond), X.where)
            else:
                ctx.undec('C21.range', X.name, 'the bounds of a range: %s' % u)
            continue
        N = [sym('number %d' % i) for i in range(n)]
        up = ('bin', '+', N[min(1, n - 1)], C(1))
        want = [N[0], up] + N[2:]
        got = args + ([C(1)] if len(args) == 2 and len(want) == 3 and False else [])
        if len(args) == 3 and len(want) == 2 and args[2] == C(1):
            got = args[:2]
        ctx.need('C21.range', X.name, got == want, 'a range of %d number(s) gives range(%s), required: range(%s)' % (n, ', '.join(map(show, got)), ', '.join(map(show, want))), X.where,
                 taint=any(tainted(x) for x in got))


# -- dictionaries keyed by another entry

def expandable(q, s, W, T):
    """Will that entry be replaced later? (None: unsettled)"""
    p = q(protection(s, W))
    if q(isa(W, 'list')) or q(isa(W, 'tuple')) or q(isa(W, 'set')):
        return None if p else True
    if q(isa(W, 'str')):
        if p:
            return False
        return any(q(T(r)) for r in ('range', 'comma', 'glob'))
    if q(isa(W, 'dict')):
        return None
    return False


def keyed_by(X, r, D, V, s, cands, name):
    pass


def check_keyed(X, r, e, s, V, got, cond):
    ctx = X.ctx
    D, E = r.desc, ('elem', r.lid)
    loops = [x.label for x in e.events() if x.kind == 'loop' and x.label.coll is not None]
    if not got:
        # nothing is replaced: all keys were looked at
        ctx.need('C21.keyed', X.name, e.kind == 'next', 'a dictionary that is left alone ends the expansion of the description, when [%s]' % cond, X.where, taint=e.kind != 'next')
        walks = [w for w in loops if over_keys(e.st, w.coll, V)]
        ctx.need('C21.keyed', X.name, bool(walks), 'the keys of a dictionary are not looked at, when [%s]' % cond, X.where,
                 taint=any(mentions(a, lambda x: x[0] in ('exists', 'forall') or x == V) for a in s.facts if a != isa(V, 'dict')))
        return
    if e.kind == 'next':
        ctx.need('C21.keyed', X.name, False, 'two entries of a description are replaced in the same pass, when [%s]' % cond, X.where)
        return
    if len(got) != 1 or len(got[0][1]) != 1 or got[0][1][0][0] != 'one':
        ctx.need('C21.keyed', X.name, False, 'a dictionary is replaced by %s, when [%s]' % ([b[0] for _, bs in got for b in bs], cond), X.where, taint=True)
        return
    kw = keep_call(got[0][1][0][1])
    if kw is None:
        ctx.undec('C21.keyed', X.name, 'what replaces a dictionary')
        return
    val = kw.get('value', NONE)
    if not (val[0] == 'item' and val[1][0] == 'item' and val[1][1] == V):
        ctx.need('C21.keyed', X.name, False, 'a dictionary becomes %s, when [%s]' % (show(val), cond), X.where, taint=tainted_but(val, V, D) or val[0] in ('ref', 'phi'))
        return
    x = val[1][2]
    W = item(D, x)
    given(X, r, kw, item(item(V, x), ('call', 'str', None, (W,), (), 0)), cond)
    T = tests_of(ctx, 'C21.keyed', X.name, X.where, s, W)
    for s2, (present, ex) in completions(s, lambda q: (lambda p: (p, expandable(q, s, W, T) if p else None))(q(isin(x, D)) and q(isin(x, V)))):
        c2 = '; '.join(showfact(a, v) for a, v in s2.conds()[-6:])
        ctx.need('C21.keyed', X.name, present, 'a dictionary is looked up by %s, which is not a key and an entry, when [%s]' % (show(x), c2), X.where, taint=not present and x[0] not in ('elem',))
        if present and ex is not None:
            ctx.need('C21.keyed', X.name, not ex, 'a dictionary is looked up by an entry that is still to be expanded, when [%s]' % c2, X.where)


def over_keys(s, c, V):
    """Is this the keys of V, some of them maybe left out?"""
    for _ in range(6):
        c = entries_of(c)
        if c == V:
            return True
        if c[0] == 'ref':
            src = [o for o in s.ops(c) if o[0] in ('each', 'copy')]
            if len(src) != 1:
                return False
            c = src[0][2].coll if src[0][0] == 'each' else src[0][1]
        else:
            return False
    return False


def check_keys_walk(X):
    """Each key of a dictionary: passed over if it is no entry or still to be expanded, else taken."""
    ctx = X.ctx
    seen = set()
    for r in X.entries:
        D, E = r.desc, ('elem', r.lid)
        V = item(D, E)
        for e in r.edges:
            for x in e.events():
                if e.st.facts.get(isa(V, 'dict')) is not True or x.kind != 'loop' or x.label.coll is None or x.label.lid in seen or not over_keys(e.st, x.label.coll, V):
                    continue
                w = x.label
                seen.add(w.lid)
                if not any(ed.kind != 'next' for ed in w.edges):
                    # a selection of the keys
                    select_walk(X, e, w, D, V)
                    continue
                F = ('elem', w.lid)
                W = item(D, F)
                for ed in w.edges:
                    if ed.kind == 'exc' and ed.value.call is not None:
                        continue
                    T = tests_of(ctx, 'C21.keyed', X.name, X.where, ed.st, W)
                    for s, t in completions(ed.st, lambda q: (lambda p: p and (lambda z: None if z is None else not z)(expandable(q, ed.st, W, T)))(q(isin(F, D)))):
                        cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
                        if t is None:
                            continue
                        if t:
                            ctx.need('C21.keyed', X.name, ed.kind != 'next', 'a dictionary keyed by an entry that has its value is not looked up, when [%s]' % cond, X.where)
                        else:
                            ctx.need('C21.keyed', X.name, ed.kind == 'next', 'the keys of a dictionary are left too early, when [%s]' % cond, X.where)


def select_walk(X, e, w, D, V):
    ctx = X.ctx
    F = ('elem', w.lid)
    W = item(D, F)
    for ed in w.edges:
        keeps = [b for b in ed.st.heap if [o for o in w.delta(ed, b) if o[0] in ('app', 'add') and o[1] == F]]
        T = tests_of(ctx, 'C21.keyed', X.name, X.where, ed.st, W)
        for s, t in completions(ed.st, lambda q: (lambda p: p and (True if not any(mentions(a, lambda y: y == W) for a in ed.st.facts) else
                                                                  (lambda z: None if z is None else not z)(expandable(q, ed.st, W, T))))(q(isin(F, D)))):
            cond = '; '.join(showfact(a, v) for a, v in s.conds()[-6:])
            if t:
                ctx.need('C21.keyed', X.name, bool(keeps), 'a dictionary keyed by an entry that has its value is not looked up, when [%s]' % cond, X.where)


# -- passes

def check_passes(X):
    ctx, name = X.ctx, X.name
    for r in X.entries:
        ups = X.ups(r)
        ctx.need('C21.passes', name, len(ups) == 2, '%d loops around the entries of a description' % len(ups), X.where, taint=True)
        if len(ups) != 2:
            return
    for M in {X.parent[r].lid: X.parent[r] for r in X.entries}.values():
        check_pass(X, M, X.parent[M], [r for r in X.entries if X.parent[r] is M])


def check_pass(X, M, P, Es):
    """One pass: every description is replaced by what its first expandable entry gives, or kept."""
    ctx, name = X.ctx, X.name
    elids = {r.lid for r in Es}
    D = Es[0].desc
    kept, flags = [], {}
    for e in M.edges:
        if e.kind == 'exc':
            ctx.need('C21.passes', name, e.value.call is not None, 'a pass ends with %s' % (e.value,), X.where)
            continue
        cond = '; '.join(showfact(a, v) for a, v in e.conds[-5:])
        news = {}
        for b in e.st.heap:
            if b not in M.heapmark and (e.node, b) not in M.heapmark:
                continue                    # made by this iteration
            d = [o for o in M.delta(e, b)]
            what = []
            for o in d:
                if o[0] == 'phi' and o[1] in elids or o[0] == 'each' and o[1] in elids:
                    what.append('expanded')
                elif o[0] in ('app', 'appl') and copy_of(e.st, o[1], D):
                    what.append((o[0], 'kept', o[1]))
                elif o[0] == 'app' and unat(o[1]) == unat(D):
                    what.append((o[0], 'same', o[1]))
                elif o[0] == 'ext' and (fed := [1 for E in Es for x in E.edges if (o[1] == x.value or mentions(o[1], lambda y: y[0] == 'phi' and y[1] == E.lid))]):
                    what.append('expanded')
                elif made(blocks(e.st, [o])):
                    what.append('expanded')
            if what:
                news[b] = what
        main = [b for b in news if b not in {strip_list(o[1]) for c in news for o in M.delta(e, c) if o[0] == 'ext'}]
        # entries that were all looked at
        if len(main) != 1:
            ctx.need('C21.order', name, False, 'a description is %s, when [%s]' % ('lost' if not main else 'put in several places', cond), X.where, taint=bool(main) or any(
                o[0] in ('ext', 'phi', 'each') for b in e.st.heap for o in M.delta(e, b) if b != unat_pop(D) and (b in M.heapmark or (e.node, b) in M.heapmark)))
            continue
        b, what = main[0], news[main[0]]
        kept.append((e, b, what))
        ways = {w if isinstance(w, str) else w[1] for w in what}
        ctx.need('C21.order', name, len(what) == 1 or ways == {'expanded'}, 'a description that was expanded is also kept, when [%s]' % cond, X.where)
        ctx.need('C21.pure', name, 'same' not in ways, 'a description is not copied, when [%s]' % cond, X.where)
        ctx.need('C21.order', name, not [w for w in what if w[0] == 'appl'], 'the descriptions are put in reverse order, when [%s]' % cond, X.where)
        for w in what:
            if w[0] == 'app':
                check_number(X, M, e, w[2], cond, b)
    news = {b for _, b, _ in kept}
    ctx.need('C21.order', name, len(news) == 1, 'the descriptions of the next pass go to %s' % [show(b) for b in news], X.where, taint=True)
    if len(news) != 1:
        return
    new = news.pop()
    # where the descriptions come from
    src = unat(unat(D)[1]) if D[0] == 'popped' else unat(strip_list(M.coll)) if M.coll is not None else None
    if D[0] == 'popped':
        ctx.need('C21.order', name, D[2] == 'left', 'the descriptions are taken from the end', X.where)
        ctx.need('C21.order', name, M.coll is None, 'the descriptions are not all looked at', X.where, taint=True)
    ok = src is not None and src[0] == 'phi' and src[1] == P.lid
    ctx.need('C21.passes', name, ok, 'the descriptions of a pass come from %s' % (src and show(src)), X.where, taint=not (src and src[0] in ('sym', 'ref')))
    if not ok:
        return
    # the next pass works on what this one made
    start = P.init.get(src[2])
    good = False
    for s, o in outcomes(X.rows):
        if start is not None and [unat(x) for x in single(s, start) or []] == [DESC]:
            good = True
    ctx.need('C21.passes', name, good, 'the first pass starts from %s' % (start and show(start)), X.where, taint=not good)
    fresh = new != src
    for e in M.edges:
        cap = [v for (x, n), v in e.st.attrs.items() if n == 'maxlen' and x in (new, start)]
        if cap:
            ctx.need('C21.order', name, False, 'at most %s descriptions are kept' % show(cap[0]), X.where)
            break
    ctx.need('C21.passes', name, fresh, 'a pass puts its results among what it has to look at', X.where)
    for e in P.edges:
        cond = '; '.join(showfact(a, v) for a, v in e.conds[-4:])
        if e.kind == 'exc':
            continue
        now = e.st.env().get(src[2])
        if e.kind == 'next':
            ok = now is not None and strip_list(now) == new or now is not None and copied(e.st, now) == new
            ctx.need('C21.passes', name, ok, 'the next pass looks at %s, when [%s]' % (show(now) if now else now, cond), X.where, taint=now is not None and now != src)
    check_flag(X, M, P, kept)
    # the result
    for s, o in outcomes(X.rows):
        if o[0] == 'exc':
            continue
        t = copied(s, o) if o[0] == 'ref' else strip_list(o)
        t = unat(t)
        ok = t in (src, new) or whole_list(s, t) in (src, new) or t[0] == 'phi' and t[1] == P.lid and t[2] == src[2]
        ctx.need('C21.passes', name, ok, 'the result is %s' % show(o), X.where, taint=not ok and t[0] in ('ref', 'phi', 'unk'))


def whole_list(s, t):
    """The list whose elements, all of them and in order, make the list t."""
    ops = s.ops(t) if t[0] == 'ref' else ()
    ops = [o for o in ops if o[0] != 'lit']
    if len(ops) == 1 and ops[0][0] == 'each':
        rec = ops[0][2]
        if rec.coll is not None and len(rec.edges) == 1 and tuple(ops[0][3](rec.edges[0])) == (('app', ('elem', rec.lid)),):
            return copied(s, rec.coll)
    return t


def single(s, t):
    """The content of a list made of given items."""
    t = unat(t)
    if t[0] == 'tup':
        return list(t[1])
    if t[0] == 'call' and t[1] in ('deque', 'list', 'collections.deque') and t[3]:
        return single(s, t[3][0])
    out = []
    for o in s.ops(t):
        if o[0] == 'lit':
            continue
        if o[0] == 'copy':
            if o[1] == t:
                return None
            out += single(s, o[1]) or []
        elif o[0] == 'app':
            out.append(o[1])
        elif o[0] in ('each', 'phi', 'popl'):
            break
        else:
            return None
    return out


def copied(s, t):
    """The list of which t is a copy."""
    for _ in range(5):
        t = strip_list(t)
        if t[0] != 'ref':
            return t
        ops = s.ops(t)
        if ops and ops[0][0] == 'copy' and len(ops) == 1:
            t = ops[0][1]
        elif len(ops) == 2 and ops[0][0] == 'lit' and ops[1][0] == 'ext':
            t = ops[1][1]
        else:
            return t
    return t


def unat_pop(D):
    return unat(D[1]) if D[0] == 'popped' else None


def copy_of(s, t, D):
    t = unat(t)
    if t[0] == 'call' and t[1] in ('copy.deepcopy', 'copy.copy', '.copy', 'dict'):
        src = t[2] if t[1] == '.copy' else t[3][0] if t[3] else None
        return unat(src) == unat(D) if src is not None else False
    if t[0] != 'ref':
        return t[:2] == ('call', INPLACE) and dict(t[4]).get('key') == C('index_expansion')
    ops = s.ops(t)
    return bool([o for o in ops if o[0] in ('copy', 'upd') and unat(o[1]) == unat(D)])


def check_number(X, M, e, t, cond, collector):
    """A kept description gets the next number."""
    ctx, name = X.ctx, X.name
    idx = C('index_expansion')
    for s, there, v in X.I.lookup(e.st, t, idx):
        s = s
        if t[0] == 'call' and t[1] == INPLACE:
            break
        if not there:
            ctx.need('C21.number', name, False, 'a description gets no number, when [%s]' % cond, X.where)
            continue
        ok = False
        if v == ('bin', '+', ('idx', M.lid), C(1)):
            ctx.undec('C21.number', name, 'numbered by place in a pass')
            continue
        ph = [p for p in phis(v) if p[1] == M.lid]
        L = ('call', 'len', None)
        if not ph and mentions(v, lambda y: y[:3] == L):
            ok = v[0] == 'bin' and v[1] == '+' and v[3] == C(1) and v[2][:3] == L and unat(v[2][3][0]) == collector
            ctx.need('C21.number', name, ok, 'a description gets the number %s, when [%s]' % (show(v), cond), X.where, taint=not ok)
            continue
        if len(ph) != 1:
            ctx.need('C21.number', name, False, 'a description gets the number %s, when [%s]' % (show(v), cond), X.where, taint=not (is_c(v) or v == item(M_desc(X, M), idx)))
            continue
        p = ph[0]
        now, start = e.st.env().get(p[2]), M.init.get(p[2])
        step = now == ('bin', '+', p, C(1))
        ctx.need('C21.number', name, step, 'after a description the numbers go on from %s, when [%s]' % (show(now) if now else now, cond), X.where, taint=now is not None and now != p and not offset(now, p))
        if start is not None and is_c(start) and step:
            shift = 0 if v == p else cval(v[3]) if v[:3] == ('bin', '+', p) and is_c(v[3]) else None
            ctx.need('C21.number', name, shift is not None and cval(start) + shift == 1, 'the first description of a pass gets the number %s' % (cval(start) + shift if shift is not None else show(v)), X.where,
                     taint=shift is None)
        elif step:
            ctx.need('C21.number', name, False, 'the numbers of a pass start from %s' % (show(start) if start else 'what the previous pass left'), X.where,
                     taint=not (start is not None and start[0] == 'phi' or start is None))


def offset(t, p):
    return t[:3] == ('bin', '+', p) and is_c(t[3])


def M_desc(X, M):
    return [r.desc for r in X.entries if X.parent[r] is M][0]


def phis(t):
    out = set()
    mentions(t, lambda x: out.add(x) if x[0] == 'phi' and len(x) == 3 else False)
    return out


def before(e, M, f):
    """The value of a variable at the beginning of an iteration."""
    return dict(e.node).get(f, ('phi', M.lid, f)) if e.node else ('phi', M.lid, f)


def linked(M, P, f):
    """Does the variable f, as a pass leaves it, tell whether another pass is done? (True: when it is true; None: cannot tell; False: no)"""
    verdicts = set()
    asked = any(a == truth(('phi', P.lid, f)) for e in P.edges for a, v in e.conds)
    for e in P.edges:
        if e.kind == 'exc':
            continue
        now = e.st.env().get(f)
        if now is None:
            return None
        if e.kind == 'next':
            if is_c(now):
                on = bool([x for x in P.edges if x.node == e.to]) if not asked else bool(cval(now))
                if now != e.st.env().get(f):
                    return None
                verdicts.add(on == bool(cval(now)))
            elif now == ('phi', M.lid, f):
                d = e.st.decide(truth(now))
                verdicts.add(True if asked or d is True else False if d is False else None)
            else:
                return None
        else:
            d = bool(cval(now)) if is_c(now) else e.st.decide(truth(now))
            verdicts.add(None if d is None else not d)
    if not verdicts or None in verdicts:
        return None
    return False not in verdicts


def check_flag(X, M, P, kept):
    ctx, name = X.ctx, X.name
    names = {n for e in M.edges for n in e.st.env()} & {n for e in P.edges for n in e.st.env()}
    flags = [f for f in sorted(names) if linked(M, P, f) is True and not all(before(e, M, f) == e.st.env().get(f) for e, _, _ in kept)]
    if len(flags) != 1:
        flags = [f for f in flags if not flag_problems(X, M, P, f, kept)][:1]
    if not flags:
        consts = {is_c(e.st.env().get(n, NONE)) and cval(e.st.env()[n]) for n in names for e in P.edges if e.kind == 'next' and any(a == truth(('phi', P.lid, n)) for x in P.edges for a, v in x.conds)}
        ctx.undec('C21.passes', name, 'what tells that another pass is needed')
        return
    problems = flag_problems(X, M, P, flags[0], kept)
    for msg, taint in problems:
        ctx.need('C21.passes', name, False, msg, X.where, taint=taint)
    if not problems:
        for _ in range(len(kept) + 2):
            ctx.ok('C21.passes', name)


def flag_problems(X, M, P, f, kept):
    out = []
    entry = dict(M.nodes[0]).get(f, M.init.get(f)) if M.nodes else M.init.get(f)
    if not (entry is not None and is_c(entry) and not cval(entry)):
        out.append(('before a pass, another one is already asked for (%s)' % (entry and show(entry)), not (entry is not None and is_c(entry))))
    entry = dict(P.nodes[0]).get(f, P.init.get(f)) if P.nodes else P.init.get(f)
    if any(a == truth(('phi', P.lid, f)) for e in P.edges for a, v in e.conds) and not (entry is not None and is_c(entry) and cval(entry)):
        out.append(('the first pass depends on %s' % (entry and show(entry)), not (entry is not None and is_c(entry))))
    for e, b, what in kept:
        cond = '; '.join(showfact(a, v) for a, v in e.conds[-5:])
        was0 = before(e, M, f)
        now = e.st.env().get(f, was0)
        was = bool(cval(was0)) if is_c(was0) else e.st.decide(truth(was0))
        if 'expanded' in what:
            yes = bool(cval(now)) if is_c(now) else True if now == was0 and was else e.st.decide(truth(now))
            if not yes:
                out.append(('a description was expanded but no other pass is asked for (%s), when [%s]' % (show(now), cond), not is_c(now) and now != was0))
        elif not (now == was0 or is_c(now) and was is not None and bool(cval(now)) == was):
            out.append(('whether another pass is needed becomes %s after a description that is kept, when [%s]' % (show(now), cond), not is_c(now) and now != was0))
    return out


# -- bound

def check_bound(X):
    ctx, name = X.ctx, X.name
    Ps = {X.ups(r)[-1].lid: X.ups(r)[-1] for r in X.entries if X.ups(r)}
    for P in Ps.values():
        if P.coll is not None:
            ok = P.coll[:2] == ('call', 'range')
            ctx.undec('C21.bound', name, 'passes over %s' % show(P.coll))
            continue
        good = None
        for e in P.edges:
            if e.kind != 'next':
                continue
            counted = False
            for a, v in e.conds:
                if a[0] != 'lt':
                    continue
                for x, other, upper in ((a[2], a[1], False), (a[1], a[2], True)):
                    if is_c(other) and v is upper:
                        ph = [p for p in phis(x) if p[1] == P.lid]
                        if len(ph) == 1 and e.st.env().get(ph[0][2]) == ('bin', '+', ph[0], C(1)) and x in (ph[0], ('bin', '+', ph[0], C(1))):
                            counted = True
                            start = P.init.get(ph[0][2])
                            ctx.need('C21.bound', name, start is not None and is_c(start) and cval(other) - cval(start) >= 20 and cval(other) - cval(start) <= 1000,
                                     'at most %s passes are allowed, counted from %s' % (show(other), start and show(start)), X.where, taint=start is None or not is_c(start))
            good = counted if good is None else good and counted
        ctx.need('C21.bound', name, bool(good), 'the passes are not bounded', X.where)
        ends = [e for e in P.edges if e.kind == 'exc' and e.value.call is None]
        ctx.need('C21.bound', name, bool(ends), 'too deep an expansion is not an error', X.where)
        for s, o in outcomes(X.rows):
            if o[0] == 'exc':
                ctx.ok('C21.bound', name)


# -- the replacement of an entry

def check_copy(ctx):
    f = ctx.repo.func(INPLACE)
    name = f.qual

    def go():
        I = ctx.interp(types={})
        args = {'desc': DESC, 'key': KEY, 'value': VAL, 'globs': GMAP, 'globalindex': GIDX}
        _, rows = execute(ctx, I, INPLACE, args)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need('C21.copy', name, o[1].call is not None, 'ends with %s' % (o[1],), f.where())
                continue
            touched = {b: s.ops(b) for b in (DESC, GMAP) if [x for x in s.ops(b)]}
            ctx.need('C21.pure', name, not touched, 'the given %s is changed' % ', '.join(map(show, touched)), f.where())
            base = o
            deep = o == ('call', 'copy.deepcopy', None, (DESC,), (), 0)
            fresh = o[0] == 'ref' or deep
            ctx.need('C21.pure', name, fresh, 'the result is %s' % show(o), f.where(), taint=tainted(o))
            cond = '; '.join(showfact(a, v) for a, v in s.conds()[-5:])
            old = None
            for s2, there, v in I.lookup(s, o, K):
                if s2.decide(truth(GMAP)):
                    sub = True
                else:
                    sub = False

                def want(q):
                    if q(mk_eq(K, C('index_expansion'))) and not q(isnone(GIDX)):
                        return ('is', ('bin', '+', GIDX, C(1)))
                    if q(mk_eq(K, KEY)):
                        return ('is', VAL)
                    if not q(isin(K, DESC)):
                        return ('none',)
                    return ('old',)
                for s3, w in completions(s2, want):
                    c3 = '; '.join(showfact(a, x) for a, x in s3.conds()[-6:])
                    if w[0] == 'none':
                        ctx.need('C21.copy', name, not there or s3.decide(isin(K, o)) is not None or True, 'a new entry appears, when [%s]' % c3, f.where())
                    elif w[0] == 'is':
                        ctx.need('C21.copy', name, there and v == w[1], 'the entry is %s, required: %s, when [%s]' % (show(v) if there else 'absent', show(w[1]), c3), f.where(), taint=there and tainted(v) and v != w[1])
                    else:
                        deepc = ('call', 'copy.deepcopy', None, (item(DESC, K),), (), 0)
                        ok = there and v in (item(o, K), deepc) or there and sub and mentions(v, lambda x: x[:2] in (('call', 're.sub'), ('call', '.sub'))) or there and sub and v[0] == 'phi'
                        shared = there and v == item(DESC, K)
                        if shared:
                            ctx.need('C21.copy', name, False, 'the containers of the other entries are shared with the given description, when [%s]' % c3, f.where())
                            continue
                        if there or s3.decide(isin(K, o)) is not False or not deep:
                            ctx.need('C21.copy', name, bool(ok), 'another entry becomes %s, when [%s]' % (show(v) if there else 'absent', c3), f.where(), taint=there and tainted(v))
    ctx.guard('C21.copy', name, go)


def check_pure(X):
    """The given description is never written to."""
    ctx = X.ctx
    for r in X.used:
        for e in r.edges:
            for b in list(e.st.heap):
                if b == DESC or any(b == unat(x.desc) or b == x.desc for x in X.entries):
                    ops = [o for o in e.st.ops(b) if o[0] in ('set', 'del', 'upd', 'pop', 'clr', 'each', 'phi', 'inv', 'add')]
                    ctx.need('C21.pure', X.name, not ops, 'a description of the previous pass is changed: %s' % (ops[:1],), X.where)
    ctx.ok('C21.pure', X.name)


def run(ctx):
    ctx.rule('C21.kind', 'which entries are replaced, and by what, depends on their type, class name and text as required; one entry per description and pass')
    ctx.rule('C21.items', 'each item of the entry gives exactly one description, with that item in place of the entry')
    ctx.rule('C21.range', 'a range of one, two or three numbers is inclusive and keeps its step')
    ctx.rule('C21.keyed', 'a dictionary keyed by another entry is looked up with the value of that entry, once it is settled')
    ctx.rule('C21.order', 'no description is lost or doubled, and their order is kept')
    ctx.rule('C21.number', 'descriptions are numbered from 1, in order')
    ctx.rule('C21.passes', 'passes go on until nothing is to be expanded; each works on the results of the previous one')
    ctx.rule('C21.bound', 'the number of passes is bounded, beyond it an error is raised')
    ctx.rule('C21.copy', 'the other entries of a description are kept, deeply copied')
    ctx.rule('C21.pure', 'the given description is left unchanged')

    def go():
        X = Expand(ctx)
        ctx.need('C21.kind', X.name, bool(X.entries), 'no loop over the entries of a description', X.where, taint=True)
        for fn in (check_kind, check_keys_walk, check_passes, check_bound, check_pure):
            ctx.guard(fn.__name__.replace('check_', 'C21.').replace('keys_walk', 'keyed'), X.name, lambda: fn(X))
    ctx.guard('C21.kind', 'util.expand', go)
    check_copy(ctx)
