"""Comparison of two regular expressions by their automata.

The expressions are parsed (sre parse trees), turned into automata over classes of characters, with the boundaries of the capturing
groups as extra symbols. Same tagged language: same matches and same captures are possible. Different untagged language: some
text is matched by one and not by the other.
"""
import re
from re import _constants as sc, _parser as sre_parse

SAMPLES = [chr(i) for i in range(32, 127)] + ['\n', '\t', '\x00', 'é', 'ß', 'Ω', '٣', '\u2028', '一', '\xa0', '_']


def word(c):
    return c.isalnum() or c == '_'


CATEGORIES = {
    sc.CATEGORY_DIGIT: lambda c: c.isdigit() and c.isdecimal(), sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sc.CATEGORY_SPACE: str.isspace, sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: word, sc.CATEGORY_NOT_WORD: lambda c: not word(c),
}


class Unsupported(Exception):
    pass


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.step = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, sym, b):
        self.step.setdefault(a, []).append((sym, b))


def fold(cs):
    return frozenset(x for c in cs for x in (c, c.upper(), c.lower()) if len(x) == 1 and x in SAMPLES)


def charset(items, flags=0):
    if flags & re.IGNORECASE:
        neg = [i for i in items if i[0] is sc.NEGATE]
        got = fold(charset([i for i in items if i[0] is not sc.NEGATE]))
        return frozenset(c for c in SAMPLES if c not in got) if neg else got
    neg = False
    ok = set()
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            ok |= {c for c in SAMPLES if ord(c) == av}
            if chr(av) not in SAMPLES:
                raise Unsupported(chr(av))
        elif op is sc.RANGE:
            ok |= {c for c in SAMPLES if av[0] <= ord(c) <= av[1]}
        elif op is sc.CATEGORY:
            ok |= {c for c in SAMPLES if CATEGORIES[av](c)}
        else:
            raise Unsupported(str(op))
    return frozenset(c for c in SAMPLES if (c in ok) != neg)


def build(A, tree, a, tagged, flags):
    """Adds the tree from state a; returns the final state."""
    for op, av in tree:
        if op is sc.LITERAL:
            b = A.new()
            A.t(a, charset([(op, av)], flags), b)
            a = b
        elif op is sc.NOT_LITERAL:
            b = A.new()
            A.t(a, charset([(sc.NEGATE, None), (sc.LITERAL, av)], flags), b)
            a = b
        elif op is sc.ANY:
            b = A.new()
            A.t(a, frozenset(c for c in SAMPLES if c != '\n' or flags & re.DOTALL), b)
            a = b
        elif op is sc.IN:
            b = A.new()
            A.t(a, charset(av, flags), b)
            a = b
        elif op is sc.BRANCH:
            end = A.new()
            for alt in av[1]:
                s = A.new()
                A.e(a, s)
                A.e(build(A, alt, s, tagged, flags), end)
            a = end
        elif op is sc.SUBPATTERN:
            g, add, sub, p = av
            if add or sub:
                raise Unsupported('flags')
            if g is not None and tagged:
                b = A.new()
                A.t(a, ('open', g), b)
                a = build(A, p, b, tagged, flags)
                b = A.new()
                A.t(a, ('close', g), b)
                a = b
            else:
                a = build(A, p, a, tagged, flags)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            if tagged and op is sc.MIN_REPEAT:
                b = A.new()
                A.t(a, ('lazy',), b)
                a = b
            for _ in range(lo):
                a = build(A, p, a, tagged, flags)
            if hi is sc.MAXREPEAT:
                s, end = A.new(), A.new()
                A.e(a, s)
                A.e(build(A, p, s, tagged, flags), s)
                A.e(s, end)
                a = end
            else:
                end = A.new()
                A.e(a, end)
                for _ in range(hi - lo):
                    a = build(A, p, a, tagged, flags)
                    A.e(a, end)
                a = end
        elif op is sc.AT:
            b = A.new()
            A.t(a, ('at', {sc.AT_BEGINNING_STRING: 'A', sc.AT_BEGINNING: '^', sc.AT_END: '$', sc.AT_END_STRING: 'Z', sc.AT_BOUNDARY: 'b'}.get(av, str(av))), b)
            a = b
        else:
            raise Unsupported(str(op))
    return a


def automaton(pattern, tagged, flags=0):
    tree = sre_parse.parse(pattern, flags)
    if tree.state.flags & ~(re.UNICODE | flags):
        raise Unsupported('flags')
    A = NFA()
    start = A.new()
    end = build(A, tree, start, tagged, flags)
    return A, start, end


def closure(A, states):
    out, todo = set(states), list(states)
    while todo:
        for b in A.eps.get(todo.pop(), ()):
            if b not in out:
                out.add(b)
                todo.append(b)
    return frozenset(out)


def moves(A, states):
    return [(s, b) for a in states for s, b in A.step.get(a, ())]


def same_language(p1, p2, tagged, flags1=0, flags2=0, limit=20000):
    """True, or a text (list of symbols) of the difference."""
    A, a0, a1 = automaton(p1, tagged, flags1)
    B, b0, b1 = automaton(p2, tagged, flags2)
    start = (closure(A, [a0]), closure(B, [b0]))
    seen, todo = {start}, [(start, ())]
    while todo:
        (x, y), path = todo.pop(0)
        if (a1 in x) != (b1 in y):
            return path
        ma, mb = moves(A, x), moves(B, y)
        alphabet = {s for s, _ in ma + mb if not isinstance(s, frozenset)}
        sets = {s for s, _ in ma + mb if isinstance(s, frozenset)}
        classes = {}
        for c in SAMPLES:
            classes.setdefault(tuple(c in s for s in sets), c)
        for k, c in classes.items():
            if any(k):
                alphabet.add(c)
        for c in sorted(alphabet, key=str):
            hit = lambda s: (c in s) if isinstance(s, frozenset) else s == c
            nx = closure(A, [b for s, b in ma if hit(s)])
            ny = closure(B, [b for s, b in mb if hit(s)])
            if not nx and not ny:
                continue
            if (nx, ny) not in seen:
                if len(seen) > limit:
                    raise Unsupported('size')
                seen.add((nx, ny))
                todo.append(((nx, ny), path + (c,)))
    return True


def compare(p1, p2, flags1=0, flags2=0):
    """True (same matches, same captures), a message (other matches or captures), None (cannot tell)."""
    try:
        if same_language(p1, p2, True, flags1, flags2) is True:
            return True
        r = same_language(p1, p2, False, flags1, flags2)
    except Unsupported:
        return None
    except re.error as e:
        return 'invalid: %s' % e
    if r is True:
        return None
    return 'they do not agree on %r' % ''.join(c if isinstance(c, str) else str(c) for c in r)


def whole(pattern, how):
    """The pattern of the texts that re.<how> accepts, to be read as a full match (the line end that $ lets through is left aside)."""
    head, tail = how == 'search', how != 'fullmatch'
    if pattern.startswith('^') or pattern.startswith('\\A'):
        pattern, head = pattern[1 if pattern[0] == '^' else 2:], False
    for end in ('$', '\\Z'):
        if pattern.endswith(end) and not pattern.endswith('\\' + end):
            pattern, tail = pattern[:-len(end)], False
    anything = '[\\s\\S]*'
    return '%s(?:%s)%s' % (anything if head else '', pattern, anything if tail else '')


def same_texts(p1, how1, p2, how2, flags1=0, flags2=0):
    """True (the same texts are accepted), a message (they are not), None (cannot tell)."""
    try:
        r = same_language(whole(p1, how1), whole(p2, how2), False, int(flags1), int(flags2))
    except Unsupported:
        return None
    except re.error as e:
        return 'invalid: %s' % e
    return True if r is True else 'they do not agree on %r' % ''.join(c if isinstance(c, str) else str(c) for c in r)
