"""Abstract values: hash-consable tuples, and the facts (path predicates) over them."""


def C(v):
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_c(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'c'


def cval(t):
    return t[2]


def B(b):
    return TRUE if b else FALSE


def sym(name):
    return ('sym', name)


def attr(base, name):
    return ('attr', base, name)


def item(base, key):
    return ('item', base, key if isinstance(key, tuple) else C(key))


def tup(*elts):
    return ('tup', tuple(elts))


def subst(t, f):
    """Rebuild the term with f applied bottom-up to every sub-term f knows (f returns None otherwise)."""
    if not isinstance(t, tuple) or not t:
        return t
    r = f(t)
    if r is not None:
        return r
    if t and t[0] == 'c':
        return t
    out = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return out if out != t else t


def walk(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if not x:
                continue
            yield x
            if x[0] == 'c':
                continue
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(x)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


TAINT = ('phi', 'unk', 'itemv', 'attrv', 'inv')


def tainted(t):
    return mentions(t, lambda x: bool(x) and x[0] in TAINT)


def show(t, depth=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    s = lambda x: show(x, depth + 1)
    if depth > 9:
        return '...'
    if h == 'c':
        return repr(t[2])
    if h == 'sym':
        return t[1]
    if h == 'attr':
        return s(t[1]) + '.' + str(t[2])
    if h == 'attrv':
        return s(t[1]) + '.' + str(t[2]) + "'"
    if h in ('item', 'itemv'):
        return s(t[1]) + '[' + s(t[2]) + ']' + ("'" if h == 'itemv' else '')
    if h == 'tup':
        return '(' + ', '.join(s(x) for x in t[1]) + ')'
    if h == 'elem':
        return 'elem#%s' % (t[1],)
    if h == 'bv':
        return '_x'
    if h == 'ref':
        return '%s#%s' % (t[2], t[1])
    if h == 'at':
        return s(t[1])
    if h == 'call':
        a = [s(x) for x in t[3]] + ['%s=%s' % (k, s(v)) for k, v in t[4]]
        lab = t[1] if t[1][0] != '.' else t[1]
        return (s(t[2]) + ('.' if not lab.startswith('.') else '') if t[2] is not None else '') + lab + '(' + ', '.join(a) + ')'
    if h == 'bin':
        return '(' + s(t[2]) + ' ' + t[1] + ' ' + s(t[3]) + ')'
    if h == 'strcat':
        return 'str(' + '+'.join(s(x) for x in t[1]) + ')'
    if h == 'exists':
        return 'exists x in %s: %s' % (s(t[1]), ' or '.join('(' + ' and '.join(sorted(showfact(a, v) for a, v in c)) + ')' for c in t[2]))
    if h in ('cls', 'builtin', 'ext', 'glob'):
        return str(t[-1])
    if h in ('func', 'bm', 'meth'):
        return h + ':' + str(t[-1])
    return h + '(' + ', '.join(s(x) for x in t[1:]) + ')'


def showfact(a, v=True):
    h = a[0]
    n = '' if v else 'not '
    if h == 'in':
        return '%s %sin %s' % (show(a[1]), n, show(a[2]))
    if h == 'is':
        return '%s is %s%s' % (show(a[1]), n, show(a[2]))
    if h == 'eq':
        return '%s %s %s' % (show(a[1]), '==' if v else '!=', show(a[2]))
    if h == 'lt':
        return '%s %s %s' % (show(a[1]), '<' if v else '>=', show(a[2]))
    if h == 'truth':
        return n + show(a[1])
    return n + (show(a) if h == 'exists' else '%s(%s)' % (h, ', '.join(show(x) for x in a[1:])))
