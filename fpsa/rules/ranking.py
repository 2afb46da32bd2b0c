"""Abstract domain of the ordered list of priority levels: the initial list L without some names, and one name put back somewhere."""
from .common import *


class Order:
    """The list `base` (term), without the names `gone`, plus `put` = (name, position) or None; None-able fields say what is unknown."""

    def __init__(self, base, gone=frozenset(), put=None):
        self.base, self.gone, self.put = base, frozenset(gone), put

    def key(self):
        return self.base, self.gone, self.put

    def __eq__(self, other):
        return isinstance(other, Order) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = show(self.base)
        if self.gone:
            s += ' without %s' % ', '.join(sorted(map(show, self.gone)))
        if self.put:
            s += ' then %s placed %s' % (show(self.put[0]), showpos(self.put[1]))
        return s


def showpos(p):
    def one(x):
        if isinstance(x, tuple):
            return show(x) if x and isinstance(x[0], str) and x[0] != 'len' else ' '.join(map(one, x))
        return str(x)
    return ' '.join(one(x) for x in p)


class Unclear(Exception):
    pass


def initial(s, o, base):
    """Were these names in the list at the beginning? True, False, None."""
    v = s.facts.get(isin(o, base))
    if v is None:
        v = s.facts.get(isin(o, ('at', base, 0)))
    return v


def without(s, o, t):
    """The order o once t is removed."""
    if o.put and o.put[0] == t:
        return Order(o.base, o.gone | {t}, None)
    if o.put:
        raise Unclear('two names move')
    if initial(s, t, o.base) is False:
        return o
    return Order(o.base, o.gone | {t}, None)


def canon(s, o):
    """Names known to be absent from the beginning may or may not be counted as removed."""
    return Order(o.base, {g for g in o.gone if initial(s, g, o.base) is not False}, o.put)


def order(I, s, b, n=None, alias=None):
    """Content of the list b after n operations, as an Order."""
    alias = alias or {}
    if b in alias:
        return alias[b]
    if b[0] == 'at':
        b, n = b[1], b[2] if n is None else n
    if b[0] == 'call' and b[1] in ('list', 'tuple', 'iter') and len(b[3]) == 1:
        return read(I, s, b)
    ops = s.ops(b)
    ops = ops if n is None else ops[:n]
    o = None if b[0] == 'ref' else Order(b)
    for i, op in enumerate(ops):
        k = op[0]
        if k == 'lit':
            continue
        if k == 'copy':
            o = order(I, s, op[1], op[2])
            continue
        if k == 'ext' and o is None:
            o = order(I, s, op[1])
            continue
        if k in ('each', 'gen') and o is None:
            o = filtered(I, s, b, i)
            continue
        if o is None:
            raise Unclear('built by %s' % (k,))
        if k == 'del' and op[1][0] == 'call' and op[1][1] == '.index' and len(op[1][3]) == 1 and canon(s, read(I, s, op[1][2])) == canon(s, o):
            o = without(s, o, op[1][3][0])
        elif k == 'rem':
            o = without(s, o, op[1])
        elif k == 'each':
            rec = op[2]
            names = set()
            for ed in rec.edges:
                for d in op[3](ed):
                    if d[0] != 'rem' or mentions(d[1], lambda x: x[0] in ('elem', 'phi', 'unk') and x[1] == rec.lid):
                        raise Unclear('loop')
                    names.add(d[1])
            for t in names:
                # the loop goes on until the name is no more in the list
                if not (s.facts.get(isin(t, ('at', b, i + 1))) is False or initial(s, t, b) is False):
                    raise Unclear('loop')
                o = without(s, o, t)
        elif k in ('app', 'ins'):
            t = op[1] if k == 'app' else op[2]
            if o.put:
                raise Unclear('two names move')
            if not (t in o.gone or initial(s, t, o.base) is False):
                o = Order(o.base, o.gone, (t, ('twice',)))
                continue
            o = Order(o.base, o.gone, (t, ('end',) if k == 'app' else position(I, s, o, op[1], t)))
        else:
            raise Unclear(k)
    if o is None:
        raise Unclear('unknown list')
    return o


def filtered(I, s, b, i):
    """[x for x in L if x != t]"""
    op = s.ops(b)[i]
    if op[0] != 'each':
        raise Unclear('generated')
    rec = op[2]
    src = read(I, s, strip_view(rec.coll))
    e = ('elem', rec.lid)
    gone = set()
    for ed in rec.edges:
        d = op[3](ed)
        conds = [(a, v) for a, v in ed.conds if a[0] == 'eq' and e in (a[1], a[2])]
        other = [(a, v) for a, v in ed.conds if (a, v) not in conds and mentions(a, lambda x: x == e) and not (a[0] == 'in' and a[1] == e and strip_view(a[2][1] if a[2][0] == 'at' else a[2]) == src.base)]
        if not d and ed.kind == 'next' and not any(v for a, v in conds) and not any(tainted(subst_deep(a, lambda x: K if x == e else None)) for a, v in other):
            gone.add(('some', tuple(sorted((showfact(a, v) for a, v in other or conds)))))
            continue
        if list(d) == [('app', e)] and ed.kind == 'next' and not conds and not any(tainted(subst_deep(a, lambda x: K if x == e else None)) for a, v in other):
            continue
        if other or ed.kind != 'next' or any(x != ('app', e) for x in d) or len(d) > 1 or any(v and d for a, v in conds):
            raise Unclear('filtered')
        if d:
            gone |= {a[1] if a[2] == e else a[2] for a, v in conds}
    for alt in rec.alts:
        for a, v in alt:
            if a[0] == 'eq' and e in (a[1], a[2]) and not v:
                gone.add(a[1] if a[2] == e else a[2])
            elif mentions(a, lambda x: x == e):
                raise Unclear('filtered')
    for t in gone:
        src = without(s, src, t)
    return src


def read(I, s, t):
    """The list a term was computed from (a bare name stands for the initial content)."""
    while t[0] == 'call' and t[1] in ('list', 'tuple', 'iter') and len(t[3]) == 1:
        t = t[3][0]
    return order(I, s, t, None if t[0] in ('at', 'ref') else 0)


def position(I, s, o, p, t):
    """Meaning of the integer p as a place in the order o (where t is not)."""
    off = []

    def sides(x, sign):
        if x[0] == 'bin' and x[1] == '+':
            sides(x[2], sign)
            sides(x[3], sign)
        elif x[0] == 'bin' and x[1] == '-':
            sides(x[2], sign)
            sides(x[3], -sign)
        else:
            off.append((sign, x))
    low = False
    if p[0] == 'call' and p[1] == 'max' and len(p[3]) == 2 and C(0) in p[3]:
        p = p[3][0] if p[3][1] == C(0) else p[3][1]
        low = True
    if p[0] == 'call' and p[1] == 'min' and len(p[3]) == 2:
        # never beyond the end
        for x, y in (p[3], p[3][::-1]):
            m, c = (y[2], cval(y[3])) if y[0] == 'bin' and y[1] == '+' and is_c(y[3]) else (y, 0)
            if m[0] == 'call' and m[1] == 'len' and len(m[3]) == 1:
                src = read(I, s, m[3][0])
                if src.base == o.base and not src.put:
                    c += 1 if canon(s, src) == Order(o.base) and t in o.gone else 0
                    if c >= 0:
                        return position(I, s, o, x, t)
                    return ('never last',) + position(I, s, o, x, t)
    if p[0] == 'call' and p[1] == 'abs' and len(p[3]) == 1:
        return ('mirrored',) + position(I, s, o, p[3][0], t)
    if p[0] == 'bin' and p[1] == '%':
        return ('wrapped',) + position(I, s, o, p[2], t)
    sides(p, 1)
    const, rest, anchors = 0, [], []
    for sign, x in off:
        if is_c(x) and isinstance(cval(x), int):
            const += sign * cval(x)
        elif x[0] == 'call' and x[1] == '.index' and len(x[3]) == 1 and sign == 1:
            anchors.append(x)
        elif x[0] == 'call' and x[1] == 'len' and sign == 1 and len(x[3]) == 1 and anchors == [] and len(off) == 1:
            src = read(I, s, x[3][0])
            if src.base == o.base:
                return ('end',)
            raise Unclear('length')
        else:
            rest.append((sign, x))
    if not anchors and not rest:
        return ('first',) if const == 0 else ('at', const)
    if len(anchors) != 1:
        raise Unclear('position %s' % show(p))
    a = anchors[0]
    src = read(I, s, a[2])
    ref = a[3][0]
    if src.base != o.base:
        raise Unclear('position in %s' % show(src.base))
    if ref == t:
        if src.gone or src.put:
            raise Unclear('position of a removed name')
        # shifted from its former place
        return ('shift', const, tuple(sorted(((sg, sumlen(I, s, x, o)) for sg, x in rest), key=repr)), 'clamped' if low else '')
    if canon(s, src) == canon(s, o):
        return ('near', ref, const) + ((tuple(rest),) if rest else ())
    return ('near-before-removal', ref, const)


def sumlen(I, s, x, o):
    """len(the list) and its multiples get one name."""
    if x[0] == 'bin' and x[1] == '*':
        a, b = x[2], x[3]
        if is_c(b):
            a, b = b, a
        if is_c(a) and sumlen(I, s, b, o) == ('len', 1):
            return ('len', cval(a))
        return x
    if x[0] == 'bin' and x[1] == 'neg' and sumlen(I, s, x[2], o) == ('len', 1):
        return ('len', -1)
    if x[0] == 'call' and x[1] == 'len' and len(x[3]) == 1:
        try:
            if read(I, s, x[3][0]).base == o.base:
                return ('len', 1)
        except Unclear:
            pass
    return x
