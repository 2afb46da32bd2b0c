"""The expansion of descriptions: the loop of passes, the loop over the descriptions of a pass, the loop over the entries of a description."""
from .common import *
from .. import regex

INPLACE, GLOBS = 'util:inplace', 'util:_parse_globs'
RANGE, COMMA, GLOBBED = r'range\(\d+(,\d+)?(,\d+)?\)$', ',', r'{glob:\w+:'


def flags_of(t):
    if t is None:
        return 0
    if is_c(t) and isinstance(cval(t), int):
        return cval(t)
    if t[0] == 'ext' and t[1] in ('re.IGNORECASE', 're.I'):
        return 2
    return None


def compiled(repo, t):
    """(pattern, flags) of a module-level compiled pattern, of a call of re.compile, or of a text."""
    import ast
    if is_c(t) and isinstance(cval(t), str):
        return cval(t), 0
    if t[:2] == ('call', 're.compile'):
        args = t[3]
        kw = dict(t[4])
        fl = flags_of(args[1] if len(args) > 1 else kw.get('flags'))
        if args and is_c(args[0]) and fl is not None:
            return cval(args[0]), fl
        return None
    if t[0] == 'glob':
        try:
            node = repo.module('__init__' if t[1] == 'footprints' else t[1]).globals.get(t[2])
        except Exception:
            return None
        if isinstance(node, ast.Call) and ast.unparse(node.func) in ('re.compile', 'compile') and node.args and isinstance(node.args[0], ast.Constant):
            rest = [ast.unparse(x) for x in node.args[1:]] + [ast.unparse(k.value) for k in node.keywords]
            if not rest:
                return node.args[0].value, 0
            if rest in (['re.IGNORECASE'], ['re.I']):
                return node.args[0].value, 2
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return node.value, 0
    return None


def tested(repo, t):
    """(pattern, flags, how, subject) when t is the test of a text with a regular expression."""
    if t[0] != 'call' or len(t) != 6:
        return None
    kw = dict(t[4])
    if t[1] in ('re.match', 're.search', 're.fullmatch') and len(t[3]) >= 2:
        p = compiled(repo, t[3][0])
        fl = flags_of(t[3][2] if len(t[3]) > 2 else kw.get('flags'))
        if p is None or fl is None:
            return None
        return p[0], p[1] | fl, t[1][3:], t[3][1]
    if t[1] in ('.match', '.search', '.fullmatch') and t[2] is not None and len(t[3]) == 1:
        p = compiled(repo, t[2])
        if p is None:
            return None
        return p[0], p[1], t[1][1:], t[3][0]
    return None


class Texts:
    """What is known, on a path, of the tests of one text."""

    def __init__(self, repo, facts, W):
        self.atoms, self.bad, self.unclear = {}, [], []
        for a in facts:
            if a[0] == 'in' and a[2] == W and is_c(a[1]) and cval(a[1]) == ',':
                self.atoms['comma'] = a
            if a == ('lt', C(1), ('call', 'len', None, (('call', '.split', W, (C(','),), (), 0),), (), 0)) or a == truth(('call', '.count', W, (C(','),), (), 0)):
                self.atoms['comma'] = a
            if a[0] != 'truth':
                continue
            t = tested(repo, a[1])
            if t is None or t[3] != W:
                continue
            verdicts = {}
            for role, (p, how, fl) in {'range': (RANGE, 'match', 2), 'comma': (COMMA, 'search', 0), 'glob': (GLOBBED, 'search', 0)}.items():
                verdicts[role] = regex.same_texts(t[0], t[2], p, how, t[1], fl)
            good = [r for r, v in verdicts.items() if v is True]
            if good:
                self.atoms[good[0]] = a
            elif None in verdicts.values():
                self.unclear.append(t[0])
            else:
                role = 'range' if 'range' in t[0].lower() else 'glob' if 'glob' in t[0] else 'comma'
                self.bad.append('the texts taken for %s by %r are not the right ones: %s' % (
                    {'range': 'ranges', 'glob': 'glob statements', 'comma': 'comma-separated lists'}[role], t[0], verdicts[role]))
        self.default = {'range': truth(call('re.match', None, C(RANGE), W, ('ext', 're.IGNORECASE'))), 'comma': isin(C(','), W),
                        'glob': truth(call('re.search', None, C(GLOBBED), W))}

    def __call__(self, role):
        return self.atoms.get(role, self.default[role])


def protected(W):
    return truth(('call', '.startswith', attr(attr(W, '__class__'), '__name__'), (C('FP'),), (), 0))


def isa(W, t):
    return ('isinstance', W, ('builtin', t))


def protection(s, W):
    """The atom telling that the value is of a protected kind, as it is written on this path."""
    for a in s.facts:
        if a[0] == 'truth' and a[1][:2] == ('call', '.startswith') and a[1][2] == attr(attr(W, '__class__'), '__name__') and a[1][3] == (C('FP'),):
            return a
        if a[0] == 'eq' and C('FP') in a[1:] and [x for x in a[1:] if x[:2] == ('call', 'slice') and x[3][0] == attr(attr(W, '__class__'), '__name__') and x[3][1] in (NONE, C(0)) and x[3][2] == C(2)]:
            return a
    return protected(W)


def kind(q, s, W, T):
    """What becomes of an entry: its kind of expansion."""
    if q(protection(s, W)):
        return 'leave'
    if q(isa(W, 'list')) or q(isa(W, 'tuple')) or q(isa(W, 'set')):
        return 'items'
    if q(isa(W, 'str')):
        for role in ('range', 'comma', 'glob'):
            if q(T(role)):
                return role
        return 'leave'
    return 'dict' if q(isa(W, 'dict')) else 'leave'


class Expand:
    def __init__(self, ctx, opaque=(INPLACE, GLOBS)):
        self.ctx = ctx
        self.I = I = ctx.interp(opaque=set(opaque), max_states=12000)
        self.f, self.rows = execute(ctx, I, 'util:expand', {'desc': DESC})
        self.name, self.where = self.f.qual, self.f.where()
        self.used, self.parent = [], {}
        todo = [(None, [e for s, _ in outcomes(self.rows) for e in s.events()])]
        while todo:
            up, evs = todo.pop(0)
            for e in evs:
                if e.kind == 'loop' and e.label not in self.used:
                    self.used.append(e.label)
                    self.parent[e.label] = up
                    todo.append((e.label, [x for ed in e.label.edges for x in ed.events()]))
        # loops over the entries of a description taken from those of the pass
        self.entries = []
        for r in self.used:
            if r.coll is None or self.parent[r] is None:
                continue
            c = entries_of(r.coll)
            if c[0] == 'at':
                c = c[1]
            if c[0] == 'popped' or c[0] == 'elem' and any(u.lid == c[1] for u in self.ups(r)):
                if not any(u in self.entries for u in self.ups(r)):
                    self.entries.append(r)
                    r.desc = c

    def ups(self, r):
        out = []
        while self.parent.get(r) is not None:
            r = self.parent[r]
            out.append(r)
        return out


def entries_of(c):
    """The dictionary whose entries are iterated."""
    while True:
        c0 = c
        c = strip_view(c)
        if c[0] == 'view':
            c = c[2]
        if c[0] == 'call' and c[1] == 'enumerate':
            c = c[3][0]
        if c[0] == 'at' and c[1][0] != 'phi':
            c = c[1]
        if c == c0:
            return c


def blocks(s, ops, depth=0):
    """What operations add to a list: ('one', term) | ('gen', collection, [(conditions, edge, blocks)], rec) | ('unknown', op)."""
    out = []
    for o in ops:
        if o[0] in ('lit',):
            continue
        if o[0] == 'app':
            out.append(('one', o[1]))
        elif o[0] == 'each':
            rec = o[2]
            out.append(('gen', rec.order if rec.order is not None and rec.order[:2] in (('call', 'sorted'), ('call', 'reversed'), ('call', 'set'), ('call', 'frozenset')) else rec.coll, [(e.conds, e, blocks(e.st, o[3](e), depth + 1)) for e in rec.edges], rec))
        elif o[0] == 'appl':
            out.append(('first', o[1]))
        elif o[0] == 'ext' and o[1][0] == 'ref':
            out.extend(blocks(s, s.ops(o[1]), depth + 1))
        elif o[0] == 'ext' and o[1][0] == 'tup':
            out.extend(('one', x) for x in o[1][1])
        elif o[0] == 'ext' and o[1][0] == 'at' and o[1][1][0] == 'ref':
            out.extend(blocks(s, s.ops(o[1][1])[:o[1][2]], depth + 1))
        elif o[0] == 'copy' and o[1][0] == 'ref':
            out.extend(blocks(s, s.ops(o[1])[:o[2]], depth + 1))
        else:
            out.append(('unknown', o))
    return out


def made(bs):
    """Do the blocks hold replaced descriptions?"""
    for b in bs:
        if b[0] == 'gen':
            if any(made(x) for _, _, x in b[2]):
                return True
        elif mentions(b[1], lambda x: x[:2] == ('call', INPLACE)):
            return True
    return False
