"""Shared analysis of Footprint.resolve: the queue loop (one generic iteration) and the final pass over the attributes."""
from .common import *

OPAQUE = {'Footprint._firstguess', 'Footprint._findextras', 'Footprint._addextras', 'Footprint._replacement', 'Footprint.in_values',
          'Footprint._resolve_keys'}
REPORT, CACHE, FATAL, FAST = sym('report'), sym('resolvecache'), sym('fatal'), sym('fast')


class Resolve:
    """Tables of Footprint.resolve."""

    def __init__(self, ctx, report=True, extra_opaque=()):
        self.ctx = ctx
        ctx.short += [('self.Footprint._firstguess(desc=desc, resolvecache=resolvecache)[0]', 'GUESS'), ('popped(self._resolve_keys[0], left)', 'k'),
                      ("self._fp['attr']", 'ATTR')]
        self.I = I = ctx.interp(types={SELF: ('inst', 'Footprint')}, open_dicts=[DESC], max_states=8000, opaque=OPAQUE | set(extra_opaque))
        st = memo_state(ctx, 'Footprint')
        kw = I.alloc(st, 'dict')
        for n in ('fatal', 'fast', 'report', 'resolvecache'):
            st.push(kw, ('set', C(n), sym(n)))
        st = st.assume(truth(REPORT), report, False)
        st = st.assume(isnone(CACHE), False, False)
        self.f, self.rows = execute(ctx, I, 'Footprint.resolve', {'self': SELF, 'desc': DESC, 'kw': kw}, st)
        self.where = self.f.where()
        # the queue loop: the one whose iterations call _replacement
        self.queue = []
        for rec in I.loops.values():
            if any(any(x.kind == 'call' and x.label == 'Footprint._replacement' for x in e.events()) for e in rec.edges):
                self.queue.append(rec)
        self.iters = []
        for rec in self.queue:
            for e in rec.edges:
                calls = [x for x in e.events() if x.kind == 'call' and x.label == 'Footprint._replacement']
                if not calls:
                    continue
                c = calls[-1]
                kw = dict(c.kw)
                if 'k' not in kw or 'guess' not in kw:
                    continue
                self.iters.append(Iter(self, rec, e, c, kw['k'], kw['guess'], kw))
        self.rets = returned(self.rows)


class Iter:
    """One path through an iteration of the queue loop."""

    def __init__(self, R, rec, e, c, k, guess, kw):
        self.R, self.rec, self.edge, self.call, self.k, self.guess, self.kw = R, rec, e, c, k, guess, kw
        self.st = e.st
        self.since = self._since()
        self.ok = e.st.decide(('truth', c.res))           # the replacement is finished
        self.kd = item(ATTRS, k)
        self.type = ('getd', self.kd, C('type'), ('builtin', 'str'))
        self.isclass = truth(('getd', self.kd, C('isclass'), FALSE))
        self.values, self.outcast = item(self.kd, 'values'), item(self.kd, 'outcast')
        self.final = self._final()
        self.V = self._value()

    def _since(self):
        # path node just before the decisions of this iteration
        n = len(self.edge.conds)
        p = self.edge.st.path
        while n and p is not None:
            p = p[0]
            n -= 1
        return p

    def _final(self):
        if self.edge.kind == 'exc':
            return ('exc', self.edge.value)
        rs = [(s, has, v) for s, has, v in self.R.I.lookup(self.st, self.guess, self.k) if has]
        if len(rs) == 1:
            return rs[0][2]
        return ('unk', 0)

    def _value(self):
        """The value of the attribute once remapped: the one that is compared with the undefined marker, or converted."""
        cands = []
        for a, v in self.edge.conds:
            if a[0] in ('is', 'eq') and a[2] == UNKNOWN and not is_c(a[1]):
                cands.append(a[1])
        if not cands:
            for a, v in self.edge.conds:
                if a[0] == 'isinstance' and a[2] in (self.type, self.st.norm(self.type), ('builtin', 'type')):
                    cands.append(a[1])
        return cands[-1] if cands else None

    def V0(self):
        """The settled value, when it is tested against None right after the replacement."""
        for a, v in self.edge.conds:
            if a[0] == 'is' and a[2] == NONE and mentions(a[1], lambda x: x == self.guess):
                return a[1]
        return None

    def clear(self):
        out = {self.call.res, self.k}
        if self.V is not None:
            out.add(self.V)
        v0 = self.V0()
        if v0 is not None:
            out.add(v0)
        return out

    def conversion(self):
        """The conversion of V by the declared constructor with the declared arguments, as it appears on this path."""
        kt = {self.type, self.st.norm(self.type)}
        found = []
        empty = lambda r: r[0] == 'ref' and all(o == ('lit',) for o in self.st.ops(r))
        declared = lambda t: mentions(t, lambda x: x[0] in ('getd', 'item') and x[1] == self.kd and x[2] == C('args'))

        def look(x):
            isstr = x[0] == 'call' and x[1] == 'str' and x[2] is None and self.st.norm(self.type) == ('builtin', 'str')
            if (isstr or x[0] == 'call' and x[1] == 'apply' and x[2] in kt) and x[3] == (self.V,):
                extra = [v for n, v in x[4] if n == '**']
                if len(extra) != len(x[4]) or len(extra) > 1:
                    return False
                if extra and declared(extra[0]):
                    a = extra[0]
                    if a[0] != 'getd' or empty(a[3]) or is_c(a[3]):
                        found.append(x)
                elif (not extra or empty(extra[0])) and any(declared(f) for f in self.st.facts):
                    found.append(x)           # on a path where no argument is declared
            return False
        for a in list(self.st.facts) + ([self.final] if self.final[0] != 'exc' else []):
            mentions(a, look)
        if self.final[0] == 'exc' and self.final[1].call is not None:
            mentions(self.final[1].call, look)
        return found[0] if found else None

    def in_values(self, w, values):
        return truth(call('Footprint.in_values', SELF, item=w, values=values))

    def events(self, label):
        return [x for x in self.edge.events() if x.kind == 'call' and x.label == label]

HANDLED = {'ValueError', 'TypeError', 'FootprintException'}


def exc_facts(st, c):
    """Classes against which the exception of call c was tested on this path: {name: bool}."""
    out = {}
    for a, v in st.facts.items():
        if a[0] == 'exctype' and a[1] == c:
            names = a[2]
            for n in names:
                if v is False or len(names) == 1:
                    out[n] = v
    return out


def settle_spec(it):
    """Required value of the attribute at the end of its iteration, V being its value once remapped."""
    V, kt = it.V, it.type

    def build_pred(s, got, w):
        return got == w

    def spec(q):
        if q(('is', V, UNKNOWN)):
            return V
        conv = None
        if q(it.isclass):
            if not q(isinst(V, ('builtin', 'type'))) or not q(issub(V, kt)):
                W = NONE
            else:
                W = V
        elif q(isinst(V, kt)):
            W = V
        else:
            W = conv = it.conversion()
            if conv is None:
                return Want('the value converted by the declared type with its declared arguments, or None', lambda s, g: False)
            if q(raises(conv)):
                if it.edge.kind == 'exc' and it.final[1].call == conv:
                    f = exc_facts(it.st, conv)
                    return Want('a conversion refused with a value, type or footprint error discards the value', lambda s, g: all(f.get(n) is False for n in HANDLED))
                W = NONE
        if q(truth(it.values)) and not q(it.in_values(W, it.values)):
            W = NONE
        if q(truth(it.outcast)) and q(it.in_values(W, it.outcast)):
            W = NONE
        return W
    return spec
