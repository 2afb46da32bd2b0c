#!/usr/bin/env python3
"""Development aid: compares the decision tables of the interpreter with what small functions really give on random inputs.
For each input, one of the rows whose conditions hold must give the real outcome (else the interpreter loses paths)."""
import copy, itertools, os, random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp()
os.makedirs(tmp + '/src/footprints')
shutil.copy(HERE + '/subjects.py', tmp + '/src/footprints/__init__.py')
os.environ['FPSA_REPO'] = tmp
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(HERE, '..', '..'))
sys.path.insert(0, HERE)
from fpsa.rules.common import *      # noqa
import subjects

KEYS = ['a', 'b', 'c', '_x', '_y']
VALS = [None, 0, 1, 'a', 'b', '', 'z']


class Cannot(Exception):
    pass


class Ev_:
    def __init__(self, env, el=None):
        self.env, self.el = env, el or {}

    def t(self, t):
        h = t[0]
        if h == 'c':
            return t[2]
        if h == 'sym':
            return self.env[t[1]]
        if h == 'item':
            return self.t(t[1])[self.t(t[2])]
        if h == 'elem':
            if t[1] in self.el:
                return self.el[t[1]]
            raise Cannot(t)
        if h == 'bv':
            return self.el[('bv', t[1])]
        if h == 'getd':
            return self.t(t[1]).get(self.t(t[2]), self.t(t[3]))
        if h == 'tup':
            return tuple(self.t(x) for x in t[1])
        if h == 'view':
            return list(getattr(self.t(t[2]), t[1])())
        if h == 'call' and t[1].startswith('.') and t[2]:
            return getattr(self.t(t[2]), t[1][1:])(*[self.t(x) for x in t[3]])
        if h == 'call' and t[1] in ('len', 'sorted', 'set', 'list', 'bool', 'str', 'reversed', 'tuple'):
            return getattr(__builtins__, t[1])(*[self.t(x) for x in t[3]])
        if h == 'bin':
            import operator
            return {'+': operator.add, '-': operator.sub, '|': operator.or_, '&': operator.and_}[t[1]](self.t(t[2]), self.t(t[3]))
        raise Cannot(t)

    def a(self, a):
        h = a[0]
        if h == 'in':
            if a[2][0] in ('ref', 'at'):
                raise Cannot(a)
            return self.t(a[1]) in self.t(a[2])
        if h == 'is':
            return self.t(a[1]) is self.t(a[2])
        if h == 'eq':
            return self.t(a[1]) == self.t(a[2])
        if h == 'lt':
            return self.t(a[1]) < self.t(a[2])
        if h == 'truth':
            return bool(self.t(a[1]))
        if h == 'exists':
            coll = self.t(a[1])
            d = [x[1] for c in a[2] for at, v in c for x in walk(at) if x[0] == 'bv']
            key = ('bv', max(d) if d else 0)
            for y in coll:
                e = Ev_(self.env, dict(self.el, **{}))
                e.el[key] = y
                for c in a[2]:
                    good, err = True, None
                    for at, v in c:
                        try:
                            if e.a(at) != v:
                                good = False
                        except (KeyError, TypeError, AttributeError) as x:
                            err = x
                    if good and err:
                        raise err
                    if good:
                        return True
            return False
        raise Cannot(a)


def holds(conds, env, loopcol):
    """True / False / None (unknown) of a conjunction with witnesses."""
    lids = sorted({x[1] for a, v in conds for x in walk(a) if x[0] == 'elem'})
    unknown = False
    doms = []
    for l in lids:
        c = loopcol.get(l)
        try:
            doms.append(list(Ev_(env).t(c)) if c else KEYS + VALS)
        except Exception:
            doms.append(KEYS + VALS)
    for combo in itertools.product(*doms):
        ev = Ev_(env, dict(zip(lids, combo)))
        ok = True
        for a, v in conds:
            try:
                if ev.a(a) != v:
                    ok = False
                    break
            except Cannot:
                unknown = True
            except (KeyError, TypeError, AttributeError, IndexError):
                ok = False
                break
        if ok:
            return None if unknown else True
    return False


def agree(I, s, o, real, env):
    """Does the row's outcome match the real one?  True/False/None"""
    if o[0] == 'exc':
        return isinstance(real, Exception) and (o[1].name in (None, type(real).__name__))
    if isinstance(real, Exception):
        return False
    base = s.conds()
    if o[0] in ('ref', 'at') or o[0] == 'sym' and s.ops(o):
        kind = o[2] if o[0] == 'ref' else 'dict'
        res = True
        for k in KEYS + VALS[3:]:
            good = None
            if isinstance(real, dict):
                rows = [(s2, b, v) for s2, b, v in I.lookup(s, o, C(k))]
            else:
                rows = [(s2, b, None) for s2, b in I.member(s, C(k), o)]
            got = []
            for s2, b, v in rows:
                h = holds(list(s2.facts.items()) if False else s2.conds(), env, s2.loopcol)
                if h is False:
                    continue
                if b != (k in real):
                    g = False
                elif b and isinstance(real, dict):
                    try:
                        g = Ev_(env).t(v) == real[k]
                    except Cannot:
                        g = None
                    except Exception:
                        g = False
                else:
                    g = True
                got.append(g)
            if True in got:
                continue
            if None in got:
                res = None
                continue
            return False
        return res
    lids = sorted({x[1] for x in walk(o) if x[0] == 'elem'} | {x[1] for a, v in base for x in walk(a) if x[0] == 'elem'})
    doms = []
    for l in lids:
        try:
            doms.append(list(Ev_(env).t(s.loopcol[l])))
        except Exception:
            doms.append(KEYS + VALS)
    best = False
    for combo in itertools.product(*doms):
        ev = Ev_(env, dict(zip(lids, combo)))
        try:
            if ev.t(o) == real and type(ev.t(o)) == type(real):
                return True
        except Cannot:
            best = None
        except Exception:
            pass
    return best


def main():
    rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    names = [n for n in dir(subjects) if n[1] == '_' and callable(getattr(subjects, n))]
    if len(sys.argv) > 1 and sys.argv[1] != 'all':
        names = [sys.argv[1]]
    bad = 0
    for n in names:
        fn = getattr(subjects, n)
        ctx = Ctx('X')
        I = ctx.interp()
        f = ctx.repo.func('footprints:' + n) if False else next(x for x in ctx.repo.modules.values()).funcs[n] if hasattr(next(iter(ctx.repo.modules.values())), 'funcs') else ctx.repo.func('__init__:' + n)
        ps = [a.arg for a in f.node.args.args]
        try:
            rows = outcomes(I.run(f, {p: sym(p) for p in ps}, State()))
        except Exception as e:
            print('%-22s ENGINE %s %s' % (n, type(e).__name__, e))
            continue
        lost = unk = extra = 0
        for _ in range(150):
            env = {}
            for p in ps:
                if p in 'de':
                    env[p] = {k: rnd.choice(VALS) for k in KEYS if rnd.random() < .4}
                elif p in 'lm':
                    env[p] = [rnd.choice(KEYS) for _ in range(rnd.choice((0, 1, 2, 3)))]
                elif p == 'k':
                    env[p] = rnd.choice(KEYS)
                elif p == 'x':
                    env[p] = rnd.choice(VALS + KEYS)
                elif p == 'flag':
                    env[p] = rnd.random() < .5
            args = copy.deepcopy(env)
            try:
                real = fn(**args)
            except Exception as e:
                real = e
            res = []
            for s, o in rows:
                h = holds(s.conds(), env, s.loopcol)
                if h is False:
                    continue
                res.append(agree(I, s, o, real, env))
            if True in res:
                if False in res:
                    extra += 1
            elif None in res:
                unk += 1
            else:
                lost += 1
                if lost == 1:
                    first = (env, real, res)
        print('%-22s rows=%d%s%s%s' % (n, len(rows), ' LOST=%d' % lost if lost else '', ' unknown=%d' % unk if unk else '', ' ambiguous=%d' % extra if extra else ''))
        if lost:
            bad += 1
            print('      ', first)
    shutil.rmtree(tmp)
    print('lost paths in', bad)


if __name__ == "__main__": main()
