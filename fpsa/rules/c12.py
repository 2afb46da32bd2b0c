"""What assigning a writable attribute stores, or refuses.

The __set__ operation of each descriptor class with a writable access mode is interpreted with the storage methods of the
object inlined; on each path what is written in the storage (exactly one entry, or nothing) is compared with the value
required from the declared type, constructor arguments, values and outcast.
"""
from .storing import *
from . import c01

MINIMA = {'C12.store': 60, 'C12.in_values': 3}
HANDLED = ('ValueError', 'TypeError')


def conversion(s, terms):
    """The conversion of the value by the declared type with the declared constructor arguments on this path."""
    declt = {('getd', FPD, C('type'), ('builtin', 'str')), item(FPD, 'type'), ('builtin', 'str')}
    found, other = [], []

    def look(x):
        isstr = x[0] == 'call' and x[1] == 'str' and x[2] is None and ('builtin', 'str') == s.norm(('getd', FPD, C('type'), ('builtin', 'str')))
        if (isstr or x[0] == 'call' and x[1] == 'apply' and s.norm(x[2]) in {s.norm(d) for d in declt}) and x[3] == (VALUE,):
            extra = [v for n, v in x[4] if n == '**']
            ok = len(extra) == len(x[4]) and len(extra) <= 1
            if ok and extra and extra[0][0] != 'ref':
                ok = mentions(extra[0], lambda y: y[0] in ('getd', 'item') and y[1] == FPD and y[2] == C('args'))
            elif ok:        # no argument: only where none is declared
                ok = any(mentions(f, lambda y: y[0] in ('getd', 'item', 'in') and C('args') in y and FPD in y) for f in s.facts)
            (found if ok else other).append(x)
        return False
    for t in terms:
        mentions(t, look)
    return found[0] if found else None


def check(ctx, mode, cls):
    m = ctx.repo.find_method(cls, '__set__')
    name = '%s.__set__' % cls.name
    weak = mode.endswith('-weak')
    m, I, rows = run_op(ctx, cls, '__set__', {'value': VALUE})
    declt = ('getd', FPD, C('type'), ('builtin', 'str'))
    for s, ch, o in rows:
        exc = o[1] if o[0] == 'exc' else None
        if exc is not None and exc.call is not None and exc.call[1] in ('Footprint.in_values', 'weakref.proxy'):
            ctx.need('C12.store', name, not ch, 'a refused assignment writes %s' % showchanges(ch), m.where())
            continue
        terms = list(s.facts) + [x for _, op in ch for x in op if isinstance(x, tuple)] + ([exc.call] if exc is not None and exc.call is not None else [])

        def want(q):
            if q(truth(('getd', FPD, C('isclass'), FALSE))):
                if not q(isinst(VALUE, ('builtin', 'type'))) or not q(issub(VALUE, declt)):
                    return 'ValueError'
                w = VALUE
            elif q(isinst(VALUE, declt)) or q(isnone(VALUE)):
                w = VALUE
            else:
                w = conversion(s, terms)
                if w is None:
                    return 'converted'
                if q(raises(w)):
                    if exc is not None and exc.call == w:
                        f = {n: v for a, v in q.st.facts.items() if a[0] == 'exctype' and a[1] == w for n in a[2] if v is False or len(a[2]) == 1}
                        return 'other' if all(f.get(n) is False for n in HANDLED) else 'ValueError'
                    return 'ValueError'
            iv = lambda v: truth(call('Footprint.in_values', attr(OBJ, '_footprint'), item=w, values=v))
            if q(truth(item(FPD, 'values'))) and not q(iv(item(FPD, 'values'))):
                return 'ValueError'
            if q(truth(item(FPD, 'outcast'))) and q(iv(item(FPD, 'outcast'))):
                return 'ValueError'
            if weak and not q(isnone(w)) and not q(isinst(w, ('ext', 'weakref.ProxyTypes'))):
                w = call('weakref.proxy', None, w)
            return w
        for s2, w in completions(s, want):
            facts = '; '.join(showfact(a, v) for a, v in s2.conds()) + ' / ' + '; '.join(showfact(a, s2.facts[a]) for a in s2.facts if a not in s.facts)
            tnt = any(tainted(x) for x in terms)
            if w == 'ValueError':
                ok = not ch and exc is not None and exc.name is not None and exc_isa(exc.name, 'ValueError')
                msg = 'must be refused with a ValueError, nothing being stored'
            elif w == 'other':
                ok, msg = not ch, 'must leave the attribute as it was'
            elif w == 'converted':
                ok, msg = False, 'must convert the value with the declared type and constructor arguments'
            else:
                ok = exc is None and len(ch) == 1 and ch[0][0] == STORE and ch[0][1][0] == 'set' and ch[0][1][1] == NAME and same(s2, ch[0][1][2], w)
                msg = 'must store %s' % show(w)
            ctx.need('C12.store', name, ok, '%s: when [%s] stores %s%s' % (msg, facts, showchanges(ch), ', raises %s' % exc if exc else ''), m.where(), taint=tnt)


def run(ctx):
    ctx.rule('C12.store', 'an assignment stores exactly the validated (converted, proxied) value under the name of the attribute, or raises ValueError and stores nothing')
    ctx.rule('C12.in_values', 'in_values(item, values) holds iff the item is in values or equal to one of them')
    ds = descriptors(ctx)
    for mode in MODES:
        if mode.startswith('rw'):
            ctx.need('C12.store', 'access mode ' + mode, mode in ds, 'no descriptor for this access mode', 'src/footprints/access.py')
            if mode in ds:
                ctx.guard('C12.store', '%s.__set__' % ds[mode].name, lambda m=mode: check(ctx, m, ds[m]))
    c01.in_values_table(ctx, 'C12.in_values')
