"""Membership of a collector, its filters, and the operations based on them.

The filters are reduced to the condition under which a generic collected class is listed; the discards and the level reset
are loops whose every iteration must act on the element of the filter of the same name; a who-may-call analysis of the
package shows that nothing else takes classes out of a collector.
"""
from .searching import *

MINIMA = {'C08.filter': 4, 'C08.discard': 4, 'C08.reset': 1, 'C08.member': 4, 'C08.leave': 3}
TOP = ('glob', 'footprints.priorities', 'top')


def level_of(cl):
    return item(item(attr(attr(cl, '_footprint'), '_fp'), 'priority'), 'level')


def check_filter(ctx, name, params, want):
    f = ctx.repo.func('Collector.' + name)

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        args = dict({'self': SELF}, **{a: sym(a) for a in params})
        _, rows = execute(ctx, I, f.qual, args)
        n = 0
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need('C08.filter', f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            n += 1
            check_seq(ctx, 'C08.filter', f.qual, I, s, o, ITEMS, want, f.where())
        ctx.need('C08.filter', f.qual, n > 0, 'never gives anything', f.where())
    ctx.guard('C08.filter', f.qual, go)


def check_default(ctx, rid, name, param, value):
    """What is asked for when nothing is said."""
    f = ctx.repo.func('Collector.' + name)
    a = f.node.args
    given = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    given.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = given.get(param)
    if isinstance(d, ast.Constant):
        ctx.need(rid, f.qual, d.value is value, 'looks for %r when nothing is said' % d.value, f.where())


def check_discard(ctx, name, filt, params, pick):
    f = ctx.repo.func('Collector.' + name)
    rid = 'C08.discard'

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.' + filt, 'Collector.discard'})
        args = {'self': SELF}
        for a in f.node.args.args[1:]:
            args[a.arg] = sym(a.arg)
        _, rows = execute(ctx, I, f.qual, args)
        want = {a: sym(a) for a in params}
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            evs = s.events()
            direct = [e for e in evs if e.kind == 'call' and e.label == 'Collector.discard' and not any(mentions(v, lambda x: x[0] == 'elem') for _, v in e.kw)]
            ctx.need(rid, f.qual, not direct, 'discards %s' % [show(v) for e in direct for _, v in e.kw], f.where(), taint=any(tainted(v) for e in direct for _, v in e.kw))
            good = 0
            for e in evs:
                if e.kind != 'loop' or e.label.coll is None:
                    continue
                rec, coll = e.label, strip_view(e.label.coll)
                acts = [x for ed in rec.edges for x in ed.events() if x.kind == 'call' and x.label == 'Collector.discard']
                if not acts:
                    continue
                good += 1
                if coll == ITEMS:
                    # the filter is written here
                    for ed in rec.edges:
                        mine = [x for x in ed.events() if x.kind == 'call' and x.label == 'Collector.discard']
                        good_ = all(x.recv == SELF and ('elem', rec.lid) in list(x.args) + [v for _, v in x.kw] for x in mine)
                        picked(ctx, rid, f, rec, ed, pick, bool(mine) and good_, 'discarded')
                    continue
                isf = coll[0] == 'call' and coll[1] == 'Collector.' + filt and coll[2] == SELF
                ctx.need(rid, f.qual, isf, 'acts on %s instead of %s' % (show(coll), filt), f.where(), taint=tainted(coll))
                if isf:
                    ctx.need(rid, f.qual, dict(coll[4]) == want or coll[3] == tuple(want.values()), 'filters with %s' % (show(coll),), f.where())
                for ed in rec.edges:
                    mine = [x for x in ed.events() if x.kind == 'call' and x.label == 'Collector.discard' and x.recv == SELF and ('elem', rec.lid) in list(x.args) + [v for _, v in x.kw]]
                    others = [x for x in ed.events() if x.kind == 'call' and x.label == 'Collector.discard' and x not in mine]
                    ctx.need(rid, f.qual, ed.kind == 'next' and mine and not others, 'a filtered class is not discarded when [%s]' % '; '.join(showfact(a, v) for a, v in ed.conds), f.where(),
                             taint=any(tainted(a) for a, v in ed.conds))
            empty = any(a[0] == 'truth' and not v and a[1][0] == 'call' and a[1][1] == 'Collector.' + filt for a, v in s.facts.items())
            ctx.need(rid, f.qual, good == 1 or empty, 'the filtered classes are not discarded', f.where(), taint=good > 1)
    ctx.guard(rid, f.qual, go)


def picked(ctx, rid, f, rec, ed, pick, done, what):
    """An iteration over the classes acts on the class iff the filter keeps it."""
    E = ('elem', rec.lid)
    sw = lambda t: subst_deep(t, lambda x: E0 if x == E else None)
    st = State()
    for a, v in ed.st.facts.items():
        st = st.assume(sw(a), v) if st is not None else None
    if st is None:
        ctx.undec(rid, f.qual, 'conditions on a class')
        return
    facts = '; '.join(showfact(a, v) for a, v in ed.conds)
    for s2, w in completions(st, pick):
        if isinstance(w, list):
            ctx.need(rid, f.qual, ed.kind == 'next' and done == (w == [E0]), 'a class is %s%s when [%s]' % ('' if done else 'not ', what, facts), f.where(), taint=any(tainted(a) for a, v in ed.conds))


def check_reset(ctx, pick):
    f = ctx.repo.func('Collector.reset_package_level')
    rid = 'C08.reset'

    def go():
        I = ctx.interp(types={SELF: ('inst', 'Collector')}, opaque={'Collector.filter_package'})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'packname': sym('packname'), 'tag': sym('tag')})
        lvl = call('.level', TOP, sym('tag'))
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % (o[1],), f.where(), taint=o[1].name is None)
                continue
            done = 0
            for e in s.events():
                if e.kind != 'loop' or e.label.coll is None:
                    continue
                rec = e.label
                coll = strip_view(rec.coll)
                written = coll == ITEMS         # the filter is written here
                if not written and not (coll[0] == 'call' and coll[1] == 'Collector.filter_package' and coll[2] == SELF and (dict(coll[4]) == {'packname': sym('packname')} or coll[3] == (sym('packname'),))):
                    ctx.need(rid, f.qual, False, 'acts on %s' % show(coll), f.where(), taint=tainted(coll))
                    continue
                done += 1
                pr = item(attr(attr(('elem', rec.lid), '_footprint'), '_fp'), 'priority')
                for ed in rec.edges:
                    ops = [op for b, op in set_ops(I, rec, ed) if is_prio(b, ('elem', rec.lid))]
                    lv = [op for op in ops if op[0] == 'set' and op[1] == C('level')]
                    ok = ed.kind == 'next' and lv and unver(lv[-1][2]) == lvl and len(ops) == len(lv)
                    if written:
                        picked(ctx, rid, f, rec, ed, pick, bool(ops), 'given the level')
                        if not ops and ed.kind == 'next':
                            continue
                    ctx.need(rid, f.qual, ok, 'the level of a class of the package becomes %s' % ([show(x[2]) for x in lv] or 'nothing'), f.where(), taint=any(tainted(x[2]) for x in lv))
            ctx.need(rid, f.qual, done == 1, 'the classes of the package are not gone through', f.where(), taint=done > 1)
    ctx.guard(rid, f.qual, go)


def set_ops(I, rec, ed):
    for b in ed.st.heap:
        for op in rec.delta(ed, b):
            yield b, op


def is_prio(b, cl):
    """The priority part of the footprint of the class."""
    return b[0] == 'item' and b[2] == C('priority') and mentions(b, lambda x: x == cl) or \
        b[0] == 'attr' and b[2] == 'priority' and mentions(b, lambda x: x == cl)


REMOVERS = {'discard', 'pop', 'clear', 'remove', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
LEAVING = {'discard', 'pop', 'clear', 'discard_package', 'discard_onflag', 'discard_higher_level', 'discard_lower_level'}


def check_leave(ctx):
    """Which methods of Collector may take classes out of the catalog (transitively), and whether anybody else does."""
    rid = 'C08.leave'
    cls = ctx.repo.cls('Collector')
    direct, calls = {}, {}
    for name, m in cls.methods.items():
        direct[name], calls[name] = [], set()
        me = m.node.args.args[0].arg if m.node.args.args else None
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                r = n.func.value
                own = isinstance(r, ast.Name) and r.id == me
                sup = isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'super' or (isinstance(r, ast.Name) and r.id == 'Catalog')
                items = isinstance(r, ast.Attribute) and r.attr == '_items' and isinstance(r.value, ast.Name) and r.value.id == me
                if own:
                    calls[name].add(n.func.attr)
                if (sup or items) and n.func.attr in REMOVERS:
                    direct[name].append(n.lineno)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Attribute) and t.attr in ('_items', 'weak', '_weak') and isinstance(t.value, ast.Name) and t.value.id == me:
                        direct[name].append(n.lineno)
    inherited = {'discard', 'pop', 'clear'}
    for name in cls.methods:
        reach, work = set(), [name]
        while work:
            x = work.pop()
            if x in reach:
                continue
            reach.add(x)
            work.extend(calls.get(x, ()))
        hit = [(x, l) for x in reach for l in direct.get(x, ())] or [(x, 0) for x in reach & inherited if x not in cls.methods]
        if name.startswith('_') and name != '__init__':
            continue            # private helpers count through their callers
        ok = not hit or name in LEAVING
        if name == '__init__' and hit:
            ok = False
        ctx.need(rid, 'Collector.' + name, ok, 'takes classes out of the catalog (through %s)' % ', '.join('%s line %s' % h for h in hit), 'src/footprints/collectors.py:%s' % cls.methods[name].node.lineno)
    # elsewhere in the package: no removal from a catalog of classes
    for f in ctx.repo.all_funcs():
        if f.cls is cls:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ('_items', 'weak') and not (isinstance(n.value, ast.Name) and n.value.id == 'self') and f.module.short != 'doc':
                ctx.need(rid, f.qual, False, 'reaches into the catalog of classes', f.where(n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LEAVING - {'pop', 'clear', 'discard'}:
                ctx.need(rid, f.qual, False, 'discards classes', f.where(n.lineno))
        ctx.ok(rid, 'rest of the package', 1)


def check_member(ctx):
    """A collector keeps strong references to its classes."""
    rid = 'C08.member'
    f = ctx.repo.func('Collector.__init__')

    def go():
        kws = sym('kw')
        I = ctx.interp(types={SELF: ('inst', 'Collector')})
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'kw': kws})
        for s, o in outcomes(rows):
            ini = [e for e in s.events() if e.kind == 'call' and ('Catalog' in str(e.label)) and '__init__' in str(e.label)]
            ctx.need(rid, f.qual, bool(ini), 'the catalog of classes is not initialised', f.where(), taint=o[0] == 'exc')
            for e in ini:
                ctx.need(rid, f.qual, dict(e.kw).get('weak', FALSE) == FALSE, 'the classes are weakly referenced', f.where())
    ctx.guard(rid, f.qual, go)
    for name in ('__contains__', '__iter__', 'items', '__len__', '__call__'):
        m = ctx.repo.cls('Collector').methods.get(name)
        ctx.need(rid, 'Collector.' + name, m is None, 'the catalog protocol is redefined', f.where(), taint=True)


def run(ctx):
    ctx.rule('C08.filter', 'a filter lists exactly the collected classes satisfying its criterion')
    ctx.rule('C08.discard', 'a discard operation discards exactly the classes listed by the filter of the same name')
    ctx.rule('C08.reset', 'resetting a package gives the level to exactly the classes of that package')
    ctx.rule('C08.leave', 'only the discard operations, pop and clear can take a class out of a collector')
    ctx.rule('C08.member', 'collected classes are strongly referenced')
    p, fm, dft, tag = sym('packname'), sym('flagmethod'), sym('default'), sym('tag')
    lvl = call('.level', TOP, tag)

    def onflag(q):
        if not q(has(E0, fm)):
            return []
        method = call('getattr', None, E0, fm)
        if isnone(method) in q.st.facts and q(isnone(method)):
            return None        # cannot be called
        return [E0] if q(mk_eq(call('apply', method), dft)) else []
    wants = {'filter_package': check_package(ctx, p), 'filter_onflag': onflag,
             'filter_higher_level': lambda q: [E0] if not q(lt(level_of(E0), lvl)) else [],
             'filter_lower_level': lambda q: [E0] if q(lt(level_of(E0), lvl)) else []}
    check_filter(ctx, 'filter_package', ('packname',), wants['filter_package'])
    check_filter(ctx, 'filter_onflag', ('flagmethod', 'default'), wants['filter_onflag'])
    check_filter(ctx, 'filter_higher_level', ('tag',), wants['filter_higher_level'])
    check_filter(ctx, 'filter_lower_level', ('tag',), wants['filter_lower_level'])
    for n in ('filter_onflag', 'discard_onflag'):
        check_default(ctx, 'C08.filter', n, 'default', True)
    check_discard(ctx, 'discard_package', 'filter_package', ('packname',), wants['filter_package'])
    check_discard(ctx, 'discard_onflag', 'filter_onflag', ('flagmethod', 'default'), wants['filter_onflag'])
    check_discard(ctx, 'discard_higher_level', 'filter_higher_level', ('tag',), wants['filter_higher_level'])
    check_discard(ctx, 'discard_lower_level', 'filter_lower_level', ('tag',), wants['filter_lower_level'])
    check_reset(ctx, wants['filter_package'])
    ctx.guard('C08.leave', 'Collector', lambda: check_leave(ctx))
    check_member(ctx)


def check_package(ctx, p):
    """The test on the name is the one made by the code; only its operands are judged."""
    I = ctx.interp(types={SELF: ('inst', 'Collector'), sym('cl'): ('type', 'FootprintBase')})
    names = [v for _, v in returned(I.run(ctx.repo.func('FootprintBase.fullname'), {'cls': E0}, State()))]
    test = truth(call('.startswith', names[0], p)) if len(names) == 1 else None
    alts = []
    for n in names:
        alts += [truth(call('.startswith', n, p)), truth(call('.startswith', call('str', None, n), p))]
    full = show(names[0]) if names else ''
    ctx.need('C08.filter', 'FootprintBase.fullname', mentions(tuple(names), lambda x: x == attr(E0, '__module__')) and mentions(tuple(names), lambda x: x == attr(E0, '__name__')),
             'the full name of a class is %s' % full, 'src/footprints/__init__.py', taint=any(tainted(n) for n in names))

    def want(q):
        for a in alts:
            if a in q.st.facts:
                return [E0] if q(a) else []
        return [E0] if q(alts[0]) else []
    return want
