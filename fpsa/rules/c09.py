"""Registration of a class at its definition.

The metaclass constructor is interpreted on all its paths (Collector.add inlined): which loops go through the tags of the
class, what each of their iterations does to the collector of the tag, and which paths refuse the definition.
"""
from .common import *
from . import defining
from .defining import BODY, NAME

MINIMA = {'C09.register': 100, 'C09.refuse': 200, 'C09.trace': 200, 'C09.add': 4, 'C09.guard': 2}
ABSTRACT = C('_abstract')


def abstract(q):
    """Is the class being defined abstract?"""
    if not q(isin(ABSTRACT, BODY)):
        return False
    return q(truth(item(BODY, ABSTRACT)))


def iscollector(c, e):
    return c[0] == 'call' and c[1] == 'collectors:get' and dict(c[4]).get('tag') == e


def acts(evs):
    """What is done to collectors: [(kind, collector, what)]"""
    out = []
    for e in evs:
        if e.kind != 'call':
            continue
        a = e.args[0] if e.args else None
        if e.label == 'super.add':
            out.append(('add', e.recv, a))
        elif e.label == '.add' and e.recv[0] == 'attr' and e.recv[2] == 'abstract_classes':
            out.append(('abstract', e.recv[1], a))
        elif e.label == 'Collector.add':
            out.append(('?', e.recv, a))
        elif e.label == '.register' and e.recv[0] == 'call' and 'observer' in e.recv[1]:
            out.append(('observe', a, e.recv))
    return out


def added(rec):
    return any(acts(e.events()) for e in rec.edges)


def adding(e):
    return e.kind == 'loop' and added(e.label) or e.kind == 'call' and acts([e])


def check_register(ctx, D):
    rid, name = 'C09.register', D.f.qual
    for s, o in D.outs:
        if o[0] == 'exc':
            continue
        loops = [e.label for e in s.events() if e.kind == 'loop' and added(e.label)]
        direct = [x for x in acts(s.events())]
        ctx.need(rid, name, not direct, 'a class is added outside of the loop over its tags', D.where, taint=True)
        for rec in loops:
            c = strip_view(rec.coll) if rec.coll is not None else ('unk', 0)
            ctx.need(rid, name, c == attr(o, '_collector'), 'the class is added to the collectors of %s' % show(c), D.where, taint=c != attr(o, '_collector') and (c[0] == 'unk' or c[0] == 'call'))
        ctx.need(rid, name, len(loops) == 1 or any(a == truth(attr(o, '_collector')) and not v for a, v in s.facts.items()), 'the class is added by %d loops over its tags' % len(loops), D.where, taint=len(loops) > 1)
    for rec in D.I.loops.values():
        if rec.coll is None or not added(rec):
            continue
        E = ('elem', rec.lid)
        coll = strip_view(rec.coll)
        real = coll[1] if coll[0] == 'attr' else None
        for e in rec.edges:
            got = acts(e.events())
            facts = '; '.join(showfact(a, v) for a, v in e.conds)
            if e.kind != 'next':
                bad = e.kind != 'exc' or any(x.kind == 'raise' for x in e.events())
                ctx.need('C09.trace', name, not bad, 'the definition may be refused once the class has been added: when [%s]' % facts, D.where)
                continue
            keep = [g for g in got if g[0] != 'observe']
            ok = len(keep) == 1 and iscollector(keep[0][1], E) and keep[0][2] == real
            ctx.need(rid, name, ok, 'for one tag, the class gives %s when [%s]' % ([(k, show(c)[:60], show(x)) for k, c, x in keep], facts), D.where, taint=any(k == '?' for k, _, _ in keep))
            if not ok:
                continue
            kind, c, x = keep[0]
            obs = [g for g in got if g[0] == 'observe']

            def want(q):
                ab = abstract(q)
                return ab, (not ab) and q(truth(attr(c, 'register')))
            for s2, (ab, reg) in completions(e.st, want):
                extra = '; '.join(showfact(a, s2.facts[a]) for a in s2.facts if a not in e.st.facts)
                ctx.need(rid, name, kind == ('abstract' if ab else 'add'), 'an %s class is added to the %s classes when [%s; %s]' % ('abstract' if ab else 'ordinary', 'abstract' if kind == 'abstract' else 'ordinary', facts, extra), D.where)
                good = all(g[1] == c and observes(g[2], real) for g in obs) and (len(obs) == 1) == bool(reg)
                ctx.need(rid, name, good, 'the collector %s its instances announced when [%s; %s]' % ('asks to have' if obs else 'does not ask to have', facts, extra), D.where, taint=any(tainted(g[2]) for g in obs))


def observes(board, real):
    t = dict(board[4]).get('tag')
    return t is not None and t[0] == 'call' and t[1].endswith('.fullname') and t[2] == real


def clash(ctx, o, allk):
    """Some attribute or alias is named like a tag of the class."""
    f = ctx.repo.func('Collector.tag_clean')
    x = sym('$tag')
    I = ctx.interp(types={sym('cls'): ('type', 'Collector')})
    rs = returned(I.run(f, {'cls': sym('cls'), 'tag': x}, State()))
    clean = lambda b: subst_deep(rs[0][1], lambda t: b if t == x else None)
    return lambda: exists(attr(o, '_collector'), lambda b: [[(isin(clean(b), allk), True)], [(isin(b, allk), True)]])


def somemandatory(a):
    """Some attribute of the footprint of the class is not optional."""
    if a[0] == 'truth' and a[1][0] == 'call' and a[1][1] == 'Footprint.mandatory':
        return True
    return a[0] == 'exists' and a[1][0] == 'item' and a[1][2] == C('attr') and all(len(c) == 1 and all(not v and k[0] == 'truth' and k[1][0] == 'item' and k[1][2] == C('optional') for k, v in c) for c in a[2])


def tagged(a, real):
    """A predicate about the tags of the class."""
    return a[0] in ('exists', 'in') and mentions(a, lambda x: x == attr(real, '_collector') or x[0] == 'elem')


def check_refuse(ctx, D):
    rid, name = 'C09.refuse', D.f.qual
    n = named = 0
    for s, o in D.outs:
        # the class that has been made, and the keys of its footprint
        evs = s.events()
        if o[0] == 'exc':
            before = [e for e in evs if adding(e)]
            src = [e for e in evs if e.kind == 'raise']
            if not src and o[1].name != 'FootprintInvalidDefinition':
                continue
            ctx.need('C09.trace', name, not before, 'the definition is refused once the class has been added to a collector', D.where)
            if o[1].name != 'FootprintInvalidDefinition':
                continue
        reals = [e.recv for e in evs if e.kind == 'call' and e.label.endswith('footprint_mandatory')]
        real = o if o[0] != 'exc' else (reals[0] if reals else None)
        if real is None:
            for a in s.facts:
                mentions(a, lambda x: x[0] == 'attr' and x[2] in ('_collector', '_explicit') and reals.append(x[1]) and False)
            real = reals[0] if reals else None
        allks = []
        for a in list(s.facts) + [a for e in evs if e.kind == 'loop' for ed in e.label.edges for a, _ in ed.conds]:
            allks += [x for x in walk(a) if x[0] == 'call' and x[1] == 'Footprint.allkeys']
        if real is None:
            ctx.need(rid, name, False, 'the definition is refused when [%s]' % '; '.join(showfact(a, v) for a, v in s.conds()), D.where, taint=True)
            continue
        ex = clash(ctx, real, unver(allks[0])) if allks else None

        def want(q):
            if not abstract(q) and q(truth(attr(real, '_explicit'))):
                mand = [a for a in s.facts if a[0] == 'truth' and a[1][0] == 'call' and a[1][1].endswith('footprint_mandatory') and a[1][2] == real or somemandatory(a)]
                if not q(mand[0] if mand else truth(call('.footprint_mandatory', real))):
                    return 'refused'
            if ex is None:
                return 'unchecked' if any(tagged(a, real) for a in s.facts) else 'accepted'
            return 'refused' if q(ex()) else 'accepted'
        got = 'refused' if o[0] == 'exc' else 'accepted'
        if ex is None and got == 'accepted':
            empty = any(a == truth(attr(real, '_collector')) and not v for a, v in s.facts.items())
            ctx.need(rid, name, empty or any(tagged(a, real) for a in s.facts), 'the definition is accepted without comparing its tags with its attributes when [%s]' % '; '.join(showfact(a, v) for a, v in s.conds()), D.where)
        elems = [c for a in s.facts for c in [a] if a[0] == 'in' and a[1][0] == 'elem' and a[2] == attr(real, '_collector')]
        if got == 'refused' and not any(not v and (a[0] == 'truth' and a[1][0] == 'call' and a[1][1].endswith('footprint_mandatory') or somemandatory(a)) for a, v in s.facts.items()):
            named += 1
        for s2, w in completions(s, want):
            if w == 'unchecked' and got == 'refused':
                w = 'refused'
            facts = '; '.join(showfact(a, v) for a, v in s.conds()) + '; ' + '; '.join(showfact(a, s2.facts[a]) for a in s2.facts if a not in s.facts)
            n += 1
            if got == 'refused' and w == 'accepted' and any(e.kind == 'loop' for e in evs[-3:]) and elems:
                # refused on one tag: the clash is that of this tag
                k = elems[0][1]
                if any(v and a[0] == 'in' and mentions(a[1], lambda x: x == k) and a[2][0] == 'call' and a[2][1] == 'Footprint.allkeys' for a, v in s.facts.items()):
                    ctx.ok(rid, name)
                    continue
            ctx.need(rid, name, got == w, 'the definition is %s, it must be %s, when [%s]' % (got, w, facts), D.where, taint=any(tainted(hide(a, {real})) for a in s.facts if a[0] != 'in'))
    ctx.need(rid, name, named > 0, 'no definition is refused because an attribute or an alias is named like a tag', D.where)


def check_add(ctx):
    """What the option given by the definition means for the collector."""
    rid = 'C09.add'
    f = ctx.repo.func('Collector.add')
    kl = sym('kl')
    I = ctx.interp(types={SELF: ('inst', 'Collector'), kl: ('type', 'FootprintBase')}, opaque={'Collector._upd_fasttrack_index'})
    st = State()
    kw = I.alloc(st, 'dict')
    st.push(kw, ('set', C('abstract'), sym('abs')))
    for given in (True, False):
        st2 = st.copy()
        k = kw
        if not given:
            st2, k = State(), None
            k = I.alloc(st2, 'dict')
        _, rows = execute(ctx, I, f.qual, {'self': SELF, 'items': tup(kl), 'kwargs': k}, st2)
        for s, o in outcomes(rows):
            if o[0] == 'exc':
                ctx.need(rid, f.qual, False, 'raises %s' % o[1], f.where(), taint=o[1].name is None)
                continue
            got = [(a, c, x) for a, c, x in acts(s.events())]
            for s2, ab in completions(s, lambda q: given and q(truth(sym('abs')))):
                w = [('abstract' if ab else 'add', SELF, kl)]
                ctx.need(rid, f.qual, got == w, 'an %s class gives %s' % ('abstract' if ab else 'ordinary', [(a, show(c), show(x)) for a, c, x in got]), f.where())
    f = ctx.repo.func('Collector.__init__')
    kws = sym('kw')
    I = ctx.interp(types={SELF: ('inst', 'Collector')})
    for s, o in outcomes(I.run(f, {'self': SELF, 'kw': kws}, State())):
        v = s.attrs.get((SELF, 'abstract_classes'))
        ctx.need(rid, f.qual, v is not None and v != attr(SELF, '_items') and v != s.attrs.get((SELF, 'instances')), 'the abstract classes have no catalog of their own', f.where())


def check_guard(ctx):
    rid = 'C09.guard'
    f = ctx.repo.func('FootprintBase.__init__')
    ab = attr(SELF, '_abstract')
    I = ctx.interp(types={SELF: ('inst', 'FootprintBase')}, opaque={'Footprint.resolve', 'FootprintBase.footprint_riseup'})
    st = State()
    kw = I.alloc(st, 'dict')
    st.push(kw, ('upd', sym('KW')))
    for s, o in outcomes(I.run(f, {'self': SELF, 'args': sym('args'), 'kw': kw}, st)):
        for s2, a in completions(s, lambda q: q(truth(ab))):
            facts = '; '.join(showfact(x, v) for x, v in s.conds())
            if a:
                done = [e for e in s.events() if e.kind == 'call' and e.label in ('Footprint.resolve', 'FootprintBase.footprint_riseup')]
                ctx.need(rid, f.qual, o[0] == 'exc' and o[1].name == 'FootprintInvalidDefinition' and not done, 'an abstract class is instantiated when [%s]' % facts, f.where())
            else:
                ctx.need(rid, f.qual, not (o[0] == 'exc' and o[1].name == 'FootprintInvalidDefinition' and o[1].call is None), 'a concrete class is refused when [%s]' % facts, f.where())


def run(ctx):
    ctx.rule('C09.register', 'each tag of an accepted class: added once to the collector of the tag (or to its abstract classes), which is told of its future instances if it wants to')
    ctx.rule('C09.refuse', 'a definition is refused iff it is explicit, concrete and without mandatory attribute, or if an attribute or alias is named like a tag')
    ctx.rule('C09.trace', 'no definition is refused once a collector knows the class')
    ctx.rule('C09.add', 'an abstract class is only added to the abstract classes, another one only to the classes of the collector')
    ctx.rule('C09.guard', 'an abstract class cannot be instantiated')

    def go():
        D = defining.Define(ctx, docstrings=False)
        ctx.short += [('new Footprint(star(list#15), myclsname=n)', 'FP')]
        check_register(ctx, D)
        check_refuse(ctx, D)
    ctx.guard('C09.register', 'FootprintBaseMeta.__new__', go)
    ctx.guard('C09.add', 'Collector.add', lambda: check_add(ctx))
    ctx.guard('C09.guard', 'FootprintBase.__init__', lambda: check_guard(ctx))
