"""Objects built by hand are resolved like those that are searched.

The constructor of footprint-based objects is followed on all its paths with a generic set of arguments: what is resolved is looked
up key by key and compared with what the arguments say; what the object keeps is the result of that resolution, or the arguments
themselves when they are said to be resolved already.
"""
from .common import *

TECHNIQUE = 'static analysis: path-sensitive symbolic execution of the constructor with generic arguments; key-by-key decision table of what is resolved and kept'
MINIMA = {'C35.given': 12, 'C35.kept': 4, 'C35.fatal': 2, 'C35.intact': 4, 'C35.order': 4}
A1, A2, KWS = sym('first'), sym('second'), sym('KW')
INIT = 'FootprintBase.__init__'


def run(ctx):
    ctx.rule('C35.given', 'what is resolved (or kept, when it is said to be resolved) is made of the dictionaries given, in order, then of the keywords other than `checked`')
    ctx.rule('C35.kept', 'the attributes of the object are those the footprint of its class resolves, once, or the ones given when they are said to be resolved')
    ctx.rule('C35.fatal', 'the resolution is fatal: it fails when an attribute has no acceptable value')
    ctx.rule('C35.intact', 'the objects given as arguments are not changed')
    ctx.rule('C35.order', 'the object is ready when it is announced')
    f = ctx.repo.func(INIT)
    CHK = C('checked')
    ab = attr(SELF, '_abstract')

    def go():
        I = ctx.interp(types={SELF: ('inst', 'FootprintBase')}, opaque={'Footprint.resolve', 'FootprintBase.footprint_riseup'})
        st = State()
        kw = I.alloc(st, 'dict')
        st.push(kw, ('upd', KWS))
        for s, o in outcomes(I.run(f, {'self': SELF, 'args': ('tup', (A1, A2)), 'kw': kw}, st)):
            if s.decide(truth(ab)) is True:
                continue
            cond = '; '.join(showfact(a, v) for a, v in s.conds())
            if o[0] == 'exc':
                ctx.need('C35.kept', f.qual, o[1].name == 'FootprintInvalidDefinition' or o[1].call is not None, 'fails with %s when [%s]' % (o[1], cond), f.where(), taint=o[1].name is None)
                continue
            kept = s.attrs.get((SELF, '_attributes'))
            evs = [e for e in s.events() if e.kind in ('call', 'setattr')]
            asked = [e for e in evs if e.kind == 'call' and e.label == 'Footprint.resolve']

            def want(q):
                return 'kept' if q(isin(CHK, KWS)) and q(truth(item(KWS, CHK))) else 'resolved'
            for s2, w in completions(s, want):
                if w == 'resolved':
                    ok = len(asked) == 1 and kept is not None and unver(kept) == unver(item(asked[0].res, C(0)))
                    ctx.need('C35.kept', f.qual, ok, 'the attributes are %s (%d resolution(s)) when [%s]' % (show(kept) if kept else None, len(asked), cond), f.where(), taint=kept is not None and tainted(kept))
                    if not ok:
                        continue
                    fp = asked[0].recv
                    ctx.need('C35.kept', f.qual, fp in (attr(SELF, '_footprint'), attr(attr(SELF, '__class__'), '_footprint')), 'the footprint of the resolution is %s' % show(fp), f.where(), taint=tainted(fp))
                    k = dict(asked[0].kw)
                    ctx.need('C35.fatal', f.qual, k.get('fatal') == TRUE, 'the resolution is made with fatal=%s when [%s]' % (show(k['fatal']) if 'fatal' in k else 'the setting', cond), f.where(), taint='fatal' in k and tainted(k['fatal']) or '**' in k)
                    given = k.get('desc')
                else:
                    ctx.need('C35.kept', f.qual, not asked, 'attributes said to be resolved are resolved again when [%s]' % cond, f.where())
                    given = kept
                if given is None:
                    ctx.need('C35.given', f.qual, False, 'nothing is kept when [%s]' % cond, f.where())
                    continue
                s3 = s2.assume(mk_eq(K, CHK), False, False)
                for s4, has, v in I.lookup(s3 if s3 is not None else s2, given, K):
                    def held(q):
                        if q(isin(K, KWS)):
                            return item(KWS, K)
                        for a in (A2, A1):
                            if q(('isinstance', a, ('builtin', 'dict'))) and q(isin(K, a)):
                                return item(a, K)
                        return ('absent',)
                    ctx.conform('C35.given', f.qual, [(s4, v if has else ('absent',))], held, f.where())
                for s4, has, v in I.lookup(s2, given, CHK):
                    others = any(s4.decide(isin(CHK, a)) is not False and s4.decide(('isinstance', a, ('builtin', 'dict'))) is not False for a in (A1, A2))
                    ctx.need('C35.given', f.qual, not has or others and v != item(KWS, CHK), 'the option `checked` is taken for an attribute when [%s]' % cond, f.where(), taint=has and tainted(v))
            bad = [(b, op) for b, op in changes(s) if b in (A1, A2, KWS)]
            ctx.need('C35.intact', f.qual, not bad, 'changes %s' % showchanges(bad), f.where())
            when = [i for i, e in enumerate(evs) if e.kind == 'call' and e.label.endswith(('footprint_riseup', 'notify_new'))]
            late = [e for i, e in enumerate(evs) if when and i > when[0] and (e.kind == 'setattr' and e.label == '_attributes' or e in asked)]
            ctx.need('C35.order', f.qual, len(when) == 1 and not late, 'the object is announced %d time(s)%s' % (len(when), ', before its attributes are there' if late else ''), f.where())
    ctx.guard('C35.given', f.qual, go)
