#!/usr/bin/env python3
"""Development aid: prints the decision table of one function.  dump.py Qual [--opaque=a,b] [--memo=Class] [--inst=self:Class,...] [--open=desc] [--loops]"""
import os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from fpsa.rules.common import *
ctx = Ctx('X')
qual = sys.argv[1]
opt = {a[2:].split('=')[0]: (a.split('=', 1)[1] if '=' in a else True) for a in sys.argv[2:]}
types = {sym(x.split(':')[0]): ('inst', x.split(':')[1]) for x in opt.get('inst', '').split(',') if x}
f = ctx.repo.func(qual)
cls = qual.split('.')[0]
if 'inst' not in opt and '.' in qual and 'self' in [a.arg for a in f.node.args.args]:
    types[SELF] = ('inst', cls)
if '.' in qual and 'cls' in [a.arg for a in f.node.args.args]:
    types[sym('cls')] = ('type', cls)
I = ctx.interp(types=types, open_dicts=[sym(x) for x in opt.get('open', '').split(',') if x], opaque=set(x for x in opt.get('opaque', '').split(',') if x))
st = memo_state(ctx, opt['memo']) if 'memo' in opt else State()
args = {a.arg: sym(a.arg) for a in f.node.args.args + f.node.args.kwonlyargs}
for extra in (f.node.args.vararg, f.node.args.kwarg):
    if extra:
        args[extra.arg] = sym(extra.arg)
rows = I.run(f, args, st)
print(len(rows), 'rows')
lim = int(opt.get('n', 12))
for s, o in rows[:lim]:
    print('->', o[0], showgot(o[1]) if o[0] == 'ret' else o[1])
    for a, v in s.conds():
        print('      ', showfact(a, v)[:250])
    if 'ev' in opt:
        for e in s.events() if hasattr(s, 'events') else []:
            print('      ev', e)
if 'loops' in opt:
    for r in I.loops.values():
        print('LOOP', r.lid, r.line, r.kind, show(r.coll) if r.coll else None)
        for e in r.edges:
            print('   edge', e.kind, [showfact(a, v)[:120] for a, v in e.conds], 'EV', ['%s(%s)' % (x.label, ','.join(showgot(a) for a in x.args) + ','.join('%s=%s' % (k, showgot(v)) for k, v in x.kw)) for x in e.events() if x.kind == 'call'][:6], e.value if e.kind == 'ret' else '')
