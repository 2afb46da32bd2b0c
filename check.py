#!/usr/bin/env python3
"""check.py <property> : decides one property from /repo's current source (static analysis, nothing is executed)."""
import importlib
import json
import os
import resource
import signal
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':         # the order in which sets are gone through must not depend on the run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from fpsa.spec import Ctx, REPO            # noqa: E402
from fpsa.repo import AnalysisBroken       # noqa: E402
from fpsa.interp import Budget             # noqa: E402

FIRST, THEN = 420, 40       # seconds for the whole check, then for each rule instance that is left


def late(*_):
    signal.alarm(THEN)
    raise Budget('time')


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                pid, key = l[len('finding: '):].split(' ', 1)
                out.append((pid.split('=', 1)[1], key.split(' -- ')[0].strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
    t0 = time.time()
    evdir = os.environ.get('FPSA_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(FIRST)
    try:
        ctx = Ctx(pid, tier)
        mod = importlib.import_module('fpsa.rules.' + pid.lower())
        mod.run(ctx)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except (Budget, RecursionError, MemoryError) as e:
        ctx.undec(pid, 'the rest of the rules', 'budget: %s' % e)
    signal.alarm(0)
    ctx.finish()
    kn = [k for p, k in known() if p == pid]
    new, old = [], []
    for f in ctx.findings:
        (old if f.key() in kn else new).append(f)
    nobl = sum(r['obligations'] for r in ctx.rules.values())
    low = []
    for rid, n in getattr(mod, 'MINIMA', {}).items():
        if ctx.rules.get(rid, {'obligations': 0})['obligations'] < n:
            low.append('%s: %d obligation(s), at least %d expected' % (rid, ctx.rules.get(rid, {'obligations': 0})['obligations'], n))
    for rid, r in ctx.rules.items():
        if r['obligations'] == 0 and rid not in {u[0] for u in ctx.undecided}:
            low.append('%s: no obligation' % rid)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or ''),
            'rules': {rid: {'rule': r['text'], 'obligations': r['obligations'], 'constructs': sorted(r['constructs'])}
                      for rid, r in ctx.rules.items()},
            'obligations': nobl, 'discharged': nobl - len(ctx.findings),
            'functions_analysed': sorted(ctx.functions),
            'undecided': ['%s @ %s: %s' % u for u in ctx.undecided][:60],
            'below_confirmed_count': low,
            'samples': ctx.samples[:12],
            'source_digest': ctx.repo.digest(),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'the abstract interpreter models Python semantics faithfully for the statement kinds used here',
            'calls declared opaque by a rule are judged by their own rule'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, f.key(), f.msg))
    for u in ctx.undecided:
        print('UNDECIDED %s @ %s: %s' % (u[0], u[1], u[2][:400]))
    for l in low:
        print('LOW-COUNT %s' % l)
    if new:
        rp = os.path.join(evdir, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump([{'rule': x.rule, 'rule_text': ctx.rules[x.rule]['text'], 'construct': x.construct, 'where': x.where, 'message': x.msg} for x in new], f, indent=1)
        for x in new[:20]:
            print('%s: rule %s (%s): %s: %s' % (x.where, x.rule, ctx.rules[x.rule]['text'], x.construct, x.msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s rules=%d obligations=%d undecided=%d wall=%.1fs' % (pid, len(ctx.rules), nobl, len(ctx.undecided), time.time() - t0))
    if os.environ.get('FPSA_STRICT') and (ctx.undecided or low):
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
