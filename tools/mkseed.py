#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py, after confirming everything in a scratch copy.

A seed file defines PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (source of demo.py).
usage: mkseed.py [id ...]   (default: those without a seeded folder)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
HEAD = '''import os, sys, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import footprints as fp
from footprints import Footprint, FootprintBase, UNKNOWN, FPDict, FPList, FPSet, FPStr, FPTuple, FPRegex
from footprints import collectors, priorities, reporting, config, util, stdtypes, access, doc, proxies
logging.disable(logging.CRITICAL)
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
BASE = json.load(open('/opt/vp/BASELINE.json'))


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC', PYTHONPATH=d + '/src')
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300'], cwd=d, env=env, capture_output=True, text=True)
    return p.stdout.strip().splitlines()[-1], p.stdout


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE + '/seeds') if f.endswith('.py') and not os.path.isdir(VERIF + '/seeded/' + f[:-3]))
    for i in ids:
        ns = {}
        exec(open(HERE + '/seeds/%s.py' % i).read(), ns)
        d = tempfile.mkdtemp(prefix='seed.')
        try:
            r = d + '/repo'
            shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__'))
            out = d + '/out'
            os.mkdir(out)
            open(out + '/demo.py', 'w').write(HEAD + ns['DEMO'])
            open(out + '/demo.sh', 'w').write(SH)
            os.chmod(out + '/demo.sh', 0o755)
            a = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
            if a.returncode:
                print(i, 'BAD: demo fails on the unchanged tree', a.stdout[-500:], a.stderr[-1500:])
                continue
            bad = False
            for f, old, new in ns['EDITS']:
                p = r + '/src/footprints/' + f
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, 'BAD: %d occurrences of %r' % (t.count(old), old))
                    bad = True
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                continue
            b = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=200)
            if b.returncode == 0:
                print(i, 'BAD: demo passes with the change')
                continue
            last, full = tests(r)
            if not last.startswith('1 failed, 66 passed'):
                print(i, 'BAD: tests:', last, [l for l in full.splitlines() if l.startswith('FAILED')])
                continue
            diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
            open(out + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
            dst = VERIF + '/seeded/' + i
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            env = dict(os.environ, FPSA_REPO=r, FPSA_EVIDENCE=d + '/ev')
            c = subprocess.run(['python3', VERIF + '/check.py', ns['PROPERTY']], env=env, capture_output=True, text=True)
            lines = [l for l in c.stdout.splitlines() if not l.startswith('VIOLATION')]
            print(i, 'kept;', (b.stderr.strip().splitlines() or ['?'])[-1][:100], '|', 'CAUGHT' if c.returncode == 1 else 'missed rc=%d' % c.returncode, (lines or ['?'])[0][:300])
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
