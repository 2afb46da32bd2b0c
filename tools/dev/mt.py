import sys, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
props, deff = sys.argv[1].split(','), sys.argv[2]
muts = eval(sys.stdin.read())
def one(im):
    i, m = im
    old, new = m[0], m[1]; f = m[2] if len(m) > 2 else deff
    d = '/tmp/mt/%d' % i
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo/src', d + '/src')
    p = d + '/src/footprints/' + f
    t = open(p).read()
    if t.count(old) < 1: return i, 'NOT FOUND %r' % old[:80]
    if t.count(old) > 1 and len(m) < 4: return i, 'AMBIGUOUS %d %r' % (t.count(old), old[:80])
    t = t.replace(old, new, 1); open(p, 'w').write(t)
    try: compile(t, p, 'exec')
    except SyntaxError as e: return i, 'SYNTAX %s' % e
    res = []
    for pr in props:
        c = subprocess.run(['python3', '/verif/check.py', pr], env=dict(os.environ, FPSA_REPO=d, FPSA_EVIDENCE=d + '/ev'), capture_output=True, text=True)
        L = c.stdout.splitlines()
        und = [l for l in L if l.startswith('UNDEC')]
        msg = [l for l in L if not l.startswith(('UNDEC', 'LOW', 'OK', 'VIOL'))]
        res.append('%s %s%s %s' % (pr, {0: 'quiet', 1: 'CAUGHT'}.get(c.returncode, 'rc%d' % c.returncode), ' undec=%d' % len(und) if und else '', (msg or und or [''])[0][-int(os.environ.get('W', 150)):] + (c.stderr[-300:] if c.returncode not in (0, 1) else '')))
    shutil.rmtree(d, ignore_errors=True)
    return i, ' || '.join(res) + '   <<< ' + new.strip()[:60].replace('\n', '\\n')
with ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(one, enumerate(muts)): print(i, r)
