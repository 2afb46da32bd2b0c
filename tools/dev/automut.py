#!/usr/bin/env python3
"""Mutates every function of the package, keeps the mutants that pass the tests, and runs the checks on them.

usage: automut.py gen OUT.json [seed]       mutants that compile and pass the tests
       automut.py run OUT.json RES.txt [n] [seed]   checks over (a sample of) them
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC = '/repo/src/footprints/'
PY = '/opt/venv/bin/python'
FILES = ['__init__.py', 'access.py', 'collectors.py', 'config.py', 'doc.py', 'priorities.py', 'proxies.py', 'reporting.py', 'stdtypes.py', 'util.py']


def variants(n):
    """[(description, function changing a node in place or returning another)]"""
    out = []
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        out.append(('negate', lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test))))
        out.append(('always', lambda x: setattr(x, 'test', ast.Constant(True)))) if not isinstance(n, ast.While) else None
        out.append(('never', lambda x: setattr(x, 'test', ast.Constant(False))))
    if isinstance(n, ast.BoolOp):
        for i in range(len(n.values)):
            def drop(x, i=i):
                del x.values[i]
                return x.values[0] if len(x.values) == 1 else x
            out.append(('drop%d' % i, drop))
        out.append(('andor', lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And())))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(('not', lambda x: x.operand))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        alt = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq],
               ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}[type(n.ops[0])]
        for a in alt:
            out.append(('cmp' + a.__name__, lambda x, a=a: setattr(x, 'ops', [a()])))
        if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            out.append(('truthy', lambda x: ast.UnaryOp(ast.Not(), x.left) if isinstance(x.ops[0], ast.Is) else x.left))
    if isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            out.append(('flip', lambda x: setattr(x, 'value', not x.value)))
        elif v is None:
            out.append(('none0', lambda x: setattr(x, 'value', 0)))
        elif isinstance(v, int):
            out.append(('+1', lambda x: setattr(x, 'value', x.value + 1)))
            out.append(('-1', lambda x: setattr(x, 'value', x.value - 1)))
        elif isinstance(v, str) and 0 < len(v) < 30:
            out.append(('str', lambda x: setattr(x, 'value', x.value + 'x')))
    if isinstance(n, ast.Call):
        if n.keywords:
            for i in range(len(n.keywords)):
                out.append(('dropkw%d' % i, lambda x, i=i: x.keywords.pop(i) and None))
        if len(n.args) == 2:
            out.append(('swap', lambda x: x.args.reverse()))
        if len(n.args) > 1:
            out.append(('droparg', lambda x: x.args.pop() and None))
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if name in ('list', 'sorted', 'set', 'dict', 'tuple', 'deepcopy', 'bool', 'str', 'reversed') and len(n.args) >= 1:
            out.append(('unwrap', lambda x: x.args[0]))
        if name in ('copy', 'lower', 'upper', 'strip', 'rstrip', 'lstrip') and isinstance(f, ast.Attribute) and not n.args:
            out.append(('uncall', lambda x: x.func.value))
        sub = {'append': 'remove', 'extend': 'append', 'update': 'clear', 'add': 'discard', 'discard': 'add', 'match': 'search', 'search': 'match', 'get': 'pop', 'values': 'keys',
               'keys': 'values', 'issubclass': 'isinstance', 'deepcopy': 'copy', 'popleft': 'pop', 'startswith': 'endswith', 'endswith': 'startswith', 'upper': 'lower',
               'lower': 'upper', 'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'partition': 'rpartition', 'pop': 'get', 'setdefault': 'get'}.get(name)
        if sub:
            def ren(x, sub=sub):
                if isinstance(x.func, ast.Attribute):
                    x.func.attr = sub
                else:
                    x.func.id = sub
            out.append(('to_' + sub, ren))
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
        out.append(('unslice', lambda x: x.value))
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        out.append(('addsub', lambda x: setattr(x, 'op', ast.Sub() if isinstance(x.op, ast.Add) else ast.Add())))
        out.append(('left', lambda x: x.left))
    if isinstance(n, ast.Break):
        out.append(('continue', lambda x: ast.Continue()))
    if isinstance(n, ast.Continue):
        out.append(('break', lambda x: ast.Break()))
        out.append(('pass', lambda x: ast.Pass()))
    if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Assign, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(('logger', 'print'))):
            out.append(('delete', lambda x: ast.Pass()))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append(('retnone', lambda x: setattr(x, 'value', None)))
    if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
        for i in range(len(n.type.elts)):
            out.append(('dropexc%d' % i, lambda x, i=i: x.type.elts.pop(i) and None))
    if isinstance(n, ast.For):
        out.append(('firstonly', lambda x: x.body.append(ast.Break())))
    if isinstance(n, ast.If) and n.orelse:
        out.append(('noelse', lambda x: setattr(x, 'orelse', [])))
    return [o for o in out if o]


def sites(tree):
    """(path to a node) for every node of a function body that can be changed."""
    def walk(n, path, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + '.' if fn else '') + n.name
        for f, v in ast.iter_fields(n):
            for i, c in (enumerate(v) if isinstance(v, list) else [(None, v)]):
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                        continue
                    if isinstance(c, ast.Call) and ast.unparse(c.func).startswith('logger'):
                        continue
                    if isinstance(n, ast.Raise) and f == 'exc':
                        continue
                    p = path + [(f, i)]
                    yield p, c, fn
                    yield from walk(c, p, fn)
    yield from walk(tree, [], '')


def apply(tree, path, k):
    t = copy.deepcopy(tree)
    par, n = None, t
    for f, i in path:
        par = n
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    r = variants(n)[k][1](n)
    if isinstance(r, ast.AST):
        f, i = path[-1]
        if i is None:
            setattr(par, f, r)
        else:
            getattr(par, f)[i] = r
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def tests(job):
    f, name, what, line, before, code, src = job
    d = tempfile.mkdtemp(prefix='am.')
    try:
        for x in ('src', 'tests'):
            shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
        for x in os.listdir('/repo'):
            if os.path.isfile('/repo/' + x):
                shutil.copy('/repo/' + x, d)
        open(d + '/src/footprints/' + f, 'w').write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC', PYTHONPATH=d + '/src')
        try:
            p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '--maxfail=2', '-p', 'no:cacheprovider', '--timeout=60'], cwd=d, env=env, capture_output=True, text=True, timeout=90)
        except subprocess.TimeoutExpired:
            return None
        last = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ''
        return job if '66 passed' in last else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(out):
    jobs, seen = [], set()
    for f in FILES:
        src = open(SRC + f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for path, n, fn in sites(tree):
            if not fn or fn.endswith(('__str__', '__repr__')):
                continue
            for k, (what, _) in enumerate(variants(n)):
                try:
                    code = apply(tree, path, k)
                    compile(code, f, 'exec')
                except Exception:
                    continue
                if code == base or code in seen:
                    continue
                seen.add(code)
                jobs.append((f, fn, what, getattr(n, 'lineno', 0), ast.unparse(n)[:100], '', code))
    print(len(jobs), 'mutants')
    with ThreadPoolExecutor(8) as ex:
        alive = [j for j in ex.map(tests, jobs) if j]
    print(len(alive), 'survive the tests')
    json.dump(alive, open(out, 'w'))


def props_for(f):
    files = {}
    for l in open(VERIF + '/properties.jsonl'):
        p = json.loads(l)
        for a in p['anchors']['files']:
            files.setdefault(os.path.basename(a) if not a.endswith('__init__.py') else '__init__.py', []).append(p['id'])
    return files.get(f, [])


def check(job):
    i, (f, fn, what, line, before, _, code) = job
    d = tempfile.mkdtemp(prefix='amc.')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/src/footprints/' + f, 'w').write(code)
        claimed = [x[:-3].upper() for x in sorted(os.listdir(VERIF + '/fpsa/rules')) if x[0] == 'c' and x[1:3].isdigit()]
        late = ['C01', 'C04', 'C21', 'C22', 'C09', 'C17', 'C14', 'C23', 'C16', 'C10', 'C27', 'C25']      # by cost
        und = []
        for p in [c for c in claimed if c not in late] + [c for c in late if c in claimed]:
            c = subprocess.run(['python3', VERIF + '/check.py', p], env=dict(os.environ, FPSA_REPO=d, FPSA_EVIDENCE=d + '/ev'), capture_output=True, text=True)
            if c.returncode == 1:
                m = [l for l in c.stdout.splitlines() if not l.startswith(('UNDEC', 'LOW', 'OK', 'VIOL'))]
                return '%d CAUGHT %s | %s %s:%d %s %r | %s' % (i, p, fn, f, line, what, before, (m or [''])[0][-200:])
            if c.returncode:
                und.append(p + ':rc%d' % c.returncode)
            elif 'undecided=0' not in c.stdout:
                und.append(p)
        return '%d QUIET %s | %s %s:%d %s %r' % (i, ','.join(und), fn, f, line, what, before)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(inp, res, n=None, seed=1, workers=6):
    jobs = list(enumerate(json.load(open(inp))))
    random.Random(int(seed)).shuffle(jobs)
    if n:
        jobs = jobs[:int(n)]
    with open(res, 'w') as o, ThreadPoolExecutor(workers) as ex:
        for r in ex.map(check, jobs):
            o.write(r + '\n')
            o.flush()


if __name__ == '__main__':
    {'gen': gen, 'run': run}[sys.argv[1]](*sys.argv[2:])
