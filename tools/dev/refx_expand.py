# builds whole-file refactors of expand
src=open('/repo/src/footprints/util.py').read()
a=src.index("    ld = deque([desc, ])\n    todo = True"); b=src.index("class FoxyFormatter")
H1='''    ld = deque([desc, ])
    todo = True
    nbpass = 0

    while todo:
        todo = False
        nbpass += 1
        globalindex = 0
        if nbpass > 25:
            logger.error('Expansion is getting messy... (%d) ?', nbpass)
            raise MemoryError('Expand depth too high')
        newld = deque()
        while ld:
            d = ld.popleft()
            replaced = _expand_first(d, globalindex)
            if replaced is None:
                newd = d.copy()
                newd['index_expansion'] = globalindex + 1
                newld.append(newd)
                globalindex += 1
            else:
                todo = True
                newld.extend(replaced)
                globalindex += len(replaced)
        ld = newld

    logger.debug('Expand in %d loops', nbpass)
    return list(ld)


def _expand_range(v):
    lv = [int(x) for x in re.split(r'[\\(\\),]+', v) if re.match(r'\\d+$', x)]
    if len(lv) < 2:
        lv.append(lv[0])
    lv[1] += 1
    return range(*lv)


def _expand_files(d, k, v, globalindex):
    g_names, g_re, g_glob = _parse_globs(v)
    repld = list()
    for filename in sorted(glob.glob(g_glob)):
        m = g_re.match(filename)
        if m:
            globmap = {g: m.group(g) for g in g_names}
            repld.append(inplace(d, k, filename, globmap, globalindex=globalindex + len(repld)))
    return repld


def _expand_first(d, globalindex):
    for k, v in d.items():
        if v.__class__.__name__.startswith('FP'):
            continue
        if isinstance(v, (list, tuple, set)):
            return [inplace(d, k, x, globalindex=globalindex + i) for i, x in enumerate(v)]
        if isinstance(v, str):
            if re.match(r'range\\(\\d+(,\\d+)?(,\\d+)?\\)$', v, re.IGNORECASE):
                return [inplace(d, k, x, globalindex=globalindex + i) for i, x in enumerate(_expand_range(v))]
            if ',' in v:
                return [inplace(d, k, x, globalindex=globalindex + i) for i, x in enumerate(v.split(','))]
            if re.search(r'{glob:\\w+:', v):
                return _expand_files(d, k, v, globalindex)
        if isinstance(v, dict):
            for dk in [x for x in v.keys() if x in d]:
                dv = d[dk]
                if not _expandable(dv):
                    return [inplace(d, k, v[dk][str(dv)], globalindex=globalindex)]
    return None


'''
H2=H1.replace('''            replaced = _expand_first(d, globalindex)
            if replaced is None:
                newd = d.copy()
                newd['index_expansion'] = globalindex + 1
                newld.append(newd)
                globalindex += 1
            else:
                todo = True
                newld.extend(replaced)
                globalindex += len(replaced)
''','''            changed, globalindex = _expand_first(d, newld, globalindex)
            todo = todo or changed
            if not changed:
                newd = d.copy()
                newd['index_expansion'] = globalindex + 1
                newld.append(newd)
                globalindex += 1
''')
i=H2.index("def _expand_first")
H2=H2[:i]+'''def _expand_first(d, newld, globalindex):
    for k, v in d.items():
        if v.__class__.__name__.startswith('FP'):
            continue
        values = None
        globmaps = None
        if isinstance(v, (list, tuple, set)):
            values = v
        elif isinstance(v, str) and re.match(r'range\\(\\d+(,\\d+)?(,\\d+)?\\)$', v, re.IGNORECASE):
            values = _expand_range(v)
        elif isinstance(v, str) and ',' in v:
            values = v.split(',')
        elif isinstance(v, str) and re.search(r'{glob:\\w+:', v):
            news = _expand_files(d, k, v, globalindex)
            newld.extend(news)
            return True, globalindex + len(news)
        elif isinstance(v, dict):
            for dk in [x for x in v.keys() if x in d]:
                dv = d[dk]
                if not _expandable(dv):
                    values = [v[dk][str(dv)]]
                    break
        if values is not None:
            for x in values:
                newld.append(inplace(d, k, x, globalindex=globalindex))
                globalindex += 1
            return True, globalindex
    return False, globalindex


'''
H3=H1.replace('''def _expand_first(d, globalindex):
    for k, v in d.items():
''','''def _expand_first(d, globalindex):
    for k, v in d.items():
        replaced = _expand_entry(d, k, v, globalindex)
        if replaced is not None:
            return replaced
    return None


def _expand_entry(d, k, v, globalindex):
    if True:
''').replace("startswith('FP'):\n            continue","startswith('FP'):\n            return None")
import sys
BUG={'b1':("',' in v:","', ' in v:"),'b2':("isinstance(v, (list, tuple, set))","isinstance(v, (list, tuple))"),'b3':("v[dk][str(dv)]","v[dk][str(dk)]"),'b4':("lv[1] += 1","lv[1] += 2"),'b5':("todo = True\n                newld","newld"),'b6':("todo = todo or changed","todo = changed"),
'b7':("newld.extend(replaced)","newld.extendleft(replaced)"),'b8':("if not _expandable(dv):","if _expandable(dv):"),'b9':("startswith('FP')","startswith('FPS')")}
import shutil,subprocess,os
def run(tag,body,props):
    d='/tmp/rx/'+tag; shutil.rmtree(d,True); shutil.copytree('/repo/src',d+'/src')
    open(d+'/src/footprints/util.py','w').write(src[:a]+body+src[b:])
    compile(src[:a]+body+src[b:],'x','exec')
    t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','--no-header','-p','no:cacheprovider','/repo/tests/test_util.py'] if os.path.exists('/repo/tests/test_util.py') else ['true'],env=dict(os.environ,PYTHONPATH=d+'/src'),capture_output=True,text=True,cwd='/tmp')
    print(tag,'tests',t.returncode)
    for p in props:
        c=subprocess.run(['python3','/verif/check.py',p],env=dict(os.environ,FPSA_REPO=d,FPSA_EVIDENCE=d+'/ev'),capture_output=True,text=True)
        L=c.stdout.splitlines(); msgs=[l for l in L if not l.startswith(('OK','LOW','VIOL'))]
        print('  ',p,c.returncode,len([l for l in L if l.startswith('UNDEC')]),c.stderr[-300:])
        for m in msgs[:int(os.environ.get('N','3'))]: print('      ',m[-420:] if len(m)>420 else m)
    shutil.rmtree(d,True)
props=sys.argv[1].split(',')
sel=sys.argv[2:]
open("/tmp/H1.py","w").write(src[:a]+H1+src[b:]); open("/tmp/H2.py","w").write(src[:a]+H2+src[b:])
for n,h in (('H1',H1),('H2',H2),('H3',H3)):
    if not sel or n in sel: run(n,h,props)
    for bn in BUG:
        if 'bugs' in sel and BUG[bn][0] in h: run(n+bn,h.replace(*BUG[bn]),props)
