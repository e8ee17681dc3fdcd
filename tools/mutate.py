#!/usr/bin/env python3
"""Development: mutate.py gen COUNT SEED | check : small changes to the library that its tests do not notice, then the checks against them.
gen writes /tmp/mut/survivors.jsonl; check appends to /tmp/mut/results.jsonl."""
import sys, os, re, json, random, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); M = '/tmp/mut'
T = {  # file -> properties
 'src/libfsm/determinise.c': ['C01'], 'src/libfsm/epsilons.c': ['C01', 'C07'], 'src/libfsm/closure.c': ['C01'], 'src/libfsm/mergestates.c': ['C04'],
 'src/libfsm/minimise.c': ['C02'], 'src/libfsm/consolidate.c': ['C02'], 'src/libfsm/walk2.c': ['C03'], 'src/libfsm/union.c': ['C03', 'C19'], 'src/libfsm/concat.c': ['C04'], 'src/libfsm/reverse.c': ['C04'],
 'src/libfsm/merge.c': ['C03', 'C06'], 'src/libfsm/trim.c': ['C05'], 'src/libfsm/state.c': ['C05'], 'src/libfsm/clone.c': ['C05', 'C28'], 'src/libfsm/endids.c': ['C06'], 'src/libfsm/eager_output.c': ['C07'],
 'src/libfsm/edge.c': ['C08'], 'src/libfsm/exec.c': ['C08', 'C28'], 'src/libfsm/equal.c': ['C09'], 'src/libfsm/walk/reachable.c': ['C09'], 'src/libfsm/pred/hasnondeterminism.c': ['C09'], 'src/libfsm/pred/iscomplete.c': ['C09'], 'src/libfsm/complete.c': ['C03'],
 'src/libfsm/gen.c': ['C10'], 'src/libfsm/example.c': ['C10'], 'src/libfsm/shortest.c': ['C10'], 'src/libfsm/detect_required.c': ['C10'],
 'src/libfsm/vm/ir.c': ['C11'], 'src/libfsm/vm/v1.c': ['C11'], 'src/libfsm/vm/v2.c': ['C11'], 'src/libfsm/vm/vm.c': ['C11'], 'src/libfsm/vm/retlist.c': ['C12'],
 'src/libfsm/print/c.c': ['C12'], 'src/libfsm/print/ir.c': ['C12'], 'src/libfsm/print/vmc.c': ['C12'], 'src/libfsm/print/llvm.c': ['C13'], 'src/print/c.c': ['C12'], 'src/print/llvm.c': ['C13'],
 'src/libfsm/print/api.c': ['C14'], 'src/libfsm/print/dot.c': ['C14'], 'src/libfsm/print/fsm.c': ['C14'], 'src/libfsm/print/json.c': ['C14'], 'src/print/fsm.c': ['C14'],
 'src/libre/ast.c': ['C15'], 'src/libre/ast_analysis.c': ['C15'], 'src/libre/ast_compile.c': ['C15'], 'src/libre/ast_rewrite.c': ['C15'], 'src/libre/re.c': ['C18', 'C20'],
 'src/libre/ac.c': ['C19'], 'src/libre/re_strings.c': ['C19'], 'src/libre/re_interpolate_groups.c': ['C21'], 'src/libre/print/pcre.c': ['C22'], 'src/libre/ast_new_from_fsm.c': ['C22'],
 'src/adt/edgeset.c': ['C23'], 'src/adt/stateset.c': ['C23'], 'src/adt/bitmap.c': ['C24'], 'src/adt/idmap.c': ['C24'], 'src/adt/internedstateset.c': ['C24'], 'src/adt/priq.c': ['C24'], 'src/adt/queue.c': ['C24'],
 'src/libfsm/capture.c': ['C28'], 'src/libre/dialect/pcre/parser.c': ['C15', 'C18'], 'src/libre/dialect/native/parser.c': ['C16', 'C18'], 'src/libre/dialect/sql/parser.c': ['C17', 'C18'], 'src/libre/class_name.c': ['C15'],
}
PRE = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \|= ', ' = '), (r' \+= ', ' = '),
 (r'= 0;', '= 1;'), (r'= 1;', '= 0;'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\(!', '('), (r'\bi\+\+', 'i += 2'), (r' / 2', ' / 4'), (r' \* 2', ' * 1'), (r'\b2 \* ', '1 * '), (r'\b255\b', '254'), (r'\bFSM_SIGMA_MAX\b', '(FSM_SIGMA_MAX - 1)'), (r' & ', ' | '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bUCHAR_MAX\b', '(UCHAR_MAX - 1)'), (r'>= *64', '> 64'), (r'\bmin\b', 'max'), (r'\bdst\b', 'src'), (r'\blo\b', 'hi'), (r'\.from\b', '.to'), (r'\ba->', 'b->'), (r'\[0\]', '[1]')]
def candidates(f, src):
    out = []; lines = src.split('\n'); skip = 0; off = 0; depth = 0
    prev = ''
    for n, l in enumerate(lines):
        s = l.strip()
        if re.match(r'#\s*if', s): 
            if depth or re.search(r'LOG|DEBUG|EXPENSIVE|TRACE|if 0|DUMP|NDEBUG', s): depth += 1
        elif re.match(r'#\s*endif', s) and depth: depth -= 1
        elif re.match(r'#\s*else', s) and depth == 1: depth = 0
        bad = depth or s.startswith(('#', '*', '/*', '//')) or re.search(r'assert|LOG|fprintf|DBG|sizeof|ERRAT|errno|perror|unreachable|for \(;;\)', s) or re.search(r'== NULL|!= NULL', s) or 'NULL' in prev or 'goto' in s or s.startswith('return 0') or s.startswith('return -1') or s.startswith('return NULL') or 'free(' in s or not l.startswith('\t')
        if f.endswith('parser.c') and not bad:
            pass
        prev = s
        if bad: continue
        for a, b in PRE:
            for m in re.finditer(a, l): out.append((n, l[:m.start()] + b + l[m.end():]))
        if re.match(r'^[\w\->\.\[\]\*& ]+ (=|\|=|\+=|&=) .*;$', s) and not re.match(r'^(const |static |unsigned |int |size_t |struct |fsm_state_t |bool |uint|char )', s): out.append((n, '\t;'))
        if re.match(r'^\w+\(.*\);$', s) or re.match(r'^[\w\->\.\[\]]+(\+\+|--);$', s): out.append((n, '\t;'))
    return out
def sh(c, t=400):
    try: r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t); return r.returncode
    except subprocess.TimeoutExpired: return 124
def worker(i):
    w = '%s/w%d/repo' % (M, i); vp = '%s/vp%d' % (M, i)
    if not os.path.isdir(w):
        os.makedirs(os.path.dirname(w), exist_ok=True); src = os.environ.get('MUT_BASE', '/repo')
        subprocess.check_call(['cp', '-a', src, w])
        shutil.rmtree(vp, ignore_errors=True); shutil.copytree('/opt/vp', vp, symlinks=True)
        for f in ['build.sh', 'test.sh', 'mk/prep.sh', 'mk/rules.mk', 'results.py']:
            t = open(vp + '/' + f).read(); open(vp + '/' + f, 'w').write(t.replace('/repo', w).replace('/opt/vp', vp).replace('-j8', '-j2'))
        sh('rm -rf %s/build; bash %s/build.sh' % (w, vp), 900)
    return w, vp
BASE = json.load(open('/opt/vp/BASELINE.json')); BASE = BASE if isinstance(BASE, list) else BASE['stable']
def trial(a):
    i, f, n, new, old = a; w, vp = worker(i); p = w + '/' + f; src = open(p).read(); lines = src.split('\n'); lines[n] = new
    try:
        open(p, 'w').write('\n'.join(lines)); o = '%s/o%d.json' % (M, i)
        if os.path.exists(o): os.unlink(o)
        r = sh('timeout 200 bash %s/build.sh' % vp)
        if r: return 'nobuild'
        sh('timeout 200 bash %s/test.sh %s' % (vp, o))
        try: ps = set(json.load(open(o))['passed'])
        except Exception: return 'notests'
        return 'killed' if [t for t in BASE if t not in ps] else 'survives'
    finally: open(p, 'w').write(src)
def gen(per, seed, nw=4, only=None):
    rnd = random.Random(seed); jobs = []
    for f in T:
        if only and not re.search(only, f): continue
        src = open(os.environ.get('MUT_BASE', '/repo') + '/' + f).read(); c = candidates(f, src); rnd.shuffle(c); L = src.split('\n'); seen = set(); k = 0
        for n, new in c:
            if n in seen: continue
            seen.add(n); jobs.append((f, n, new, L[n])); k += 1
            if k >= max(2, int(per * min(3, len(L) / 400 + .3))): break
    rnd.shuffle(jobs); print(len(jobs), 'mutants'); sys.stdout.flush()
    import queue; q = queue.Queue(); [q.put(j) for j in jobs]
    def run(i):
        worker(i)
        while True:
            try: f, n, new, old = q.get_nowait()
            except queue.Empty: return
            r = trial((i, f, n, new, old))
            with open(M + '/gen.log', 'a') as o: o.write('%s %s:%d %s -> %s\n' % (r, f, n + 1, old.strip(), new.strip()))
            if r == 'survives':
                with open(M + '/survivors.jsonl', 'a') as o: o.write(json.dumps(dict(file=f, line=n, old=old, new=new)) + '\n')
    with ThreadPoolExecutor(nw) as ex: list(ex.map(run, range(nw)))
def check(only=None):
    w = M + '/chk'
    if not os.path.isdir(w): subprocess.check_call(['cp', '-a', os.environ.get('MUT_BASE', '/repo'), w])
    done = set()
    if os.path.exists(M + '/results.jsonl'): done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(M + '/results.jsonl'))}
    for s in map(json.loads, open(M + '/survivors.jsonl')):
        if (s['file'], s['line'], s['new']) in done or (only and not re.search(only, s['file'])): continue
        p = w + '/' + s['file']; src = open(p).read(); L = src.split('\n')
        at = sorted((abs(i - s['line']), i) for i, l in enumerate(L) if l == s['old'])
        if not at or at[0][0] > 80: print('moved', s); continue
        L[at[0][1]] = s['new']; open(p, 'w').write('\n'.join(L)); res = {}
        try:
            for c in T[s['file']]:
                r = subprocess.run('SX_REPO=%s timeout 400 python3 check.py %s' % (w, c), shell=True, cwd=V, capture_output=True, text=True); res[c] = r.returncode
                if r.returncode == 1: break
                if 'NOT EXHAUSTED' in r.stdout: res[c] = 'incomplete'
        finally: open(p, 'w').write(src)
        s['res'] = res; open(M + '/results.jsonl', 'a').write(json.dumps(s) + '\n'); print('%s %s:%d %s -> %s' % (res, s['file'], s['line'] + 1, s['old'].strip(), s['new'].strip())); sys.stdout.flush()
if sys.argv[1] == 'gen': gen(float(sys.argv[2]), int(sys.argv[3]), int(os.environ.get('NW', 4)), sys.argv[4] if len(sys.argv) > 4 else None)
else: check(sys.argv[2] if len(sys.argv) > 2 else None)
