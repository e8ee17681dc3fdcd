"""Build the engine and the code under test, run harnesses, replay counterexamples, write evidence."""
import os, sys, subprocess, hashlib, json, glob, re, time, shutil, resource
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.environ.get('SX_BUILD', os.path.join(VERIF, '.build'))
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
NJ = os.cpu_count() or 4

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def fhash(*paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    sx = os.path.join(VERIF, 'symx')
    key = fhash(sx + '/pass/SymxPass.cpp', sx + '/rt/rt.cpp', sx + '/libc/libc.c', sx + '/native/native.c', sx + '/include/sx.h', extra='v3')
    d = os.path.join(BUILD, 'engine-' + key)
    if os.path.exists(d + '/ok'):
        return d
    os.makedirs(d, exist_ok=True)
    llc = shutil.which('llvm-config-18') or '/usr/lib/llvm-18/bin/llvm-config'
    flags = sh([llc, '--cxxflags']).split()
    def a(): sh(['g++', '-O1', '-fPIC', '-shared', '-fno-rtti'] + flags + [sx + '/pass/SymxPass.cpp', '-o', d + '/libsymx.so'])
    def b(): sh(['g++', '-std=c++17', '-O2', '-g', '-c', sx + '/rt/rt.cpp', '-o', d + '/rt.o'])
    def c(): sh(['gcc', '-O1', '-g', '-c', '-I', sx + '/include', sx + '/native/native.c', '-o', d + '/native.o'])
    def e(): sh(['gcc', '-O1', '-g', '-DSX_ASAN', '-c', '-I', sx + '/include', sx + '/native/native.c', '-o', d + '/native-asan.o'])
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(x) for x in (a, b, c, e)]: f.result()
    cc_sym(d, sx + '/libc/libc.c', d + '/libc.o', [])
    open(d + '/ok', 'w').write('ok')
    return d

SYMFLAGS = ['-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-stack-protector', '-U_FORTIFY_SOURCE',
            '-D__NO_CTYPE', '-fno-strict-aliasing', '-fno-pic', '-fno-pie', '-fno-discard-value-names', '-w', '-fno-unroll-loops', '-fno-jump-tables']
def cc_sym(eng, src, out, flags):
    sh([CLANG, '-c'] + SYMFLAGS + ['-fpass-plugin=' + eng + '/libsymx.so'] + flags + [src, '-o', out])

BASE = ['-std=gnu99', '-D_DEFAULT_SOURCE', '-D_GNU_SOURCE']
def src_flags(rel):
    f = list(BASE) + ['-I', REPO + '/include', '-I', REPO + '/src']
    if rel.startswith('src/libre/class/'): f += ['-I', REPO + '/src/libre', '-DLF_HEADER="class.h"']
    if rel.startswith('src/libfsm/vm/'): f += ['-I', REPO + '/src/libfsm']
    m = re.match(r'src/libre/dialect/(\w+)/', rel)
    if m:
        f += ['-DDIALECT=' + m.group(1)]
        if m.group(1) == 'pcre': f += ['-DPCRE_DIALECT=1']
    if os.path.basename(rel) in ('parser.c', 'lexer.c'): f += ['-DLX_HEADER="lexer.h"']
    return f

def headers_hash():
    hs = [p for p in glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True)]
    hs += [p for p in glob.glob(REPO + '/src/**/*.inc', recursive=True)]
    return fhash(*hs)

def lib_sources(parts):
    out = []
    for p in parts:
        pat = {'adt': 'src/adt/*.c', 'print': 'src/print/*.c', 'libfsm': 'src/libfsm/**/*.c', 'libre': 'src/libre/**/*.c'}.get(p, p)
        out += [os.path.relpath(x, REPO) for x in sorted(glob.glob(os.path.join(REPO, pat), recursive=True))]
    return out

_hh = None
# a local variable that is read before it is set has a fixed value that no code expects, instead of whatever suits the compiler
AUTOINIT = '-ftrivial-auto-var-init=pattern'
def compile_repo(eng, rels, mode, extra=(), tag=''):
    """mode: sym | nat | asan.  Returns object list (content-addressed cache in BUILD)."""
    global _hh
    if _hh is None: _hh = headers_hash()
    od = os.path.join(BUILD, 'obj'); os.makedirs(od, exist_ok=True)
    engk = os.path.basename(eng)
    def one(rel):
        src = os.path.join(REPO, rel)
        key = hashlib.sha256()
        key.update(open(src, 'rb').read()); key.update((AUTOINIT + '%s|%s|%s|%s|%s|%s' % (rel, mode, _hh, REPO, engk if mode == 'sym' else '', ' '.join(extra))).encode())
        o = os.path.join(od, rel.replace('/', '_') + '.' + mode + '.' + key.hexdigest()[:16] + '.o')
        if not os.path.exists(o):
            fl = [AUTOINIT] + src_flags(rel) + list(extra)
            tmp = o + '.tmp%d' % os.getpid()
            if mode == 'sym': cc_sym(eng, src, tmp, fl)
            elif mode == 'nat': sh(['gcc', '-c', '-O1', '-g', '-w', '-fno-builtin-strdup', '-fno-builtin-strndup'] + fl + [src, '-o', tmp])
            else: sh(['gcc', '-c', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-builtin-strdup', '-fno-builtin-strndup'] + fl + [src, '-o', tmp])
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(NJ) as ex:
        return list(ex.map(one, rels))

WRAP = ['-Wl,' + ','.join('--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'rand', 'srand', 'exit'))]
class Harness:
    def __init__(self, src, parts=('adt', 'print', 'libfsm'), defs=(), extra_rel=(), rel_extra_flags=(), exclude=(), extra_src=(), gen=None, local=None):
        self.local = local; self.src = src; self.parts = parts; self.defs = list(defs); self.extra_rel = list(extra_rel)
        self.rel_extra_flags = tuple(rel_extra_flags); self.exclude = exclude; self.extra_src = list(extra_src); self.gen = gen; self.bins = {}

    def local_obj(self, eng, mode):
        """A program's own sources as one object that gives only the names in keep: they clash with the libraries' names."""
        rels = [r for r in lib_sources(self.local['rels']) if r not in self.local.get('exclude', ())]; o = compile_repo(eng, rels, mode, tuple(self.local.get('flags', ())))
        t = os.path.join(BUILD, 'obj', 'local.' + mode + '.' + hashlib.sha256(' '.join(o + list(self.local['keep']) + list(self.local.get('rename', ()))).encode()).hexdigest()[:16] + '.o')
        if not os.path.exists(t):
            tmp = t + '.tmp%d' % os.getpid(); sh(['ld', '-r'] + o + ['-o', tmp]); sh(['objcopy'] + ['--redefine-sym=' + k for k in self.local.get('rename', ())] + ['--keep-global-symbol=' + k for k in self.local['keep']] + [tmp]); os.rename(tmp, t)
        return t

    def build(self, mode):
        if mode in self.bins: return self.bins[mode]
        eng = build_engine()
        if self.gen: self.extra_src = gen_lx(eng, **self.gen) if self.gen['src'] == 'lxgen.c' else gen_sources(eng, self.parts, **self.gen)
        rels = [r for r in lib_sources(self.parts) if r not in self.exclude]
        objs = compile_repo(eng, rels, mode)
        if self.extra_rel: objs += compile_repo(eng, self.extra_rel, mode, self.rel_extra_flags)
        if self.local: objs = [self.local_obj(eng, mode)] + objs
        hs = [os.path.join(VERIF, 'harness', self.src)] + [p if os.path.isabs(p) else os.path.join(VERIF, 'harness', p) for p in self.extra_src]
        bd = os.path.join(BUILD, 'bin'); os.makedirs(bd, exist_ok=True)
        inc = ['-I', os.path.join(VERIF, 'symx/include'), '-I', os.path.join(VERIF, 'harness'), '-I', REPO + '/include', '-I', REPO + '/src', '-I', REPO + '/src/libfsm', '-I', REPO + '/src/libre']
        hobjs = []
        inc_c = [os.path.join(VERIF, 'harness', x) for x in re.findall(r'#include "(c\w+\.c)"', open(hs[0]).read())]
        hk = fhash(*(hs + inc_c + glob.glob(os.path.join(VERIF, 'harness', '*.h'))), extra=' '.join(objs + self.defs + [mode, eng]))
        out = os.path.join(bd, os.path.basename(self.src).replace('.c', '') + '.' + mode + '.' + hk)
        if not os.path.exists(out):
            def one(h):
                o = out + '.' + os.path.basename(h) + '.o'
                if h.endswith('.ll'):
                    if mode == 'sym': cc_sym(eng, h, o, [])
                    else: sh([CLANG, '-c', '-O1', '-w', h, '-o', o])
                elif mode == 'sym': cc_sym(eng, h, o, BASE + inc + self.defs)
                else: sh(['gcc', '-c', '-O1', '-g', '-w'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if mode == 'asan' else []) + BASE + inc + self.defs + [h, '-o', o])
                return o
            with ThreadPoolExecutor(NJ) as ex: hobjs = list(ex.map(one, hs))
            tmp = out + '.tmp%d' % os.getpid()
            if mode == 'sym':
                sh(['g++', '-no-pie', '-rdynamic', '-o', tmp] + hobjs + objs + [eng + '/libc.o', eng + '/rt.o', '-lz3', '-lpthread', '-ldl'])
                und = set(sh(['nm', '-u'] + hobjs + objs).split())
                bad = sorted(u for u in und if re.match(r'^[a-z_]\w*$', u) and u not in OKUND and not u.startswith(('sx', '__sx', '__start_', '__stop_')) and u in libc_syms())
                if bad: print('# warning: unmodelled external functions: ' + ' '.join(bad))
            else:
                sh(['g++', '-rdynamic', '-o', tmp] + (['-fsanitize=address,undefined'] if mode == 'asan' else []) + hobjs + objs + [eng + ('/native-asan.o' if mode == 'asan' else '/native.o')] + WRAP + ['-lpthread', '-ldl'])
            for o in hobjs: os.unlink(o)
            os.rename(tmp, out)
        self.bins[mode] = out
        return out

def gen_sources(eng, parts, src, kind, langs, first, count, ext='.c'):
    """Print the corpus with the library as it is now; the result is what the harness is linked with.  An item that
    cannot be printed or does not compile becomes a stub that the harness reports."""
    per = 64 if ext == '.c' else 1; objs = compile_repo(eng, lib_sources(parts), 'nat'); gs = os.path.join(VERIF, 'harness', src)
    key = fhash(gs, os.path.join(VERIF, 'harness', 'corpus.h'), extra=' '.join(objs) + '%s %s %s %s %s %s' % (kind, langs, first, count, per, ext) + '1')
    d = os.path.join(BUILD, 'gen', key)
    if not os.path.exists(d + '/ok'):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh(['gcc', '-O1', '-g', '-w', '-no-pie'] + BASE + ['-I', os.path.join(VERIF, 'harness'), '-I', REPO + '/include', gs] + objs + ['-o', d + '/gen'])
        step = (count + NJ - 1) // NJ
        with ThreadPoolExecutor(NJ) as ex: list(ex.map(lambda k: sh([d + '/gen', d, str(kind), str(langs), str(first + k), str(min(step, count - k))], timeout=600), range(0, count, step)))
        bad = {i: open('%s/item%d.fail' % (d, i)).read() for i in range(first, first + count) if os.path.exists('%s/item%d.fail' % (d, i))}
        def cat(ids): return ''.join(open('%s/item%d.txt' % (d, i), errors='surrogateescape').read() + '\n' for i in ids if i not in bad)
        def write(p, t): open(p, 'w', errors='surrogateescape').write(t)
        def ok(p): return subprocess.run([CLANG, '-fsyntax-only', '-w'] + (BASE + ['-I', REPO + '/include'] if ext == '.c' else []) + [p] if ext == '.c' else [CLANG, '-c', '-w', p, '-o', '/dev/null'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        def chunk(k):
            ids = list(range(k, min(k + per, first + count))); p = '%s/tu%d%s' % (d, k, ext)
            write(p, cat(ids))
            if not ok(p):
                for i in ids:
                    if i in bad: continue
                    q = '%s/one%d%s' % (d, i, ext); write(q, cat([i]))
                    if not ok(q): bad[i] = 'the generated code does not compile'
                write(p, cat(ids))
                if not ok(p): # each alone compiles, but not together
                    for i in ids: bad.setdefault(i, 'the generated code does not compile next to other generated code')
                    write(p, '')
            return p
        with ThreadPoolExecutor(NJ) as ex: list(ex.map(chunk, range(first, first + count, per)))
        fn = ['f%d_%s' % (i, 'w' if langs == 8 else 'match' if langs == 4 or os.path.exists('%s/item%d.txt' % (d, i)) and 'int f%d_match(' % i in open('%s/item%d.txt' % (d, i), errors='replace').read() else 'main') for i in range(first, first + count)]
        t = ''.join('void %s(void);\n' % n for i, n in enumerate(fn) if first + i not in bad)
        t += 'void (*const gen_fn[])(void) = {%s};\n' % ','.join('0' if first + i in bad else n for i, n in enumerate(fn))
        t += 'const char *const gen_msg[] = {%s};\n' % ','.join('"%s"' % bad.get(first + i, '') for i in range(count))
        t += 'const unsigned gen_kind = %d, gen_langs = %d, gen_first = %d, gen_count = %d;\n' % (kind, langs, first, count)
        open(d + '/table.c', 'w').write(t); open(d + '/ok', 'w').write('ok')
    return sorted(glob.glob(d + '/tu*' + ext)) + [d + '/table.c']

def gen_lx(eng, src, kind, langs, first, count, ext='.c'):
    """Build lx as it is now, run it on the corpus; the lexers it makes are what the harness is linked with."""
    lib = compile_repo(eng, lib_sources(['adt', 'print', 'libfsm', 'libre']), 'nat'); lxo = compile_repo(eng, lib_sources(['src/lx/*.c', 'src/lx/print/*.c']), 'nat'); objs = lib + lxo; H = os.path.join(VERIF, 'harness')
    key = fhash(H + '/lxgen.c', *[H + '/' + x for x in ('lxcorpus.h', 'lxwrap.h', 'lxw.h')], extra=' '.join(objs) + '%s %s %s %s' % (kind, langs, first, count) + '1')
    d = os.path.join(BUILD, 'gen', 'lx' + key)
    if not os.path.exists(d + '/ok'):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh(['ld', '-r'] + lxo + ['-o', d + '/lx.o']); sh(['objcopy', '--keep-global-symbol=main', d + '/lx.o']); sh(['gcc', '-g', '-no-pie', d + '/lx.o'] + lib + ['-lpthread', '-o', d + '/lx']); sh(['gcc', '-O1', '-w', '-I', H, H + '/lxgen.c', '-o', d + '/gen']); sh([d + '/gen', d, str(kind), str(langs), str(first), str(count)])
        endless = []
        def limits(): resource.setrlimit(resource.RLIMIT_CPU, (20, 20)); resource.setrlimit(resource.RLIMIT_FSIZE, (32 << 20, 32 << 20))
        def one(i):
            if len(endless) > 4: return 'lx does not end for others'
            p = '%s/item%d' % (d, i); a = open(p + '.args').read().split(); msg = ''
            for l in 'hc':
                try: r = subprocess.run([d + '/lx', '-l', l] + a, stdin=open(p + '.lx'), stdout=open(p + '.out' + l, 'w'), stderr=subprocess.PIPE, text=True, errors='replace', timeout=120, preexec_fn=limits)
                except subprocess.TimeoutExpired: endless.append(i); return 'lx does not end'
                if r.returncode in (-24, -25, -9): endless.append(i); return 'lx does not end'
                if r.returncode: return 'start' if 'start state accepts' in r.stderr else 'ambiguous' if 'ambiguous' in r.stderr else ('lx exits with %d: %s' % (r.returncode, r.stderr[:150])).replace('"', "'").replace('\\', '/').replace('\n', ' ')
            t = '%s/tu%d.c' % (d, i)
            open(t, 'w').write(open(p + '.pre').read() + '#define LX_HEADER "%s.outh"\n#include "%s.outc"\n' % (p, p) + open(p + '.post').read())
            r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-I', H, '-I', os.path.join(VERIF, 'symx/include')] + BASE + [t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode: os.unlink(t); return 'what lx makes does not compile'
            return ''
        with ThreadPoolExecutor(NJ) as ex: bad = list(ex.map(one, range(first, first + count)))
        t = '#include "lxw.h"\n' + ''.join('extern const struct lxw f%d_w;\n' % (first + i) for i in range(count) if not bad[i])
        t += 'const struct lxw *const gen_lx[] = {%s};\n' % ','.join('0' if bad[i] else '&f%d_w' % (first + i) for i in range(count))
        t += 'const char *const gen_msg[] = {%s};\n' % ','.join('"%s"' % x for x in bad)
        t += 'const unsigned gen_kind = %d, gen_langs = %d, gen_first = %d, gen_count = %d;\n' % (kind, langs, first, count)
        open(d + '/table.c', 'w').write(t); open(d + '/ok', 'w').write('ok')
    return sorted(glob.glob(d + '/tu*.c')) + [d + '/table.c']

OKUND = {'__errno_location', 'U', 're_comp', 're_exec'}
_ls = None
def libc_syms():
    global _ls
    if _ls is None:
        o = subprocess.run('nm -D --defined-only /lib/x86_64-linux-gnu/libc.so.6', shell=True, stdout=subprocess.PIPE, text=True).stdout
        _ls = set(l.split()[-1].split('@')[0] for l in o.splitlines() if l.split())
    return _ls

def run_symx(h, entry, params=None, tlimit=300, workers=NJ, maxviol=8, cpu=60):
    b = h.build('sym'); rd = os.path.join(BUILD, 'out'); os.makedirs(rd, exist_ok=True)
    out = os.path.join(rd, '%s.%s.%d.json' % (os.path.basename(h.src), entry, os.getpid()))
    cmd = [b, entry, '-j', str(workers), '-t', str(tlimit), '-o', out, '-V', str(maxviol), '-T', str(cpu)] + ['%s=%d' % kv for kv in (params or {}).items()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tlimit + 120)
    if not os.path.exists(out): raise RuntimeError('symx failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    r = json.load(open(out)); os.unlink(out); r['engine_output'] = p.stdout[-2000:]
    return r

def replay(h, entry, params, inp, mode='asan', verbose=False):
    b = h.build(mode)
    f = os.path.join(BUILD, 'out', 'in.%d' % os.getpid()); open(f, 'w').write(' '.join(map(str, inp)))
    cmd = [b, entry, '-i', f] + ['%s=%d' % kv for kv in (params or {}).items()] + (['-v'] if verbose else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=150)
    except subprocess.TimeoutExpired as e:
        return True, 'hang (replay exceeded 150 s)'
    os.unlink(f)
    ok = p.returncode == 0
    return (not ok), p.stdout[-3000:]

# ------------------------------------------------------------------ checks
class Job:
    def __init__(self, src, entry, quick, thorough=None, parts=('adt', 'print', 'libfsm'), reach=(), what='', tl=(200, 1200), maxviol=8, only=None, cpu=60, **hk):
        self.src = src; self.entry = entry; self.quick = quick; self.thorough = thorough if thorough is not None else quick
        self.parts = parts; self.reach = reach; self.what = what; self.tl = tl; self.maxviol = maxviol; self.only = only; self.hk = hk; self.cpu = cpu

RE = ('adt', 'print', 'libfsm', 'libre')

def load_known():
    """known: property=<id> job=<entry> msg=<substring> [input=<n,n,..|*>]"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                out.append(dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l[6:])))
    for k in out:
        for f in k: k[f] = k[f].strip('"')
    return out

def match_known(known, pid, job, v):
    for k in known:
        if k.get('property') != pid or k.get('job') not in (job.entry, '*'): continue
        if k.get('msg') and k['msg'] not in v['msg']: continue
        if k.get('input', '*') != '*' and [int(x) for x in k['input'].split(',')] != v['input'][:len(k['input'].split(','))]: continue
        return k
    return None

def run_check(pid, jobs, level='model_checking', assumptions=(), extra=None, bounds=''):
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time(); known = load_known(); nviol = 0; known_seen = set(); jr = []; fns = set(); tot = {}
    samples = []; unconf = []; vac = []
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    repd = os.path.join(VERIF, '.build', 'replay'); os.makedirs(repd, exist_ok=True)
    budget = float(os.environ.get('SX_BUDGET', '780' if tier == 'quick' else '100000'))
    for job in jobs:
        if job.only and tier not in job.only: continue
        params = dict(job.quick if tier == 'quick' else job.thorough)
        h = Harness(job.src, parts=job.parts, **job.hk)
        left = budget - (time.time() - t0)
        if left < 20:
            jr.append(dict(job=job.entry, skipped='time budget')); tot['incomplete'] = tot.get('incomplete', 0) + 1; continue
        r = None
        for attempt in (0, 1):
            try:
                r = run_symx(h, job.entry, params, tlimit=min(job.tl[0 if tier == 'quick' else 1], left), maxviol=job.maxviol, cpu=job.cpu)
                if r['workers_failed'] == 0 and r['divergence'] == 0: break
                print('# engine trouble in %s (%d workers failed, %d divergences): %s' % (job.entry, r['workers_failed'], r['divergence'], r['engine_output'][-300:]))
            except RuntimeError as e:
                if 'command failed' in str(e): # /repo does not compile in this form
                    print('# build error: %s' % str(e)[:3000]); raise
                print('# engine error: %s' % str(e)[:2000])
        if r is None:
            jr.append(dict(job=job.entry, error='engine')); tot['incomplete'] = tot.get('incomplete', 0) + 1; continue
        fns |= set(r['functions'])
        for s in r['samples'][:3]: samples.append(dict(job=job.entry, inputs=s))
        for k in ('runs', 'paths', 'symbolic_branches', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'table_queries', 'cached_queries', 'asserts', 'symbolic_asserts', 'solver_s', 'concretisations'):
            tot[k] = tot.get(k, 0) + r[k]
        if not r['complete'] and not r['violations']: tot['incomplete'] = tot.get('incomplete', 0) + 1
        j = {k: r[k] for k in ('runs', 'paths', 'z3_queries', 'table_queries', 'cached_queries', 'solver_s', 'max_query_s', 'wall_s', 'complete', 'max_depth', 'inputs', 'reach', 'asserts', 'symbolic_asserts', 'divergence', 'workers_failed')}
        j.update(job=job.entry, harness=job.src, params=params, what=job.what); jr.append(j)
        fresh = 0
        for v in r['violations']:
            k = match_known(known, pid, job, v)
            mode = 'msan' if v['kind'] == 'uninit' else 'asan'
            try: ok, out = replay(h, job.entry, params, v['input'], mode)
            except RuntimeError as e: ok, out = False, str(e)[-500:]
            if not ok and mode == 'asan':
                try: ok, out2 = replay(h, job.entry, params, v['input'], 'nat'); out += out2
                except RuntimeError as e: pass
            if not ok:
                unconf.append(dict(job=job.entry, violation=v, replay=out[-400:])); print('# not reproduced natively, not reported: %s %s input=%s' % (v['kind'], v['msg'], v['input'])); continue
            if k:
                key = k.get('what', k.get('msg'))
                if key not in known_seen: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k.get('what', v['msg']), job.entry))
                known_seen.add(key); continue
            path = os.path.join(repd, '%s-%s-%d.json' % (pid, job.entry, nviol))
            json.dump(dict(property=pid, harness=job.src, entry=job.entry, params=params, input=v['input'], kind=v['kind'], msg=v['msg'], replay_output=out,
                           how='python3 /verif/check.py replay %s' % path), open(path, 'w'), indent=1)
            if fresh < 3:
                print('%s: %s: %s  inputs=%s' % (job.entry, v['kind'], v['msg'], v['input']))
                print('VIOLATION property=%s replay=%s' % (pid, path)); sys.stdout.flush()
            fresh += 1; nviol += 1
        if not r['violations']:
            miss = [t for t in job.reach if t not in r['reach']] or ([] if r['reach'] else ['any final check'])
            if miss and r['complete']:
                path = os.path.join(repd, '%s-%s-vacuous.json' % (pid, job.entry)); json.dump(dict(property=pid, missing=miss, job=j), open(path, 'w'))
                print('%s: the exploration is complete but never reached %s' % (job.entry, miss)); print('VIOLATION property=%s replay=%s' % (pid, path)); nviol += 1
        print('# %s: %s%d paths, %d z3 + %d table + %d cached queries, solver %.1f s, wall %.1f s' % (job.entry, '' if r['complete'] else 'NOT EXHAUSTED, ', r['paths'], r['z3_queries'], r['table_queries'], r['cached_queries'], r['solver_s'], r['wall_s'])); sys.stdout.flush()
        if nviol >= 3: break
    cov = dict(states=tot.get('paths', 0), transitions=tot.get('symbolic_branches', 0) + tot.get('concretisations', 0), traces_validated_against_impl=tot.get('runs', 0),
               samples=samples[:12] or ['none'], exhaustive=not tot.get('incomplete'),
               explanation='states = symbolic paths of the instrumented real code explored to the end, transitions = symbolic decisions taken on them; every run executes the real code compiled from /repo, so each path is also a concrete trace of it. Branch feasibility is decided by z3 (z3_queries) or, for constraints over a single symbolic byte, by a complete 256-row truth table (table_queries).',
               solver=dict(z3_queries=tot.get('z3_queries', 0), sat=tot.get('z3_sat', 0), unsat=tot.get('z3_unsat', 0), unknown=tot.get('z3_unknown', 0), table_queries=tot.get('table_queries', 0), cached_queries=tot.get('cached_queries', 0), seconds=round(tot.get('solver_s', 0), 2)),
               assertions_evaluated=tot.get('asserts', 0), assertions_decided_over_symbols=tot.get('symbolic_asserts', 0),
               bounds=bounds, jobs=jr, functions_encoded=len(fns), functions=sorted(fns), unconfirmed=unconf)
    if extra: cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    return 1 if nviol else 0
