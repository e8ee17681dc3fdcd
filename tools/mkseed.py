#!/usr/bin/env python3
"""Development: mkseed.py SPEC.py ... : plant the changes in a scratch copy, confirm them, keep them in /verif/seeded.
A spec is a python file with SEEDS = [dict(id=, prop=, edits=[(file, old, new)], needs=, breaks=, demo='C program' | demo_sh=...)]."""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
def sh(c, cwd=None, t=300): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
DEMO = '''#!/bin/sh
# run in /repo after the build; exit 0: the property holds on this demonstration
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cc -std=gnu99 -w -g %s-I include -I src "$here/demo.c" -Wl,--start-group build/lib/libfsm.a build/lib/libre.a -Wl,--end-group -o "$out/demo"
timeout 60 "$out/demo" >"$out/o" 2>&1 || { cat "$out/o"; exit 1; }
'''
def fresh(bdir='/repo'):
    if not os.path.isdir(S): subprocess.check_call(['cp', '-a', '/repo', S])
    h = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if sh('git rev-parse HEAD', S).stdout.strip() != h:
        shutil.rmtree(S); subprocess.check_call(['cp', '-a', '/repo', S])
    sh('git checkout -q -- .', S)
VP = '/tmp/seedvp'
def vp(d):
    if os.path.isdir(VP): return
    shutil.copytree('/opt/vp', VP, symlinks=True)
    for f in ['build.sh', 'test.sh', 'mk/prep.sh', 'mk/rules.mk', 'results.py']:
        t = open(VP + '/' + f).read(); open(VP + '/' + f, 'w').write(t.replace('/repo', d).replace('/opt/vp', VP))
def build(d):
    vp(d); r = sh('bash %s/build.sh' % VP, d); return r.returncode, (r.stdout + r.stderr)[-800:]
def tests(d):
    r = sh('bash %s/test.sh /tmp/seedout.json' % VP, d)
    try: o = json.load(open('/tmp/seedout.json'))
    except Exception as e: return None, str(e)
    return o, r.stdout[-200:]
def main():
    for spec in sys.argv[1:]:
        ns = {}; exec(open(spec).read(), ns)
        for s in ns['SEEDS']:
            only = os.environ.get('ONLY')
            if only and s['id'] not in only.split(','): continue
            if os.path.isdir(V + '/seeded/' + s['id']) and not os.environ.get('FORCE'): continue
            try: one(s)
            except Exception as e: print(s['id'], 'ERROR', e)
            sys.stdout.flush()
def one(s):
    fresh()
    tmp = '/tmp/seeddir/' + s['id']; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    if 'demo' in s:
        open(tmp + '/demo.c', 'w').write(s['demo']); d = DEMO % ('-fsanitize=address -fno-sanitize-recover=all ' if s.get('asan') else '')
    else: d = s['demo_sh']
    for k, v in s.get('files', {}).items(): open(tmp + '/' + k, 'w').write(v)
    open(tmp + '/demo.sh', 'w').write(d); os.chmod(tmp + '/demo.sh', 0o755)
    r = build(S)
    if r[0]: print(s['id'], 'base build failed', r[1]); return
    r = sh('sh %s/demo.sh' % tmp, S)
    if r.returncode: print(s['id'], 'DEMO FAILS ON UNCHANGED TREE', (r.stdout + r.stderr)[-600:]); return
    for f, a, b in s['edits']:
        t = open(S + '/' + f).read()
        if t.count(a) != 1: print(s['id'], 'edit matches', t.count(a), 'times in', f); return
        open(S + '/' + f, 'w').write(t.replace(a, b))
    try:
        r = build(S)
        if r[0]: print(s['id'], 'does not build', r[1]); return
        o, m = tests(S)
        base = json.load(open('/opt/vp/BASELINE.json'))
        fl = failing(o, base)
        if fl: print(s['id'], 'TESTS FAIL', len(fl), fl[:3], m); return
        r = sh('sh %s/demo.sh' % tmp, S)
        if r.returncode == 0: print(s['id'], 'demo does not fail with the change'); return
        out = (r.stdout + r.stderr).strip()[-150:]
        df = sh('git diff', S).stdout
    finally:
        sh('git checkout -q -- .', S)
    dst = V + '/seeded/' + s['id']; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(tmp, dst)
    open(dst + '/patch.diff', 'w').write(df)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
    print(s['id'], 'kept;', out)
def failing(o, base):
    def names(x, key):
        return set(x.get(key, [])) if isinstance(x, dict) else set()
    ps = names(o, 'passed'); bl = base if isinstance(base, list) else base.get('stable') or []
    return [t for t in bl if t not in ps]
main()
