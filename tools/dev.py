#!/usr/bin/env python3
"""Development: dev.py [-t SECONDS] [-v] [re] SRC ENTRY[:k=v,k=v] ... runs entries and replays violations."""
import sys, os
from vlib import *
a = sys.argv[1:]; tl = 60; v = False; parts = ('adt', 'print', 'libfsm'); hk = {}
while a and (a[0] in ('-t', '-v', 're', '-rp', '-g', '-l')):
    if a[0] == '-l': hk['local'] = eval(a[1]); a = a[1:]
    elif a[0] == '-g': hk['gen'] = dict(zip(('src', 'kind', 'langs', 'first', 'count', 'ext'), [a[1].split(',')[0]] + [int(x) for x in a[1].split(',')[1:5]] + a[1].split(',')[5:])); a = a[1:]
    elif a[0] == '-t': tl = int(a[1]); a = a[1:]
    elif a[0] == '-v': v = True
    elif a[0] == '-rp': sys.exit(0)
    else: parts = RE
    a = a[1:]
src = a[0]; h = Harness(src, parts=parts, **hk)
try: h.build('sym')
except RuntimeError as e: print(str(e)[-2500:]); sys.exit(1)
for e in a[1:]:
    ent, _, ps = e.partition(':'); params = {k: int(x) for k, x in (p.split('=') for p in ps.split(',') if p)}
    r = run_symx(h, ent, params, tlimit=tl)
    print('%s %s: %s paths=%d z3=%d solver=%.1f wall=%.1f depth=%d %s viol=%d dead=%d fail=%d div=%d%s' % (ent, ps, 'complete' if r['complete'] else 'INCOMPLETE', r['paths'], r['z3_queries'], r['solver_s'], r['wall_s'], r['max_depth'], r['reach'], r['violations_total'], r['assume_killed'], r['workers_failed'], r['divergence'], ' ' + r['engine_output'][-300:] if r['engine_output'].strip() else ''))
    seen = set()
    for x in r['violations']:
        if x['msg'] in seen: continue
        seen.add(x['msg']); print('   ', x['kind'], x['msg'], x['input'])
        ok, out = replay(h, ent, params, x['input'], 'asan', v); print('      replay:', ok, out[-1500 if v else -300:].replace('\n', '\n      '))
    sys.stdout.flush()
