#!/usr/bin/env python3
"""check.py <property> | replay <file> | setup"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vlib, registry
def main():
    a = sys.argv[1]
    if a == 'setup':
        eng = vlib.build_engine()
        vlib.compile_repo(eng, vlib.lib_sources(vlib.RE), 'sym')
        return 0
    if a == 'replay':
        j = json.load(open(sys.argv[2])); 
        job = [x for x in registry.CHECKS[j['property']]['jobs'] if x.entry == j['entry']][0]
        h = vlib.Harness(job.src, parts=job.parts, **job.hk)
        bad, out = vlib.replay(h, j['entry'], j['params'], j['input'], 'msan' if j['kind'] == 'uninit' else 'asan', verbose=True); print(out); return 1 if bad else 0
    c = registry.CHECKS[a]
    if 'run' in c: return c['run'](a, c)
    return vlib.run_check(a, c['jobs'], assumptions=c.get('assumptions', ()), bounds=c.get('bounds', ''), level=c.get('level', 'model_checking'))
sys.exit(main())
