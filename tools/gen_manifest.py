#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the properties."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D + '/tools')
import registry
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
TECH = 'symbolic execution of the real code (LLVM IR) with z3 deciding branches and assertions'
NOTE = 'Bounded: holds for every value of the symbolic inputs within the bounds given for each job in tools/registry.py and the evidence file; structure is enumerated by solver-guided forking, bytes stay symbolic. Trusts clang, the engine in symx/ and z3. Violations are replayed on a native sanitizer build of the same sources before they are reported.'
checks = []; na = []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                           technique=c.get('technique', TECH), level=c.get('level', 'model_checking'), level_note=(c.get('note', '') + ' ' + NOTE).strip()))
    else:
        na.append(dict(property=p['id'], reason=registry.NA.get(p['id'], 'No check is built for this property yet.')))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na)
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1); open(D + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
