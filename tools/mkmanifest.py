#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and checks.py
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, d)
from checks import CHECKS, TECH
props = [json.loads(l) for l in open(d + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 vf.py check %s --tier quick' % i, 'thorough_cmd': 'python3 vf.py check %s --tier thorough' % i,
                       'technique': TECH.get(i, ('runtime monitoring: online differential monitor against an independent GMP reference model, hostile workloads, several build variants incl. ASan/UBSan', ''))[0],
                       'level': 'exploration',
                       'level_note': TECH.get(i, ('', ''))[1] or 'Held on the executions driven (counts in the evidence file); the oracle is an independent model, so any deviation on a driven input is seen. Assumes GMP and the reference model are right; inputs not driven are not covered.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 vf.py setup',
     'hooks': {'guard': 'LIBFF_VERIF_HOOKS', 'enable': 'no hook is needed so far: monitors observe through the public API, public representations, interposed entropy sources and sanitizers', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
