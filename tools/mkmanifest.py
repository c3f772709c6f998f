#!/usr/bin/env python3
# Writes MANIFEST.json for the checks that exist.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
T = json.load(open(os.path.join(V, 'tools', 'manifest_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='Checks build their drivers from /repo/src on every run and keep nothing. No hooks were added to /repo: the monitors interpose at public interfaces, linker symbols and compiler instrumentation. '
               'Every check is python3 run.py <ID>; python3 run.py replay <file> repeats the case of a violation.')
for p in props:
    if p in checks.REGISTRY and p in T:
        m['checks'].append(dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p, technique=T[p][0], level='exploration', level_note=T[p][1]))
    else: m['not_applicable'].append(dict(property=p, reason='machinery not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
