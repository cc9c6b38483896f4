#!/usr/bin/env python3
# Writes MANIFEST.json for the properties whose checks are in the harness
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([root + '/build/vh', 'list'], capture_output=True, text=True, check=True).stdout
rules = dict(l.split(' ', 1) for l in out.splitlines() if l)
tech = json.load(open(root + '/tools/techniques.json'))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './run.sh build', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks use the exported API of the packages'},
     'checks': [], 'not_applicable': []}
note = 'Sampled, not exhaustive: quick runs about 12 s on 8 processes, thorough up to 6 min; failures are shrunk and replayable. Trusts the reference model in /verif/harness, the Go runtime, and lpg v2.0.0 for storing the graph (its defects are listed as known findings). '
for p in props:
    i = p['id']
    if i not in rules:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
        continue
    t = tech.get(i, {})
    m['checks'].append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
        'technique': t.get('technique', 'property-based testing: random queries and graphs against a reference interpreter'),
        'level': 'exploration', 'level_note': note + t.get('note', '')})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
