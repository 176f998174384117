#!/usr/bin/env python3
"""Write MANIFEST.json from lib/plan.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(V + '/lib/plan.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/lib/not_applicable.json'))
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
         if ' Label' in l or ' Add labels' in l]
m = {'version': 1, 'setup_cmd': 'sh bin/setup.sh',
     'hooks': {'guard': 'LIBMSEED_VERIFY', 'enable': '-DLIBMSEED_VERIFY=\'"vp_labels.h"\' (goto-cc, by bin/check.py): labels expand to the loop contracts of the unit', 'source_commits': hooks[::-1]},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in plan:
        e = plan[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s' % i, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': e.get('technique', 'contract-based deductive verification of the C source (CBMC dfcc function and loop contracts)'),
                            'level': e['level'], 'level_note': e['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': na.get(i, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
