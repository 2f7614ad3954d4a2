#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vc'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=props.TECHNIQUE + (' ' + s['technique'] if 'technique' in s else ''), level='proof',
            level_note=s.get('note', props.NOTE) + (' Bounded, not proved: %s.' % s['bounded'] if 'bounded' in s else ''), theorems=s.get('theorems', [])))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the verified text is the MIR that rustc emits for /repo\'s current tree. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
