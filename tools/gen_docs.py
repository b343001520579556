#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan, props
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in props.PROPS:
    t, n = props.TECH[p['id']]
    if p['id'] in plan.CHECKS:
        checks.append({'property': p['id'], 'quick_cmd': f'./run.sh {p["id"]} quick', 'thorough_cmd': f'./run.sh {p["id"]} thorough',
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p['id'], 'reason': getattr(props, 'NA', {}).get(p['id'], 'no check yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py bin/visqol_fast', 'checks': checks, 'not_applicable': na,
     'notes': 'Checks build /repo\'s working tree into /verif/_build with stand-ins for TensorFlow Lite and pffft (shim/); no hooks are needed in /repo.'}
if getattr(props, 'HOOKS', None):
    m['hooks'] = props.HOOKS
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
missing = set(plan.CHECKS) - {p['id'] for p in props.PROPS}
if missing:
    sys.exit(f'no property text for {missing}')
