#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, lets the explorer enumerate, writes evidence/<id>.json.

usage: check.py ID [--tier quick|thorough]   (tier defaults to $VERIF_TIER)
Exit 0: held on everything explored; 1: VIOLATION printed; 3: no answer.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
import plan

OUT = os.environ.get('VERIF_EVIDENCE', VERIF)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    p = plan.CHECKS[prop]
    runs = [r for r in p['runs'] if tier == 'thorough' or not r.get('thorough_only')]
    targets = sorted({'bin/' + b for r in runs for b in [r['bin']] + r.get('needs', [])})
    ok, log = build.build(targets)
    if not ok:
        sys.stdout.write(log[-8000:])
        print('error: the harness does not build against the working tree')
        return 3
    t1 = time.time()
    print(f'built {" ".join(targets)} in {t1 - t0:.1f} s', flush=True)
    tot = {}
    samples, scen, notes = [], {}, []
    rc = 0
    nviol = 0
    for r in runs:
        js = f'{build.B}/{prop}-{r["bin"]}.json'
        if os.path.exists(js):
            os.remove(js)
        cmd = [f'{build.B}/bin/{r["bin"]}', '--property', prop, '--tier', tier, '--json', js,
               '--replay-dir', OUT + '/replay', '--known', f'{VERIF}/known_findings.txt',
               '--budget', str(r.get('budget', {}).get(tier, 240 if tier == 'quick' else 3000))]
        env = dict(os.environ)
        env['VERIF_BIN'] = build.B + '/bin'
        env['VERIF_REPO'] = build.REPO
        env.update(r.get('env', {}))
        q = subprocess.run(cmd, cwd=build.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        sys.stdout.write(q.stdout)
        sys.stdout.flush()
        e = json.load(open(js)) if os.path.exists(js) else {}
        for k, v in e.items():
            if isinstance(v, bool):
                tot[k] = tot.get(k, k == 'finished') and v if k == 'finished' else tot.get(k, False) or v
            elif isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k == 'max_depth' else tot.get(k, 0) + v
        samples += [f'[{r["bin"]}] {s}' for s in e.get('samples', [])]
        for k, v in e.get('scenarios', {}).items():
            if v:
                scen[f'{r["bin"]}/{k}'] = v
        nviol += e.get('violations', 0)
        if q.returncode == 1:
            rc = 1
        elif q.returncode != 0 and rc == 0:
            print(f'error: {r["bin"]} ended with {q.returncode}')
            rc = 3
    ex = int(tot.get('executions', 0)) + int(tot.get('inner', 0))
    cov = {
        'states': int(tot.get('nodes', 0)) + int(tot.get('inner', 0)),
        'transitions': int(tot.get('edges', 0)) + int(tot.get('inner', 0)),
        'traces_validated_against_impl': ex - int(tot.get('trivial', 0)),
        'evaluations': ex,
        'distinct_nontrivial': int(tot.get('outcomes', 0)),
        'rule': p['rule'],
        'skipped': int(tot.get('skipped', 0)),
        'max_depth': int(tot.get('max_depth', 0)),
        'executions_per_scenario': scen,
        'exhaustive': bool(tot.get('finished')),
        'bounds': p['bounds'][0 if tier == 'quick' else 1] if isinstance(p['bounds'], (list, tuple)) else p['bounds'],
        'samples': samples or ['none'],
    }
    os.makedirs(OUT + '/evidence', exist_ok=True)
    with open(f'{OUT}/evidence/{prop}.json', 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': p.get('level', 'model_checking'),
                   'coverage': cov, 'assumptions': p.get('assumptions', []),
                   'wall_s': round(time.time() - t0, 2), 'violations': nviol}, f, indent=1)
        f.write('\n')
    if rc == 0 and not tot.get('finished'):
        print('note: a cap was hit; the evidence says what was covered')
    return rc


if __name__ == '__main__':
    sys.exit(main())
