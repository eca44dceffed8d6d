#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs the check of its property
(or those given with --checks), and undoes it.

  runseeds.py [--all-checks | --checks C01,C02] [--seed N] [ID...]
"""
import json, os, subprocess, sys, time, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--all-checks', action='store_true')
ap.add_argument('--checks')
ap.add_argument('--seed', default='1')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
env = dict(os.environ, VERIF_SEED=a.seed, VERIF_TIER='quick')
def git(*c): return subprocess.run(['git', '-C', '/repo', *c], capture_output=True, text=True)
if git('status', '--porcelain').stdout.strip():
    sys.exit('/repo is not clean')
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
ids = a.ids or sorted(os.listdir(V + '/seeded'))
missed = []
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    checks = allp if a.all_checks else a.checks.split(',') if a.checks else [prop]
    r = git('apply', d + '/patch.diff')
    if r.returncode:
        print(i, 'does not apply', r.stderr); continue
    try:
        for c in checks:
            t = time.time()
            r = subprocess.run([sys.executable, V + '/check.py', c], capture_output=True, text=True, env=env)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            caught = r.returncode == 1 and v
            print(f'{i} {c}: exit {r.returncode} {"CAUGHT" if caught else "missed"} {time.time()-t:.0f}s', flush=True)
            if not caught and r.returncode != 0:
                print(r.stdout[-1500:], r.stderr[-1500:])
            if c == prop and not caught: missed.append(i)
    finally:
        git('checkout', '--', '.')
print('missed:', missed)
