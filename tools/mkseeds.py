#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each: the patch
applies to /repo's HEAD and changes original lines only, both builds and the
suite pass with it, and the demonstration passes without and fails with it.

  mkseeds.py [ID...]      all by default; nothing else in seeded/ is touched
"""
import concurrent.futures, glob, json, os, re, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '9069464'
LIB = open(V + '/tools/seeds/lib_test.go.txt').read()
DEMO = r'''#!/bin/bash
# Runs TestDemo against the library in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo_test.go", "$PWD/zz_demolib_test.go": "$here/lib_test.go"}}
J
export TMPDIR=$tmp
%sgo test -vet=off -count=1 -timeout 200s %s-overlay "$tmp/overlay.json" -run '^TestDemo$' .
'''

def sh(cmd, cwd, check=True, env=None):
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, env=env)
    if check and r.returncode:
        raise RuntimeError(f'{cmd}: {r.stdout[-2000:]}{r.stderr[-2000:]}')
    return r

def make(sid, s):
    sc = tempfile.mkdtemp(prefix='seed-' + sid + '-', dir='/tmp')
    try:
        sh(f'cp -a /repo/. {sc}/ && git checkout -q -- . && git status --porcelain', sc)
        mine = set()
        for path, old, new in s['edits']:
            src = open(f'{sc}/{path}').read()
            if src.count(old) != 1:
                raise RuntimeError(f'{path}: {src.count(old)} matches of {old!r}')
            open(f'{sc}/{path}', 'w').write(src.replace(old, new))
        bad = sh('gofmt -l *.go cpio fileutil', sc).stdout.strip()
        if bad:
            raise RuntimeError('gofmt: ' + bad)
        patch = sh('git diff', sc).stdout
        # changed lines must be original ones
        touched = 0
        for f in set(e[0] for e in s['edits']):
            blame = sh(f'git blame -s HEAD -- {f}', sc).stdout.split('\n')
            d = sh(f'git diff -U0 -- {f}', sc).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', d, re.M):
                n = int(m[2] if m[2] is not None else 1)
                if n == 0:
                    near = blame[int(m[1]) - 1]
                    if not near.startswith('^'):
                        print(f'{sid}: note: inserts after a line of a fix: {near}')
                for l in blame[int(m[1]) - 1:int(m[1]) - 1 + n]:
                    if l.startswith('^'):
                        touched += 1
                    else:
                        raise RuntimeError('changes a line of a fix: ' + l)
        if not touched:
            print(f'{sid}: note: only inserts lines')
        out = f'{V}/seeded/{sid}'
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(f'{out}/{f}')
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo_test.go', 'w').write('package rpmutils_test\n' + s['demo'])
        open(out + '/lib_test.go', 'w').write(LIB)
        open(out + '/demo.sh', 'w').write(DEMO % ('CGO_ENABLED=0 ' if s.get('nocgo') else '', '-race ' if s.get('race') else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        sh('CGO_ENABLED=1 go build ./... && CGO_ENABLED=0 go build ./... && GOOS=windows CGO_ENABLED=0 go build ./...', sc)
        for cgo in '10':
            sh(f'CGO_ENABLED={cgo} go test -vet=off -count=1 ./...', sc)
        elsewhere = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
        try:
            sh(f'cp {out}/demo.sh {out}/*.go {elsewhere}', sc)
            r = sh(elsewhere + '/demo.sh', sc, check=False)
            if r.returncode == 0:
                raise RuntimeError('the demonstration passes with the patch')
            if 'build failed' in r.stdout or '--- FAIL' not in r.stdout and 'DATA RACE' not in r.stdout and 'panic' not in r.stdout + r.stderr:
                raise RuntimeError('odd failure: ' + r.stdout + r.stderr)
            what = [l.strip() for l in r.stdout.split('\n') if '_test.go' in l or 'panic' in l][:1]
            sh('git checkout -q -- .', sc)
            r = sh(elsewhere + '/demo.sh', sc, check=False)
            if r.returncode:
                raise RuntimeError('the demonstration fails without the patch: ' + r.stdout + r.stderr)
        finally:
            shutil.rmtree(elsewhere)
        return f'{sid}: ok {what}'
    except Exception as e:
        return f'{sid}: FAILED {e}'
    finally:
        shutil.rmtree(sc)

seeds = {}
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    seeds.update(runpy.run_path(f)['SEEDS'])
want = sys.argv[1:] or list(seeds)
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for r in ex.map(lambda i: make(i, seeds[i]), want):
        print(r, flush=True)
