#!/usr/bin/env python3
"""Mutation testing of the checks: applies each mutant that tools/mutate lists to
a copy of /repo (in a mount namespace of its own, where the copy is at /repo), and
if it builds and the existing tests pass, runs the checks until one reports it.

  mutrun.py filter MUTANTS OUT [WORKERS]        which build and pass the tests
Instead of a file and range a mutant may give "id", "edits" (a list of file, old,
new) and "checks".

  mutrun.py check SURVIVORS OUT [SCALE [CHECKS]]  which checks report them
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORDER = {
    'header.go': 'C01 C05 C06 C03 C04 C02 C08 C15 C23',
    'rpmutils.go': 'C01 C06 C02 C03 C18 C15 C26 C07 C16 C23 C24 C20 C08 C30',
    'payload.go': 'C15 C26 C16 C23 C17 C25 C20',
    'nevra.go': 'C22 C06 C21', 'fileinfo.go': 'C05 C15 C25', 'filesigs.go': 'C29', 'errors.go': 'C01', 'tags.go': 'C29',
    'uncompress.go': 'C20 C23 C26 C24 C16', 'uncompress_cgo.go': 'C20 C26', 'uncompress_nocgo.go': 'C20 C26',
    'signatures.go': 'C07 C08 C13 C12 C10 C04 C28 C24 C26 C09 C11 C30',
    'writeheader.go': 'C11 C08 C07 C12 C03 C13',
    'verify.go': 'C28 C09 C07 C10 C04 C30', 'verify_digests.go': 'C10 C09 C28 C07 C24', 'verify_nov3.go': 'C28', 'verify_v4.go': 'C28 C09 C07',
    'vercmp.go': 'C21 C22',
    'cpio/cpio.go': 'C14 C17 C16 C15 C25 C18 C23', 'cpio/header.go': 'C14 C17 C15 C18 C16 C23', 'cpio/reader.go': 'C14 C16 C17 C15',
    'cpio/stream.go': 'C14 C16 C23 C15 C25', 'cpio/extract.go': 'C18 C19 C16 C17 C24 C23 C26',
    'fileutil/fileutil_unix.go': 'C13 C18 C19',
}

def sh(cmd, env, timeout, cwd='/repo'):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None

def goenv(**kw):
    e = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ['PATH'], GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOENV="off")
    e.update(kw)
    return e

def private(n, tmp):
    """A private view: a copy of /repo at /repo, and of /verif at /verif."""
    d = f'{tmp}/{n}'
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['cp', '-a', V, d + '/verif'], check=True)
    os.unshare(os.CLONE_NEWNS)
    subprocess.run(['mount', '--make-rprivate', '/'], check=True)
    subprocess.run(['mount', '--bind', d + '/repo', '/repo'], check=True)
    subprocess.run(['mount', '--bind', d + '/verif', '/verif'], check=True)

def apply(m):
    if 'edits' in m:
        olds = {}
        for f, a, b in m['edits']:
            p = '/repo/' + f
            s = open(p, 'rb').read()
            olds.setdefault(p, s)
            if s.count(a.encode()) != 1:
                restore(olds, None)
                raise SystemExit(f"{m['id']}: {s.count(a.encode())} matches of {a!r}")
            open(p, 'wb').write(s.replace(a.encode(), b.encode()))
        return olds, None
    p = '/repo/' + m['file']
    old = open(p, 'rb').read()
    open(p, 'wb').write(old[:m['start']] + m['text'].encode() + old[m['end']:])
    return p, old

def restore(p, old):
    for f, b in (p.items() if isinstance(p, dict) else [(p, old)]):
        open(f, 'wb').write(b)

def do_filter(m):
    p, old = apply(m)
    try:
        cgo = '0' if 'nocgo' in m.get('file', '') else '1'
        for pkg in ('./cpio', '.') if '/' in m.get('file', '/') else ('.',):
            # as nobody: what is mutated may delete and overwrite files
            r = sh(['go', 'test', '-vet=off', '-c', '-ldflags=-s -w', '-o', '/repo/t.bin', pkg], goenv(CGO_ENABLED=cgo), 120)
            if r is None or r.returncode: return 'nobuild'
            r = sh(['setpriv', '--reuid', '65534', '--regid', '65534', '--clear-groups', '/repo/t.bin', '-test.timeout', '30s', '-test.failfast'], dict(os.environ, TMPDIR='/repo/tmp'), 60, os.path.join('/repo', pkg))
            if r is None or r.returncode: return 'tests'
        return 'survives'
    finally:
        restore(p, old)

BUILD = []
def build0(check, tmp, race=False):
    if not BUILD: BUILD.append(check.build)
    os.makedirs(tmp, exist_ok=True)
    os.chmod(tmp, 0o755)
    return BUILD[0](tmp, race)

def do_check(m, scale, checks):
    p, old = apply(m)
    res = {}
    tmp = '/repo/tmp/bins'
    os.makedirs(tmp); os.chmod(tmp, 0o755)
    try:
        sys.path.insert(0, '/verif')
        import check, io, contextlib
        check.GRACE = 0
        try:
            bins = build0(check, tmp)
        except check.CheckError:
            return 'nobuild', res
        check.build = lambda *a, **k: bins
        for c in (checks or m.get('checks') or ORDER[m['file']].split()):
            t = time.time()
            if c in check.RACE:
                raced = build0(check, tmp + '/race', True)
                check.build = lambda *a, **k: raced
            else:
                check.build = lambda *a, **k: bins
            sys.argv = ['check.py', c, '--scale', str(scale), '--tier', 'quick', '--seed', '1']
            o = io.StringIO()
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
                try:
                    rc = check.main()
                except SystemExit as e:
                    rc = e.code
            res[c] = [rc, round(time.time() - t, 1)]
            if rc == 1:
                return c, res
            if rc != 0:
                res[c].append(o.getvalue()[-300:])
        return None, res
    finally:
        restore(p, old)
        shutil.rmtree(tmp)

def key(d):
    return d.get('id') or (d['file'], d['start'], d['end'], d['text'])

def main():
    argv = list(sys.argv)
    mode, src, out = argv[1:4]
    ms = [json.loads(l) for l in open(src)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add(key(d))
    ms = [m for m in ms if key(m) not in done]
    tmp = '/tmp/mutrun.%d' % os.getpid()
    workers = int(argv[4]) if mode == 'filter' and len(argv) > 4 else 1 if mode == 'check' else 4
    pids = []
    try:
        for n in range(workers):
            pid = os.fork()
            if pid == 0:
                os.environ['TMPDIR'] = '/tmp'
                fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                private(n, tmp)
                os.makedirs('/repo/tmp')
                os.chmod('/repo/tmp', 0o777)
                for m in ms[n::workers]:
                    if mode == 'filter':
                        m['result'] = do_filter(m)
                    else:
                        if 'edits' in m: m['result'] = do_filter(m)
                        m['caught'], m['runs'] = do_check(m, float(argv[4]) if len(argv) > 4 else 1, argv[5].split(',') if len(argv) > 5 else None)
                    os.write(fd, (json.dumps(m) + '\n').encode())
                os._exit(0)
            pids.append(pid)
        for p in pids: os.waitpid(p, 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
main()
