#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

  check.py C01                 tier and seed from VERIF_TIER and VERIF_SEED
  check.py C01 --replay FILE   runs the one recorded case

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself could not do its work.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
NOBODY = 65534
GO_ENV = dict(
    HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
    GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", CC="gcc", LANG="C.UTF-8")

LEVELS = {"C12": "fault_enumeration", "C24": "fault_enumeration", "C31": "fault_enumeration", "C16": "fault_enumeration"}

ASSUMPTIONS = [
    "the independent encoders, parsers and models in /verif/harness are right about the RPM, cpio, OpenPGP and compression formats",
    "generated-input search: absence of a violation is evidence over the cases run, not a proof",
]


class CheckError(Exception):
    pass


GRACE = 20  # seconds left to the other shards once one has a violation
RACE = {"C27"}  # properties whose cgo half runs under the race detector

# Sub-checks that the thorough tier also gives to Go's coverage-guided fuzzer.
FUZZ = {
    "C01": ["accessors"], "C02": ["extent"], "C03": ["raw", "mutated"], "C04": ["record"], "C05": ["files", "inconsistent"],
    "C06": ["identity"], "C08": ["raw"], "C09": ["tamper"], "C10": ["digests"], "C11": ["dump"], "C14": ["newc"], "C15": ["payload", "foreign"],
    "C16": ["truncated"], "C17": ["bytes", "damaged", "stripped", "calls", "payload-calls"], "C18": ["tree"], "C19": ["hostile"],
    "C20": ["compressors"], "C21": ["random"], "C22": ["order", "packages"], "C23": ["chunking"], "C24": ["fault"], "C28": ["metadata"],
    "C30": ["headers", "payloads"],
}
FUZZ_SECONDS = 90


def build(tmp, race=False):
    """Builds the harness against /repo, with and without cgo."""
    src = os.path.join(tmp, "src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    bins = []
    procs = []
    for cgo in ("1", "0"):
        out = os.path.join(tmp, "harness-cgo" + cgo)
        # each build gets its own go.mod and go.sum: -mod=mod may rewrite them
        mod = os.path.join(tmp, "mod%s.mod" % cgo)
        shutil.copy(os.path.join(src, "go.mod"), mod)
        shutil.copy(os.path.join(src, "go.sum"), mod[:-3] + "sum")
        env = dict(os.environ)
        env.update(GO_ENV, CGO_ENABLED=cgo)
        log = open(os.path.join(tmp, "build%s.log" % cgo), "w+")
        procs.append((cgo, subprocess.Popen(["go", "build"] + (["-race"] if race and cgo == "1" else []) + ["-modfile", mod, "-o", out, "."], cwd=src, env=env, stdout=log, stderr=log), log))
        bins.append(out)
    for cgo, p, log in procs:
        if p.wait() != 0:
            log.seek(0)
            raise CheckError("build (cgo=%s) failed:\n%s" % (cgo, log.read()[-4000:]))
    for b in bins:
        os.chmod(b, 0o755)
    return bins


def as_nobody():
    if os.geteuid() != 0:
        return {}
    return dict(user=NOBODY, group=NOBODY, extra_groups=[])


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Shard:
    def __init__(self, tmp, bins, args, n, total, extra=()):
        self.n, self.tmp = n, tmp
        self.cgo = n % 2 == 0
        self.dir = os.path.join(tmp, "w%d" % n)
        if not os.path.isdir(self.dir):
            os.mkdir(self.dir, 0o755)
            if os.geteuid() == 0:
                os.chown(self.dir, NOBODY, NOBODY)
        self.out = os.path.join(self.dir, "result.json")
        self.casefile = os.path.join(self.dir, "case.json")
        self.cmd = [bins[0] if self.cgo else bins[1], "-prop", args.property, "-tier", args.tier, "-seed", str(args.seed),
                    "-shard", str(n), "-shards", str(total), "-out", self.out, "-scratch", self.dir,
                    "-scale", str(args.scale), "-rootdir", os.path.join(tmp, "rootdir")] + list(extra)
        if args.only:
            self.cmd += ["-only", args.only]
        self.news = None
        self.race = self.cgo and args.property in RACE
        self.start(["-casefile", self.casefile] if self.race else [])

    def start(self, extra=()):
        env = dict(PATH=GO_ENV["PATH"], HOME=self.dir, TMPDIR=self.dir, LANG="C.UTF-8", GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66")
        self.errpath = os.path.join(self.tmp, "err%d" % self.n)
        self.err = open(self.errpath, "w+")
        self.proc = subprocess.Popen(self.cmd + list(extra), cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                     start_new_session=True, preexec_fn=limits, **as_nobody())

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def stderr(self):
        self.err.seek(0)
        return self.err.read()

    def wait(self, deadline):
        try:
            self.proc.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            raise CheckError("shard %d did not finish in time" % self.n)
        return self.proc.returncode

    def result(self):
        with open(self.out) as f:
            return json.load(f)

    def has_news(self, known):
        """Whether it ended with a violation that is not a known finding."""
        if self.proc.poll() is None:
            return False
        if self.news is None:
            self.news = False
            if self.proc.poll() == 1:
                try:
                    self.news = any(finding_key(v) not in known for v in self.result()["violations"] or [])
                except (OSError, ValueError):
                    pass
        return self.news


def died_in_library(text):
    """Whether a worker's last words are a Go crash that no recover can catch."""
    if "cannot allocate memory" in text or "out of memory" in text or "errno=11" in text:
        return None  # may be the machine's fault
    for l in text.splitlines():
        if "harnessError" in l:
            return None
        if l.startswith("panic: ") or l.startswith("fatal error: ") or l.startswith("unexpected fault"):
            return l
    return None


def race_found(text):
    """The race detector's report, if it is about the library."""
    at = text.find("WARNING: DATA RACE")
    if at >= 0 and "github.com/sassoftware/go-rpmutils" in text[at:]:
        return text[at:at + 3000]
    return None


def run(args, tmp):
    bins = build(tmp, args.property in RACE)
    # a place the workers cannot write: root-owned, sticky
    rd = os.path.join(tmp, "rootdir")
    os.mkdir(rd)
    os.chmod(rd, 0o755)
    if os.geteuid() == 0:
        prepare_rootdir(rd)
    deadline = time.time() + (780 if args.tier == "quick" else 3 * 3600)
    total = 1 if args.replay else args.shards
    extra = []
    if args.replay:
        rp = os.path.join(tmp, "replay.json")
        shutil.copy(args.replay, rp)
        os.chmod(rp, 0o644)
        extra = ["-replay", rp]
        with open(rp) as f:
            if not json.load(f).get("cgo", True):
                bins = [bins[1], bins[1]]
    shards = []
    try:
        for i in range(total):
            shards.append(Shard(tmp, bins, args, i, total, extra))
        results, violations, errors = [], [], []
        known = known_findings(args.property)
        # once one shard has a violation that is not listed, the others need not go on
        grace = None
        while any(s.proc.poll() is None for s in shards):
            if time.time() > (grace or deadline):
                break
            if grace is None and any(s.has_news(known) for s in shards):
                grace = min(deadline, time.time() + GRACE)
            time.sleep(0.05)
        for s in sorted(shards, key=lambda s: s.proc.poll() is None):
            if s.proc.poll() is None and any(finding_key(v) not in known for v in violations):
                s.kill()
                continue
            rc = s.wait(deadline)
            if rc in (0, 1, 2) and os.path.exists(s.out):
                r = s.result()
                results.append(r)
                violations += r["violations"] or []
                if rc == 2 or r.get("harness_error"):
                    errors.append("shard %d: %s" % (s.n, r.get("harness_error")))
                elif rc == 1 and not r["violations"]:
                    errors.append("shard %d: exit 1 without a violation" % s.n)
                continue
            race = race_found(s.stderr())
            if race and os.path.exists(s.casefile):
                # proof enough: whether it is seen again is up to the scheduler
                with open(s.casefile) as f:
                    v = json.load(f)
                v["error"] = race
                violations.append(v)
                continue
            # the worker died: find out in which case, and whether it does so again
            first = died_in_library(s.stderr())
            text = s.stderr()[-3000:]
            s.err.close()
            s.start(["-casefile", s.casefile])
            s.wait(deadline)
            again = died_in_library(s.stderr())
            if first and again and os.path.exists(s.casefile):
                with open(s.casefile) as f:
                    v = json.load(f)
                v["error"] = "the process died: %s\n%s" % (again, text)
                violations.append(v)
            else:
                errors.append("shard %d died (exit %s):\n%s" % (s.n, rc, text))
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
            s.err.close()
    return results, violations, errors


def fuzz(args, tmp):
    """Coverage-guided fuzzing of the sub-checks listed in FUZZ."""
    src = os.path.join(tmp, "src")
    mod = os.path.join(tmp, "modf.mod")
    shutil.copy(os.path.join(src, "go.mod"), mod)
    shutil.copy(os.path.join(src, "go.sum"), mod[:-3] + "sum")
    exe = os.path.join(tmp, "harness-fuzz")
    p = subprocess.run(["go", "test", "-c", "-fuzz=FuzzSub", "-modfile", mod, "-o", exe, "."], cwd=src, env=dict(os.environ, CGO_ENABLED="1", **GO_ENV),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build of the fuzz target failed:\n" + p.stdout[-4000:])
    os.chmod(exe, 0o755)
    stats, violations, errors = {}, [], []
    for name in FUZZ.get(args.property, []):
        if args.only and args.only != name:
            continue
        d = os.path.join(tmp, "fuzz-" + name)
        os.mkdir(d, 0o755)
        if os.geteuid() == 0:
            os.chown(d, NOBODY, NOBODY)
        env = dict(PATH=GO_ENV["PATH"], HOME=d, TMPDIR=d, LANG="C.UTF-8", VERIF_FUZZ=args.property + "/" + name, VERIF_FUZZ_OUT=d)

        def go(flags, limit, **more):
            q = subprocess.Popen([exe] + flags, cwd=d, env=dict(env, **more), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                 start_new_session=True, preexec_fn=limits, **as_nobody())
            try:
                return q.communicate(timeout=limit)[0], q.returncode
            except subprocess.TimeoutExpired:
                os.killpg(q.pid, signal.SIGKILL)
                return q.communicate()[0], None
        text, rc = go(["-test.run=^$", "-test.fuzz=FuzzSub", "-test.fuzztime=%ds" % args.fuzz, "-test.fuzzminimizetime=3s", "-test.parallel=%d" % args.shards,
                       "-test.fuzzcachedir=" + os.path.join(d, "cache")], args.fuzz + 240)
        m = re.findall(r"execs: (\d+).*?new interesting: (\d+) \(total: (\d+)\)", text)
        if m:
            stats[name] = dict(executions=int(m[-1][0]), new_inputs_kept=int(m[-1][1]), corpus=int(m[-1][2]), seconds=args.fuzz)
        if rc == 0:
            continue
        found = []
        for f in sorted(os.listdir(d)):
            if f.startswith("violation-"):
                with open(os.path.join(d, f)) as fh:
                    found.append(json.load(fh))
        if not found and rc:
            # a worker died: once more, with a note of what it is at
            case = os.path.join(d, "case.json")
            text2, rc2 = go(["-test.run=^FuzzSub$"], 240, VERIF_FUZZ_CASE=case)
            dead = died_in_library(text2)
            if rc2 and dead and os.path.exists(case):
                with open(case) as fh:
                    v = json.load(fh)
                v["error"] = "the process died: %s\n%s" % (dead, text2[-3000:])
                found.append(v)
        if not found:
            errors.append("fuzzing %s ended with %s:\n%s" % (name, rc, text[-3000:]))
            continue
        found.sort(key=lambda v: len(json.dumps(v["case"])))
        violations.append(found[0])
        break
    return stats, violations, errors


def finding_key(v):
    """Identifies the failing input: the sub-check, the build and the case itself."""
    c = json.dumps([v["property"], v["sub"], bool(v["cgo"]), v["case"]], sort_keys=True)
    return hashlib.sha256(c.encode()).hexdigest()[:16]


def known_findings(prop):
    """Lines "known: property=ID key=KEY what fails"; anything else is a comment."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                w = l.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip()
    return out


def prepare_rootdir(rd):
    """sticky/: world-writable and sticky, with files owned by root that the
    workers may read and (by mode) write, but neither rename over nor remove."""
    st = os.path.join(rd, "sticky")
    os.mkdir(st)
    os.chmod(st, 0o1777)
    for i in range(64):
        p = os.path.join(st, "dst%d" % i)
        with open(p, "wb") as f:
            f.write(b"original contents\n")
        os.chmod(p, 0o644)


def merge(results):
    subs, labels, hashes, samples = {}, {}, set(), []
    for r in results:
        hashes.update(r["hashes"] or [])
        for name, s in r["subs"].items():
            d = subs.setdefault(name, dict(evaluations=0, nontrivial=0, labels={}, wall_s=0.0))
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            d["wall_s"] = round(max(d["wall_s"], s["wall_s"]), 2)
            for l, n in s["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + n
    seen = set()
    for r in results:
        for k, v in sorted((r["samples"] or {}).items()):
            name = k.split("#")[0]
            if k not in seen and len(json.dumps(v)) < 6000:
                seen.add(k)
                samples.append(dict(sub=name, case=v))
    return subs, hashes, samples[:24]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build, so that later builds are quick")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--fuzz", type=int, default=None, help="seconds of coverage-guided fuzzing for each sub-check that has it")
    args = ap.parse_args()
    if args.fuzz is None:
        args.fuzz = FUZZ_SECONDS if args.tier == "thorough" else 0
    if not args.setup and not args.property:
        ap.error("which property?")
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % (args.property or "setup"), dir="/tmp")
    os.chmod(tmp, 0o755)
    try:
        try:
            if args.setup:
                build(tmp)
                return 0
            results, violations, errors = run(args, tmp)
            fuzzed = {}
            if args.fuzz and not (args.replay or violations or errors):
                fuzzed, violations, errors = fuzz(args, tmp)
        finally:
            subprocess.run(["chmod", "-R", "u+rwX", tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(tmp, ignore_errors=True)
    except CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        return 2
    known = known_findings(args.property)
    listed = [v for v in violations if finding_key(v) in known]
    violations = [v for v in violations if finding_key(v) not in known]
    for k in sorted({finding_key(v) for v in listed}):
        print("KNOWN-FINDING: property=%s %s" % (args.property, known[k]))
    if args.replay:
        if errors:
            print("CHECK ERROR:", "\n".join(errors), file=sys.stderr)
            return 2
        if violations:
            print(violations[0]["error"])
            print("VIOLATION property=%s replay=%s" % (args.property, args.replay))
            return 1
        if not listed:
            print("replayed case holds")
        return 0
    subs, hashes, samples = merge(results)
    level = LEVELS.get(args.property, "exploration")
    rule = results[0]["rule"] if results else ""
    ev = dict(property=args.property, tier=args.tier, seed=args.seed, level=level,
              coverage=dict(evaluations=sum(s["evaluations"] for s in subs.values()), distinct_nontrivial=len(hashes), rule=rule,
                            samples=samples, subchecks=subs, shards=len(results),
                            **({"coverage_guided": fuzzed} if fuzzed else {}),
                            builds={"cgo": sum(1 for r in results if r["cgo"]), "nocgo": sum(1 for r in results if not r["cgo"])}),
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - start, 2), violations=len(violations), known_findings=len(listed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", args.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if args.v:
        for n, s in subs.items():
            print("%-26s evals=%d nontrivial=%d wall=%.1f" % (n, s["evaluations"], s["nontrivial"], s["wall_s"]))
            for l in sorted(s["labels"]):
                print("    %-40s %6.2f%%" % (l, 100.0 * s["labels"][l] / max(1, s["evaluations"])))
        for n, s in fuzzed.items():
            print("%-26s %s" % (n, s))
    code = 0
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        # one per sub-check, the smallest
        best = {}
        for v in violations:
            k = v["sub"]
            if k not in best or len(json.dumps(v["case"])) < len(json.dumps(best[k]["case"])):
                best[k] = v
        for k, v in sorted(best.items()):
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (args.property, k, args.seed))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("%s: %s" % (k, v["error"][:3000]))
            print("VIOLATION property=%s replay=%s" % (args.property, path))
        code = 1
    if errors:
        print("CHECK ERROR:", "\n".join(errors), file=sys.stderr)
        if not code:
            code = 2
    if not code:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (args.property, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"]))
    return code


if __name__ == "__main__":
    sys.exit(main())
