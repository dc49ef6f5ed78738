#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --build          build every test binary (used by setup.sh)
check.py --replay FILE    run one saved scenario again
Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import sys, os, json, subprocess, hashlib, time, shutil, re, fcntl, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from legs import LEGS, RULES, LEVELS, ASSUMPTIONS  # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")
OWN = REPO != "/repo"           # development only: check another tree
WORK = os.environ.get("VERIF_WORK", VERIF) if OWN else VERIF
BUILD = os.path.join(WORK, ".build")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class NoAnswer(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    paths = ["/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"]
    e["PATH"] = ":".join([p for p in paths if os.path.isdir(p)] + [e.get("PATH", ""), "/usr/bin", "/bin"])
    e.update(GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="1", GOFLAGS="-mod=mod", GOSUMDB="off", GO111MODULE="on")
    for k in ("GOOS", "GOARCH", "GOROOT", "GODEBUG", "GOMAXPROCS", "GORACE"):
        e.pop(k, None)
    return e


ENV = goenv()


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(bins):
    """bins: set of (pkg, race) -> {(pkg, race): path}"""
    with lock():
        r = subprocess.run(["go", "env", "GOROOT", "GOMODCACHE"], env=ENV, stdout=subprocess.PIPE, text=True)
        if r.returncode:
            raise NoAnswer("go env failed")
        goroot, modc = r.stdout.split()
        ov = os.path.join(BUILD, "overlay")
        r = sh([sys.executable, os.path.join(HARN, "overlay/gen.py"), goroot, modc, ov])
        if r.returncode:
            raise NoAnswer("overlay: " + r.stdout)
        out = {}
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        args = ["go", "test", "-overlay", os.path.join(ov, "overlay.json"), "-vet=off"]
        if OWN:
            mf = os.path.join(BUILD, "alt.mod")
            t = open(os.path.join(HARN, "go.mod")).read()
            t = t.replace("aptutil => /repo", "aptutil => " + REPO).replace("../.build/well", os.path.join(BUILD, "well"))
            open(mf, "w").write(t)
            shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(BUILD, "alt.sum"))
            args += ["-modfile", mf]
        else:
            # go may touch go.mod/go.sum: work on copies
            mf = os.path.join(BUILD, "main.mod")
            t = open(os.path.join(HARN, "go.mod")).read().replace("../.build/well", os.path.join(BUILD, "well"))
            if not (os.path.exists(mf) and open(mf).read() == t):
                open(mf, "w").write(t)
            shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(BUILD, "main.sum"))
            args += ["-modfile", mf]
        for pkg, race in sorted(bins):
            dst = os.path.join(BUILD, "bin", pkg + (".race" if race else "") + ".test")
            t0 = time.time()
            r = sh(args + (["-race"] if race else []) + ["-c", "-o", dst + ".new", "./" + pkg], cwd=HARN)
            if r.returncode:
                raise NoAnswer("build of %s failed:\n%s" % (pkg, r.stdout[-6000:]))
            # a name per build, so that running copies are never replaced
            h = hashlib.sha256(open(dst + ".new", "rb").read()).hexdigest()[:12]
            fin = dst + "." + h
            os.replace(dst + ".new", fin)
            for old in os.listdir(os.path.join(BUILD, "bin")):
                p = os.path.join(BUILD, "bin", old)
                if p.startswith(dst + ".") and p != fin and time.time() - os.path.getmtime(p) > 1800:
                    os.unlink(p)
            out[(pkg, race)] = fin
        return out


def build_progs():
    """Builds the shipped programs from REPO for the process-level legs."""
    with lock():
        d = os.path.join(BUILD, "progs")
        os.makedirs(d, exist_ok=True)
        e = dict(ENV)
        mf = os.path.join(BUILD, "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mf)
        sm = os.path.join(REPO, "go.sum")
        if os.path.exists(sm):
            shutil.copy(sm, os.path.join(BUILD, "repo.sum"))
        elif os.path.exists(os.path.join(HARN, "go.sum")):
            shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(BUILD, "repo.sum"))
        r = subprocess.run(["go", "build", "-modfile", mf, "-o", d + "/", "./cmd/go-apt-mirror", "./cmd/go-apt-cacher"],
                           cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoAnswer("build of the programs failed:\n" + r.stdout[-6000:])
        return d


def seed_of(leg, shard):
    h = hashlib.sha256(("%d/%s/%d" % (SEED, leg, shard)).encode()).digest()
    return (int.from_bytes(h[:7], "big") | 1)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run_shard(binary, leg, o, shard, checks, scratch, extra_env):
    d = os.path.join(scratch, "%s.%d" % (leg, shard))
    os.makedirs(d)
    out = os.path.join(d, "out.json")
    e = dict(ENV)
    e.update(extra_env)
    e.update(VERIF_OUT=out, VERIF_SCRATCH=d, VERIF_TIER=TIER, TMPDIR=d,
             VERIF_BUDGET_S=str(o["budget"]), VERIF_SHRINK_S=str(o.get("shrink", 20)), GOTRACEBACK="all",
             GORACE="halt_on_error=1", GOMAXPROCS=str(o.get("procs", 2)))
    cmd = [binary, "-test.run", "^Test%s$" % leg, "-test.timeout", "0", "-rapid.checks", str(checks),
           "-rapid.seed", str(seed_of(leg, shard)), "-rapid.nofailfile", "-rapid.shrinktime", o.get("shrinktime", "10s")]
    so, se = open(os.path.join(d, "stdout"), "wb"), open(os.path.join(d, "stderr"), "wb")
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=so, stderr=se, start_new_session=True)
    timeout = o["budget"] + 150
    timed = False
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed = True
        rc = -9
    kill_group(p)
    p.wait()
    so.close()
    se.close()
    res = None
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        pass
    rd = lambda n: open(os.path.join(d, n), errors="replace").read()
    r = dict(leg=leg, shard=shard, rc=rc, timed=timed, res=res, stdout=rd("stdout")[-20000:], stderr=rd("stderr"),
             wall=time.time() - t0, journal=None)
    try:
        r["journal"] = json.load(open(out + ".journal"))
    except (OSError, ValueError):
        pass
    shutil.rmtree(d, ignore_errors=True)
    return r


TUT = "github.com/cybozu-go/aptutil/"


def judge_crash(r):
    """A process that ended without a verdict: (kind, text) where kind is
    'violation' or 'none'."""
    err = r["stderr"] + "\n" + r["stdout"]
    if "WARNING: DATA RACE" in err:
        i = err.index("WARNING: DATA RACE")
        seg = err[i:i + 8000]
        if TUT in seg:
            return "violation", "data race:\n" + seg
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if m and "VERIF-STUCK" not in err:
        seg = err[m.start():]
        # the crashing goroutine comes first
        first = seg.split("\n\ngoroutine ")[1:2]
        blk = first[0] if first else seg[:6000]
        if "INFRA" in m.group(1) or "out of memory" in m.group(1):
            return "none", seg[:3000]
        if TUT in blk:
            return "violation", m.group(1) + "\n" + blk[:6000]
        return "none", seg[:3000]
    if "VERIF-STUCK" in err:
        seg = err[err.index("VERIF-STUCK"):]
        gs = [g for g in seg.split("\n\n") if TUT in g]
        # waiting for a file lock is a lock wait too
        flocked = [g for g in gs if re.search(r"\b(syscall|unix)\.(Flock|FcntlFlock)\(", g)]
        gs = [g for g in gs if g not in flocked]
        locked = flocked + [g for g in gs if re.search(r"sync\.\(\*(RW)?Mutex\)\.(R?Lock|lockSlow|rlock)", g) or "sync.runtime_Semacquire" in g]
        busy = [g for g in gs if re.search(r"^goroutine \d+ [^\[]*\[(running|runnable|syscall|IO wait|sleep)", g.strip(), re.M)]
        if locked and not busy:
            return "violation", "lock deadlock in the code under test:\n" + "\n\n".join(locked[:3])[:6000]
        return "none", "a case did not end in time\n" + "\n\n".join(gs[:4])[:6000]
    return "none", (r["stdout"][-2000:] + "\n" + r["stderr"][-3000:])


def main(pid):
    t0 = time.time()
    if pid not in LEGS:
        raise NoAnswer("unknown property " + pid)
    legs = LEGS[pid]
    bins = build({(l["pkg"], l.get("race", False)) for l in legs})
    extra = {}
    if any(l.get("progs") for l in legs):
        extra["VERIF_PROGS"] = build_progs()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 2 << 30:
            base = None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    os.chmod(scratch, 0o755)
    try:
        jobs = []
        for l in legs:
            n = l["checks"] * (l.get("deep", 12) if THOROUGH else 1)
            shards = l.get("shards", 4)
            if THOROUGH and not l.get("solo"):
                shards = max(shards, 8)
            o = dict(l)
            o["budget"] = l.get("budget", 100) if not THOROUGH else 420
            per = max(1, n // shards)
            for s in range(shards):
                jobs.append((bins[(l["pkg"], l.get("race", False))], l["leg"], o, s, per, scratch, extra))
        # long legs first, for a good packing
        # legs that run programs mostly wait for them and for the clock
        with ThreadPoolExecutor(JOBS * 3 if any(l.get("progs") for l in legs) else JOBS) as ex:
            rs = list(ex.map(lambda a: run_shard(*a), jobs))
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, legs, rs, time.time() - t0)


def report(pid, legs, rs, wall):
    fails, none = [], []
    ev, skipped, hashes, classes, samples, perleg = 0, 0, set(), {}, [], {}
    for r in rs:
        res = r["res"]
        if res:
            ev += res["evaluations"]
            skipped += res["skipped"]
            hashes.update(res["leg"] + ":" + h for h in (res["hashes"] or []))
            p = perleg.setdefault(r["leg"], {"evaluations": 0, "nontrivial": 0, "skipped": 0, "classes": {}})
            p["evaluations"] += res["evaluations"]
            p["nontrivial"] += res["nontrivial"]
            p["skipped"] += res["skipped"]
            for k, v in (res["classes"] or {}).items():
                p["classes"][k] = p["classes"].get(k, 0) + v
            for s in (res["samples"] or [])[-2:]:
                samples.append((r["leg"], r["shard"], s))
        if res and res.get("failure"):
            fails.append((r["leg"], res["failure"]["error"], res["failure"]))
        elif res and res.get("infra"):
            none.append("%s: INFRA %s" % (r["leg"], res["infra"]))
        elif r["rc"] != 0 or not res or not res.get("done"):
            if r["timed"]:
                none.append("%s: time ran out" % r["leg"])
                continue
            k, text = judge_crash(r)
            if k == "violation":
                sc = r["journal"] or {"leg": r["leg"], "scenario": None}
                fails.append((r["leg"], text, {"leg": sc["leg"], "error": text, "scenario": sc["scenario"]}))
            else:
                none.append("%s: exit %s: %s" % (r["leg"], r["rc"], text))
    # a few samples per leg, short enough for the evidence file
    picked, cnt = [], {}
    for leg, shard, s in sorted(samples):
        if cnt.get(leg, 0) < 2:
            cnt[leg] = cnt.get(leg, 0) + 1
            picked.append({"leg": leg, "case": s[:1500]})
    for l in legs:
        p = perleg.get(l["leg"])
        if (not p or p["evaluations"] == 0 or p["nontrivial"] == 0) and not fails:
            none.append("%s: no non-trivial case ran" % l["leg"])
    evid = {
        "property": pid, "tier": TIER, "seed": SEED, "level": LEVELS.get(pid, "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": RULES[pid], "samples": picked,
            "legs": perleg, "skipped_for_time": skipped,
        },
        "assumptions": ASSUMPTIONS.get(pid, []) + ASSUMPTIONS[""],
        "wall_s": round(wall, 2), "violations": len(fails),
    }
    os.makedirs(os.path.join(WORK, "evidence"), exist_ok=True)
    with open(os.path.join(WORK, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for n in none:
        print("NO-ANSWER " + n)
    if fails:
        rd = os.path.join(WORK, "replays")
        os.makedirs(rd, exist_ok=True)
        fails.sort(key=lambda f: len(json.dumps(f[2])))
        path = None
        for i, (leg, err, f) in enumerate(fails[:5]):
            p = os.path.join(rd, "%s-%s-%d.json" % (pid, leg, i))
            f = dict(f, property=pid, seed=SEED)
            json.dump(f, open(p, "w"), indent=1)
            path = path or p
            print("%s: %s" % (leg, err[:3000]))
            print("  scenario: %s" % json.dumps(f["scenario"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if none:
        return 2
    known(pid)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d skipped=%d wall=%.1fs" % (pid, ev, len(hashes), skipped, wall))
    return 0


def known(pid):
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", l)
            if m and m.group(1) == pid:
                print(l.strip())
    except OSError:
        pass


def replay(path):
    f = json.load(open(path))
    for pid, legs in LEGS.items():
        for l in legs:
            if l["leg"] == f["leg"]:
                bins = build({(l["pkg"], l.get("race", False))})
                e = dict(ENV, VERIF_REPLAY=os.path.abspath(path), VERIF_REPEAT=os.environ.get("VERIF_REPEAT", "1"))
                if l.get("progs"):
                    e["VERIF_PROGS"] = build_progs()
                d = tempfile.mkdtemp(prefix="verif-replay-", dir="/dev/shm")
                e.update(VERIF_SCRATCH=d, TMPDIR=d)
                r = subprocess.run([bins[(l["pkg"], l.get("race", False))], "-test.run", "^Test%s$" % f["leg"], "-test.v"], env=e, cwd=d)
                shutil.rmtree(d, ignore_errors=True)
                return r.returncode
    raise NoAnswer("no such leg " + f["leg"])


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--build":
            b = build({(l["pkg"], l.get("race", False)) for ls in LEGS.values() for l in ls})
            if any(l.get("progs") for ls in LEGS.values() for l in ls):
                build_progs()
            print("built %d test binaries" % len(b))
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except NoAnswer as e:
        print("NO-ANSWER %s" % e)
        sys.exit(2)
