#!/usr/bin/env python3
"""Run the check of one property: check.py ID [--replay FILE].

Builds the harness against /repo's working tree, runs the generators in several
processes, merges what they covered into evidence/ID.json and reports the
smallest failing case, if any, as a replay file.

Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
KNOWN = os.path.join(ROOT, "known-findings.txt")

# Checks about interleavings: few processes, each with all cores.
PARALLEL = {"C22", "C23", "C26"}
# Bounded native (coverage-guided) fuzzing in the thorough tier: property -> target, seconds.
FUZZ = {"C01": ("FuzzWire", "noise", 150), "C05": ("FuzzWire", "stable", 150), "C06": ("FuzzWire", "mutated", 200),
        "C03": ("FuzzRapid", "encode", 90), "C04": ("FuzzRapid", "accept", 90), "C09": ("FuzzRapid", "bag", 120),
        "C10": ("FuzzRapid", "blocks", 60), "C12": ("FuzzRapid", "text", 60), "C13": ("FuzzRapid", "setters", 90),
        "C14": ("FuzzRapid", "connect", 60), "C15": ("FuzzRapid", "setters", 90), "C16": ("FuzzRapid", "clone", 90),
        "C17": ("FuzzRapid", "switch", 90), "C20": ("FuzzRapid", "lists", 60)}


def env(extra=None):
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOTRACEBACK="all", GOWORK="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    e.update(extra or {})
    return e


def die(msg):
    print("no verdict: " + msg, file=sys.stderr)
    sys.exit(2)


def build(dst, race):
    cmd = ["go", "build", "-o", dst] + (["-race"] if race else []) + ["./cmd/check"]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        die("build failed:\n" + (r.stdout + r.stderr)[-4000:])


def seed_for(pid, base):
    h = 1469598103934665603
    for c in (pid + ":" + str(base)).encode():
        h = ((h ^ c) * 1099511628211) % (1 << 64)
    return (h >> 2) or 1


def known(pid):
    """Findings that are not repaired: [(sub-check or *, text in the error)]."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) sub=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def crash(err):
    """Tells whether the stderr of a dead process shows the code under test dying."""
    for pat in ("WARNING: DATA RACE", "fatal error: stack overflow", "fatal error: concurrent map", "fatal error: all goroutines are asleep",
                "fatal error: sync:", "goroutine stack exceeds", "fatal error: found bad pointer", "checkptr", "unexpected signal", "SIGSEGV",
                "runtime: out of memory", "fatal error: runtime", "panic: "):
        if pat in err:
            return pat
    return None


def tail(path, n=6000):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
        return s if len(s) <= 2 * n else s[:n] + "\n...\n" + s[-n:]
    except OSError:
        return ""


def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py ID [--replay FILE]")
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER must be quick or thorough")
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED must be an integer")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vlverif-%s-" % pid)
    procs = []
    try:
        rc = run(pid, args, tier, base, t0, tmp, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, args, tier, base, t0, tmp, procs):
    binary = os.path.join(tmp, "check")
    build(binary, False)
    r = subprocess.run([binary, "-list"], capture_output=True, text=True)
    rows = {x["id"]: x for x in json.loads(r.stdout)}
    if pid not in rows:
        die("no such property: " + pid)
    race = rows[pid]["race"]
    racebin = binary + ".race"
    if race:
        build(racebin, True)

    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        first = (json.load(open(f)).get("race") and race)
        for b in ([racebin] if first else [binary]) :
            p = subprocess.run([b, "-prop", pid, "-replay", f], env=env({"GORACE": "exitcode=66 halt_on_error=1"}), capture_output=True, text=True)
            sys.stderr.write(p.stderr[-6000:])
            if p.returncode in (1, 66) or (p.returncode not in (0, 1) and crash(p.stderr)):
                print("VIOLATION property=%s replay=%s" % (pid, f))
                return 1
            if p.returncode != 0:
                return 2
        return 0

    jobs = []
    if pid in PARALLEL:
        n, nr, procsn = 4, (3 if race else 0), 8
    else:
        n, nr, procsn = 8, 0, 2
    seed = seed_for(pid, base)
    for i in range(n):
        jobs.append((i, n, binary, False, seed))
    for i in range(nr):
        jobs.append((i, nr, racebin, True, seed + 7919))
    limit = 780 if tier == "quick" else 5400
    running = []
    for k, (i, of, b, rc, sd) in enumerate(jobs):
        pre = os.path.join(tmp, "s%d" % k)
        cmd = [b, "-prop", pid, "-seed", str(sd), "-shard", str(i), "-shards", str(of), "-out", pre + ".out", "-cur", pre + ".cur"]
        if tier == "thorough":
            cmd.append("-thorough")
        cmd += ["-budget", "%ds" % ((480 if tier == "quick" else 4200) // (2 if rc else 1))]
        if rc:
            cmd += ["-scale", "0.25"]
        p = subprocess.Popen(cmd, stdout=open(pre + ".stdout", "wb"), stderr=open(pre + ".stderr", "wb"), start_new_session=True,
                             env=env({"GORACE": "exitcode=66 halt_on_error=1", "GOMAXPROCS": str(procsn)}))
        procs.append(p)
        running.append((p, pre, rc, b))
    fails, problems, results = [], [], []
    for p, pre, rc, b in running:
        try:
            code = p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            problems.append("a shard did not finish in time")
            continue
        err = tail(pre + ".stderr")
        res = None
        if os.path.exists(pre + ".out"):
            res = json.load(open(pre + ".out"))
            results.append((res, rc))
        if res and res.get("failure"):
            f = res["failure"]
            f["race"] = rc
            fails.append(f)
        elif code == 0 and res and res.get("done"):
            pass
        elif res and res.get("harness"):
            problems.append("harness error: " + res["harness"])
        else:
            what = crash(err)
            if code == -9 or code == -signal.SIGTERM:
                # ended from outside, or out of memory: the case alone decides
                q = None
                if os.path.exists(pre + ".cur") and os.path.getsize(pre + ".cur"):
                    try:
                        q = subprocess.run([b, "-prop", pid, "-replay", pre + ".cur"], env=env(), capture_output=True, text=True, timeout=120)
                    except subprocess.TimeoutExpired:
                        pass
                if q is not None and q.returncode == 1:
                    f = json.load(open(pre + ".cur"))
                    f["error"] = q.stderr[-2000:]
                    fails.append(f)
                else:
                    problems.append("a shard was ended by signal %d" % -code)
            elif code == 66 or what:
                try:
                    f = json.load(open(pre + ".cur"))
                except (OSError, ValueError):
                    f = {"property": pid, "sub": "", "case": None}
                f["error"] = (what or "data race") + ": the process died while checking this case\n" + err
                f["race"] = rc
                fails.append(f)
            else:
                problems.append("a shard ended with status %d and no result: %s" % (code, err[-1500:]))

    fuzzed = None
    if tier == "thorough" and pid in FUZZ and not fails and not problems:
        fuzzed = fuzz(pid, binary, tmp, fails, problems)

    evals = sum(r["evals"] for r, _ in results)
    hashes, classes, subs, samples = set(), {}, {}, []
    for r, rc in results:
        hashes.update(r.get("hashes") or [])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r["sub_evals"].items():
            subs[k] = subs.get(k, 0) + v
        samples += r.get("samples") or []
    seen, keep = {}, []
    for s in samples:
        if seen.get(s["sub"], 0) < 3:
            seen[s["sub"]] = seen.get(s["sub"], 0) + 1
            keep.append(s)
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rows[pid]["rule"], "samples": keep[:24],
           "per_generator": subs, "classes": dict(sorted(classes.items(), key=lambda x: -x[1])[:150]), "processes": len(jobs),
           "under_race_detector": sum(r["evals"] for r, rc in results if rc)}
    if fuzzed:
        cov["coverage_guided"] = fuzzed
    ev = {"property": pid, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in harness/ref states MQTT 3.1, 3.1.1 and 5.0 correctly", "packets are observed through the public API only"],
          "wall_s": round(time.time() - t0, 2), "violations": 0}

    rc = 0
    kn = known(pid)
    for sub, case, text in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    fails = [f for f in fails if not any(k[0] == f.get("sub") and k[1] in json.dumps(f.get("case")) for k in kn)]
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f.get("case"))))
        f = fails[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (pid, tier, base))
        with open(path, "w") as o:
            json.dump(f, o, indent=1)
        print("%s/%s: %s" % (pid, f.get("sub"), f["error"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        ev["violations"] = len(fails)
        rc = 1
    elif problems:
        for p in problems:
            print("no verdict: " + p, file=sys.stderr)
        rc = 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    out = os.path.join(ROOT, "evidence", pid + ".json")
    with open(out + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(out + ".tmp", out)
    if rc == 0:
        print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, evals, len(hashes), time.time() - t0))
    return rc


def fuzz(pid, binary, tmp, fails, problems):
    """Bounded native fuzzing with the same oracle; only in the thorough tier."""
    target, sub, secs = FUZZ[pid]
    work = os.path.join(tmp, "fuzz")
    os.makedirs(work, exist_ok=True)
    exe = os.path.join(work, "fuzz.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz", "Fuzz", "-o", exe, "./fuzz"], cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        problems.append("building the fuzz target failed: " + r.stderr[-2000:])
        return None
    try:
        r = subprocess.run([exe, "-test.run", "^$", "-test.fuzz", "^" + target + "$", "-test.fuzztime", "%ds" % secs, "-test.parallel", "8",
                            "-test.fuzzminimizetime", "50ms", "-test.fuzzcachedir", os.path.join(work, "cache")],
                           cwd=work, env=env({"VLFUZZ_PROP": pid, "VLFUZZ_SUB": sub}), capture_output=True, text=True, timeout=secs + 240, errors="replace")
    except subprocess.TimeoutExpired:
        problems.append("the fuzzer did not stop in time")
        return None
    execs = re.findall(r"execs: (\d+)", r.stdout + r.stderr)
    if r.returncode != 0:
        # the target prints the case in replay form; only a case that fails again outside the fuzzer counts
        m = re.search(r"REPLAY (\{.*\})", r.stdout + r.stderr)
        if not m:
            problems.append("the fuzzer failed without a case: " + (r.stdout + r.stderr)[-2000:])
            return None
        path = os.path.join(work, "case.json")
        with open(path, "w") as o:
            o.write(m.group(1))
        q = subprocess.run([binary, "-prop", pid, "-replay", path, "-shrink"], env=env(), capture_output=True, text=True)
        if q.returncode == 1:
            fails.append(json.load(open(path)))
        else:
            problems.append("a case found by the fuzzer does not fail again: " + m.group(1)[:1500] + q.stderr[-500:])
        return None
    return {"target": target, "sub": sub, "seconds": secs, "executions": int(execs[-1]) if execs else 0}


main()
