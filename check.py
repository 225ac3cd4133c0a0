#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE]

Builds the test binary (and, where needed, the command-line tool) from the
working tree of /repo, runs the property's generated checks in several
processes, writes evidence/ID.json.  Exit 0: held on everything explored.
Exit 1 and "VIOLATION property=ID replay=PATH": broken.  Exit 3: this run gives
no answer (build failure, time or memory ran out, a worker died).
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# property: (needs CLI, level, shards)
CLI_CHECKS = {"C28", "C29", "C12", "C13", "C14", "C22", "C23", "C24", "C25", "C16", "C18"}
LEVEL = {"C12": "fault_enumeration", "C23": "fault_enumeration"}
LIMIT = {"quick": 780, "thorough": 5400}

def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("KRYPTO_", "RAPID_", "GOFLAGS"))}
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/bin:/bin")
            break
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="0", TZ="UTC",
             GOPATH=e.get("GOPATH", "/root/go"))
    e.setdefault("HOME", "/root")
    e.pop("GOROOT", None)
    return e

def die(msg, code=3):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)

def run(cmd, cwd, env, timeout):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def build(tmp, need_cli, race=False):
    env = goenv()
    h = os.path.join(HERE, "harness")
    modfile = os.path.join(tmp, "go.mod")
    src = open(os.path.join(h, "go.mod")).read()
    src = re.sub(r"(replace github.com/sa6mwa/krypto431 => )\S+", lambda m: m.group(1) + REPO, src)
    open(modfile, "w").write(src)
    shutil.copy(os.path.join(h, "go.sum"), os.path.join(tmp, "go.sum"))
    jobs = [(["go", "test", "-c", "-vet=off", "-mod=mod", "-modfile=" + modfile, "-o", os.path.join(tmp, "checks.test"), "./checks"], h)]
    if race:
        env["CGO_ENABLED"] = "1"
        jobs[0][0].insert(3, "-race")
    if need_cli:
        jobs.append((["go", "build", "-buildvcs=false", "-mod=mod", "-o", os.path.join(tmp, "krypto431"), "./cmd/krypto431"], REPO))
    for cmd, cwd in jobs:
        try:
            r = run(cmd, cwd, env, 600)
        except subprocess.TimeoutExpired:
            die("build timed out: " + " ".join(cmd))
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
            die("build failed: " + " ".join(cmd))

NOBODY = 65534

def unprivileged(d):
    """The code under test may do anything to files: it gets an unprivileged
    user's scratch directory, where an escaped call can reach nothing real."""
    if os.geteuid() != 0:
        return {}
    for base, dirs, files in os.walk(d):
        for n in [base] + [os.path.join(base, x) for x in files]:
            os.lchown(n, NOBODY, NOBODY)
    return {"user": NOBODY, "group": NOBODY, "extra_groups": []}

def seed_for(base, pid, shard):
    d = hashlib.sha256(f"{base}/{pid}/{shard}".encode()).digest()
    return (int.from_bytes(d[:7], "big") | 1)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
        args = [a for a in args if a != replay]
        replay = os.path.abspath(replay)
    if "--build-only" in sys.argv:
        tmp = tempfile.mkdtemp(prefix="verif-check-")
        try: build(tmp, True)
        finally: shutil.rmtree(tmp, ignore_errors=True)
        print("built")
        return
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        die("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-check-")
    procs = []
    def cleanup():
        for p in procs:
            if p["p"].poll() is None:
                try: os.killpg(p["p"].pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p["p"].wait()
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        code = work(pid, tier, seed, tmp, procs, replay, t0)
    finally:
        cleanup()
    sys.exit(code)

def work(pid, tier, seed, tmp, procs, replay, t0):
    build(tmp, pid in CLI_CHECKS)
    shards = 1 if replay else int(os.environ.get("VERIF_JOBS", "8"))
    replaydir = os.path.join(HERE, "replays", pid)
    given = replay
    if replay:
        shutil.copy(replay, tmp)
        replay = os.path.join(tmp, os.path.basename(replay))
    for i in range(shards):
        d = os.path.join(tmp, f"shard{i}")
        os.makedirs(os.path.join(d, "tmp"))
        env = goenv()
        env.update(VERIF_STATS=os.path.join(d, "stats.json"), VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SHARDS=str(shards),
                   VERIF_CLI=os.path.join(tmp, "krypto431"), VERIF_REPLAY_DIR=d, TMPDIR=os.path.join(d, "tmp"),
                   GOMAXPROCS="3", GOMEMLIMIT="2500MiB", GOTRACEBACK="single", VERIF_SEED=str(seed))
        if replay:
            env["VERIF_FAILFILE"] = replay
        env["HOME"] = d
        env.pop("TMP", None)
        ids = unprivileged(tmp if i == 0 else d)
        log = open(os.path.join(d, "log"), "wb")
        cmd = [os.path.join(tmp, "checks.test"), "-test.run", f"^Test{pid}$", "-test.v", f"-test.timeout={LIMIT[tier]+30}s",
               f"-rapid.seed={seed_for(seed, pid, i)}", "-rapid.shrinktime=" + ("15s" if tier == "quick" else "60s")]
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, **ids)
        procs.append({"p": p, "d": d, "i": i})
    deadline = t0 + LIMIT[tier]
    failed = timed_out = False
    while True:
        states = [x["p"].poll() for x in procs]
        if any(s is not None and s != 0 for s in states):
            failed = True
            break
        if all(s == 0 for s in states):
            break
        if time.time() > deadline:
            timed_out = True
            break
        time.sleep(0.05)
    verdict, note = 0, ""
    if timed_out:
        verdict, note = 3, "time ran out"
    elif failed:
        # Prefer a worker that failed the property over one that died.
        verdict, note = 3, ""
        for _ in range(2):
            for x in procs:
                rc = x["p"].poll()
                if rc is None or rc == 0:
                    continue
                log = open(os.path.join(x["d"], "log"), "rb").read().decode(errors="replace")
                if "[rapid] only generated" in log:
                    note = "generator produced too few valid cases"
                elif rc == 1 and re.search(rf"^--- FAIL: Test{pid}\b", log, re.M) and "panic: test timed out" not in log and "HARNESS ERROR" not in log:
                    verdict, x["log"] = 1, log
                    bad = x
                    break
                elif rc == 7 and "HANG:" in log:
                    verdict, x["log"] = 1, log
                    bad = x
                    break
                elif rc in (1, 2) and "HARNESS ERROR" not in log and "panic: test timed out" not in log and f"=== RUN   Test{pid}" in log and (
                        (rc == 2 and re.search(r"^(panic|fatal error): ", log, re.M) and "out of memory" not in log and "sa6mwa/krypto431" in log.split("goroutine ", 1)[-1])
                        or (rc == 1 and not re.search(r"^(panic|fatal error): |^FAIL|^PASS", log, re.M))):
                    # The code under test crashed outside of a case or ended the process.
                    verdict, x["log"] = 1, log
                    bad = x
                    break
                else:
                    note = note or f"worker {x['i']} ended with {rc}: " + log[-1500:]
            if verdict == 1:
                break
            for x in procs:  # let the others tell
                left = max(1, min(60, deadline - time.time()))
                try: x["p"].wait(left)
                except subprocess.TimeoutExpired: pass
    # evidence
    hashes, labels, samples, extra, evals, rule = set(), {}, [], {}, 0, ""
    for x in procs:
        try:
            st = json.load(open(os.path.join(x["d"], "stats.json")))
        except (OSError, ValueError):
            continue
        evals += st["evaluations"]
        hashes.update(st["hashes"] or [])
        rule = st["rule"] or rule
        for k, v in (st["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (st["extra"] or {}).items():
            if isinstance(v, bool): extra[k] = v
            elif isinstance(v, (int, float)) and k.startswith("max_"): extra[k] = max(v, extra.get(k, v))
            elif isinstance(v, (int, float)): extra[k] = extra.get(k, 0) + v
            else: extra[k] = v
        samples.append(st["samples"] or [])
    flat = []
    for j in range(5):
        for s in samples:
            if j < len(s) and s[j] not in flat: flat.append(s[j])
    flat = flat[:12]
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule, "samples": flat,
           "case_classes": dict(sorted(labels.items())), "processes": len(procs)}
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
          "assumptions": ["generated-input search shows presence, not absence, of violations", "the reference model and oracles in /verif/harness state the property correctly"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict == 1 else 0}
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        out = os.path.join(HERE, "evidence", pid + ".json")
        with open(out + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(out + ".tmp", out)
    # known findings
    kf = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if verdict == 0 and os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                print(f"KNOWN-FINDING: property={pid} {m.group(2)}")
    if verdict == 1 and replay:
        sys.stdout.write(bad["log"][-8000:] + "\n")
        print(f"VIOLATION property={pid} replay={given}", flush=True)
        return 1
    if verdict == 1:
        os.makedirs(replaydir, exist_ok=True)
        path = None
        cands = glob.glob(os.path.join(bad["d"], "testdata", "rapid", "*", "*.fail")) + glob.glob(os.path.join(bad["d"], "enum-*.txt"))
        for c in cands:
            path = os.path.join(replaydir, os.path.basename(c))
            shutil.copy(c, path)
        if path is None:
            path = os.path.join(replaydir, f"log-{seed}-{bad['i']}.txt")
        else:
            open(path + ".log", "w").write(bad["log"])
        if not cands:
            open(path, "w").write(bad["log"])
        told = "\n".join(l[:3000] for l in bad["log"].splitlines() if "[rapid] draw " not in l)
        sys.stdout.write(told[:4000] + ("\n...\n" + told[-4000:] if len(told) > 8000 else told[4000:]) + "\n")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if verdict == 3:
        print(f"ERROR: property={pid} no answer: {note}", flush=True)
        return 3
    print(f"OK property={pid} tier={tier} seed={seed} cases={evals} distinct_nontrivial={len(hashes)} wall={time.time()-t0:.1f}s", flush=True)
    return 0

if __name__ == "__main__":
    main()
