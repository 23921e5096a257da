#!/usr/bin/env python3
"""Decide one property of /repo by generated-input search.

usage: check.py ID               run the check of property ID (VERIF_SEED, VERIF_TIER)
       check.py --replay FILE    re-run one recorded failure
       check.py --setup          compile every harness once (warms the build cache)
       check.py --list           list properties and their tests

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not give an answer (build failure, timeout, out of memory).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import PROPS, ASSUMPTIONS  # noqa: E402

ENV = {
    "HOME": "/root",
    "PATH": "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "", "GOPATH": "/root/go",
    "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "CGO_ENABLED": "1",
}
TAGS = "ledger test_ledger_mock"
WORKERS = 8
BUDGET = {"quick": 700, "thorough": 3600 * 3}


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    if extra:
        e.update(extra)
    return e


def build(pkgs, work):
    """Compile the harness packages against /repo's working tree, through an overlay."""
    if not os.path.exists(REPO + "/go.work.sum") and os.path.exists("/opt/vp/go.work.sum"):
        shutil.copy("/opt/vp/go.work.sum", REPO + "/go.work.sum")
    repl = {}
    for d, _, fs in os.walk(HARNESS):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                repl[os.path.join(REPO, "verifh", os.path.relpath(p, HARNESS))] = p
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": repl}, fh)
    for pkg in pkgs:
        out = os.path.join(work, pkg.replace("/", "_") + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-tags", TAGS, "-overlay", ov, "-o", out, "./verifh/" + pkg]
        r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            print("ERROR: building harness %s failed\n%s" % (pkg, r.stdout[-6000:]))
            return False
    return True


procs = set()


def run_shard(work, pkg, test, checks, seed, idx, timeout, extra_env, failfile=None):
    cwd = os.path.join(work, "run-%s-%s-%d" % (pkg.replace("/", "_"), test, idx))
    os.makedirs(cwd, exist_ok=True)
    stats = os.path.join(cwd, "stats.json")
    cmd = [os.path.join(work, pkg.replace("/", "_") + ".test"), "-test.run", "^%s$" % test, "-test.timeout", "0",
           "-test.v", "-rapid.checks=%d" % checks, "-rapid.seed=%d" % seed, "-rapid.shrinktime=25s"]
    if failfile:
        cmd.append("-rapid.failfile=" + failfile)
    log = os.path.join(cwd, "log.txt")
    e = {"VERIF_STATS": stats, "GOMAXPROCS": "2", "TMPDIR": cwd, "HOME": cwd}
    e.update(extra_env)
    with open(log, "wb") as fh:
        p = subprocess.Popen(cmd, cwd=cwd, env=env(e), stdout=fh, stderr=subprocess.STDOUT, start_new_session=True)
        procs.add(p)
        timed_out = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        procs.discard(p)
    with open(log, "rb") as fh:
        out = fh.read().decode("utf-8", "replace")
    st = None
    if os.path.exists(stats):
        with open(stats) as fh:
            st = json.load(fh)
    fails = []
    fd = os.path.join(cwd, "testdata", "rapid")
    for d, _, fs in os.walk(fd):
        for f in fs:
            if f.endswith(".fail"):
                with open(os.path.join(d, f)) as fh:
                    fails.append(fh.read())
    return dict(pkg=pkg, test=test, rc=rc, timeout=timed_out, out=out, stats=st, fails=fails, seed=seed, checks=checks)


def classify(r):
    """ok | violation | error"""
    out = r["out"]
    if r["timeout"]:
        return "error"
    if r["rc"] == 0 and re.search(r"^(--- )?PASS", out, re.M) and "no tests to run" not in out:
        return "ok"
    if r["rc"] == 0:
        return "error"
    if "VERIF-INCONCLUSIVE" in out:
        return "error"
    if re.search(r"\[rapid\] (failed after|panic after|flaky test)", out):
        return "violation"
    if re.search(r"^VERIF-VIOLATION", out, re.M):
        return "violation"
    if "out of memory" in out or "cannot allocate memory" in out or r["rc"] < 0:
        return "error"
    if re.search(r"^(panic:|fatal error:|WARNING: DATA RACE)", out, re.M) or "--- FAIL" in out:
        # a crash outside the generated case (for instance in a background goroutine)
        return "violation"
    return "error"


def message(out):
    m = re.search(r"\[rapid\] (?:failed after|panic after|flaky test).*(?:\n.*){0,12}", out)
    if m:
        return m.group(0)
    m = re.search(r"^(?:VERIF-VIOLATION|panic:|fatal error:|WARNING: DATA RACE).*(?:\n.*){0,12}", out, re.M)
    return m.group(0) if m else out[-1500:]


def kill_all():
    for p in list(procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                res.append(line)
    return res


def run(pid):
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        pkgs = sorted({t["pkg"] for t in spec["tests"]})
        if not build(pkgs, work):
            return 2
        built = time.time() - t0
        # the work is cut into a fixed set of shards, so a run is a function of the code and the seed
        jobs = []
        for ti, t in enumerate(spec["tests"]):
            total = t[tier]
            n = t.get("shards", max(1, WORKERS // len(spec["tests"])))
            if tier == "thorough":
                n = t.get("shards", WORKERS)
            per = max(1, (total + n - 1) // n)
            for s in range(n):
                sd = (seed * 1000003 + ti * 7919 + s * 104729 + 1) & 0x7FFFFFFF
                jobs.append((t, per, sd or 1, len(jobs)))
        deadline = t0 + BUDGET[tier]
        results = []
        bad = None
        with cf.ThreadPoolExecutor(max_workers=WORKERS) as ex:
            futs = [ex.submit(lambda t, per, sd, i: run_shard(work, t["pkg"], t["test"], per, sd, i,
                                                              max(5, deadline - time.time()),
                                                              dict(t.get("env", {}), VERIF_TIER=tier)), *j) for j in jobs]
            for f in cf.as_completed(futs):
                try:
                    r = f.result()
                except cf.CancelledError:
                    continue
                results.append(r)
                k = classify(r)
                if k == "violation" and (bad is None or classify(bad) != "violation"):
                    bad = r
                    for g in futs:
                        g.cancel()
                    kill_all()
                elif k == "error" and bad is None:
                    bad = r

        # evidence
        evals = sum((r["stats"] or {}).get("evaluations", 0) for r in results)
        digests, samples, labels, rules = set(), [], {}, []
        per_test = {}
        for r in results:
            st = r["stats"]
            if not st:
                continue
            per_test[r["test"]] = per_test.get(r["test"], 0) + st["evaluations"]
            for d in st["digests"] or []:
                digests.add(r["test"] + d)
            rule = "%s: %s" % (r["test"], st["rule"])
            if rule not in rules:
                rules.append(rule)
            for s in (st["samples"] or [])[:1]:
                if sum(1 for x in samples if x["test"] == r["test"]) < 2:
                    samples.append({"test": r["test"], "seed": r["seed"], "case": s})
            for l, c in (st["labels"] or {}).items():
                key = r["test"] + ":" + l
                labels[key] = labels.get(key, 0) + c
        violation = bad is not None and classify(bad) == "violation"
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(digests), "rule": " || ".join(sorted(rules)),
                "samples": samples, "per_test": per_test, "labels": dict(sorted(labels.items())),
                "shards": len(jobs), "build_s": round(built, 1),
            },
            "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)

        for k in known_findings(pid):
            print("KNOWN-FINDING: " + k[len("finding: "):])
        if violation:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rec = {"property": pid, "pkg": bad["pkg"], "test": bad["test"], "seed": bad["seed"], "checks": bad["checks"],
                   "failfile": bad["fails"][0] if bad["fails"] else None, "tier": tier,
                   "output": bad["out"][-20000:]}
            h = hashlib.sha256(json.dumps([rec["failfile"] or rec["output"], bad["test"]]).encode()).hexdigest()[:12]
            path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1)
            print(message(bad["out"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if bad is not None:
            print("ERROR: %s/%s gave no answer (rc=%s timeout=%s)\n%s" % (bad["pkg"], bad["test"], bad["rc"], bad["timeout"], bad["out"][-3000:]))
            return 2
        if evals == 0:
            print("ERROR: nothing was evaluated")
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)"
              % (pid, tier, seed, evals, len(digests), time.time() - t0, built))
        return 0
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if not build([rec["pkg"]], work):
            return 2
        ff = None
        if rec.get("failfile"):
            ff = os.path.join(work, "replay.fail")
            with open(ff, "w") as fh:
                fh.write(rec["failfile"])
        r = run_shard(work, rec["pkg"], rec["test"], 1 if ff else rec["checks"], rec["seed"], 0, 600,
                      {"VERIF_TIER": rec.get("tier", "quick")}, ff)
        print(r["out"][-6000:])
        k = classify(r)
        if k == "violation":
            print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.abspath(path)))
            return 1
        return 0 if k == "ok" else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            pkgs = sorted({t["pkg"] for s in PROPS.values() for t in s["tests"]})
            ok = build(pkgs, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup: %s" % ("ok" if ok else "failed"))
        return 0 if ok else 2
    if len(sys.argv) == 2 and sys.argv[1] == "--list":
        for pid, s in PROPS.items():
            for t in s["tests"]:
                print(pid, t["pkg"], t["test"], t["quick"], t["thorough"])
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        return 2
    return run(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
