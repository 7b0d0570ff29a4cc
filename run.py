#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check ID [--tier quick|thorough] [--seed N]   decide one property on /repo
  run.py replay FILE                                   run the case of a violation again
  run.py setup                                         check that everything builds

A check builds the harness against /repo's working tree (and the command line tools it
needs, some with the race detector and the verif hooks), runs it in shards, and turns
what the shards report into a verdict and evidence/ID.json.

Exit status: 0 held on everything explored, 1 violated (with a VIOLATION line), 2 no
verdict (the tree doesn't build, or the run was stopped from outside).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "github.com/ryanbressler/CloudForest"

# name -> (package, race detector)
BINS = {
    "growforest": (PKG + "/growforest", False),
    "growforest-race": (PKG + "/growforest", True),
    "applyforest": (PKG + "/applyforest", False),
    "leafcount": (PKG + "/leafcount", False),
    "leafcount-race": (PKG + "/leafcount", True),
    "nfold": (PKG + "/utils/nfold", False),
    "toafm": (PKG + "/utils/toafm", False),
}
# property -> what it runs: bins = tools, race = the harness itself is built with the race
# detector, shards = parallel processes
PROPS = json.load(open(os.path.join(HERE, "props.json")))


def goenv(work):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") or k.startswith("CGO"):
            del env[k]
    cache = os.environ.get("VERIF_GOCACHE") or os.path.join(HERE, ".build", "gocache")
    os.makedirs(cache, exist_ok=True)
    env.update(GO111MODULE="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOPATH=os.path.join(work, "gopath"),
               GOCACHE=cache, GOENV="off")
    return env


def build(work, prop):
    """Build the harness and the tools prop needs, return (harness, bin directory)."""
    env = goenv(work)
    src = os.path.join(work, "gopath", "src")
    os.makedirs(os.path.join(src, "github.com", "ryanbressler"))
    os.symlink(REPO, os.path.join(src, PKG))
    os.makedirs(os.path.join(src, "verif"))
    os.symlink(os.path.join(HERE, "harness"), os.path.join(src, "verif", "harness"))
    bindir = os.path.join(work, "bin")
    os.makedirs(bindir)
    spec = PROPS[prop]
    jobs = [("harness", "verif/harness", bool(spec.get("race")))]
    jobs += [(b,) + BINS[b] for b in spec.get("bins", [])]
    # one at a time: the first fills the cache the others use
    for name, pkg, race in jobs:
        cmd = ["go", "build", "-buildvcs=false", "-tags", "verif", "-o", os.path.join(bindir, name)]
        if race:
            cmd.append("-race")
        p = subprocess.run(cmd + [pkg], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("INCONCLUSIVE: %s doesn't build\n%s" % (pkg, p.stdout))
            sys.exit(2)
    return os.path.join(bindir, "harness"), bindir


def runenv():
    env = dict(os.environ)
    # rand.Seed has to work so that cases are reproducible
    env["GODEBUG"] = "randseednop=0"
    env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0"
    env.pop("GOMAXPROCS", None)
    return env


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def check(prop, tier, seed, only=None, cases=0):
    t0 = time.time()
    spec = PROPS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, only, cases, t0, spec, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, only, cases, t0, spec, work):
    harness, bindir = build(work, prop)
    meta = {d["Prop"]: d for d in json.loads(subprocess.check_output([harness, "-list"], text=True))}[prop]
    built = time.time() - t0
    shards = spec.get("shards", 8) if only is None else 1
    limit = 300 if tier == "quick" else 600
    total = 800 if tier == "quick" else 6 * 3600
    procs = []
    for k in range(shards):
        d = os.path.join(work, "shard%d" % k)
        os.makedirs(d)
        cmd = [harness, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(k), "-shards", str(shards),
               "-out", os.path.join(d, "out.json"), "-state", os.path.join(d, "state"), "-bin", bindir, "-tmp", d,
               "-limit", str(limit)]
        if only is not None:
            cmd += ["-case", str(only), "-v"]
        if cases:
            cmd += ["-n", str(cases)]
        err = open(os.path.join(d, "stderr"), "wb")
        procs.append((d, subprocess.Popen(cmd, env=runenv(), cwd=d, stdout=err, stderr=err)))
    deadline = t0 + total
    violations, obs, sigs, samples, evals, broken = [], {}, set(), [], 0, []
    for d, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            broken.append("stopped after %d s" % total)
            continue
        err = open(os.path.join(d, "stderr"), "rb").read().decode("utf8", "replace")
        if only is not None:
            sys.stdout.write(err)
        try:
            rep = json.load(open(os.path.join(d, "out.json")))
        except (OSError, ValueError):
            rep = None
        if p.returncode == 0 and rep and rep["Done"]:
            evals += rep["Evals"]
            for k, v in rep["Obs"].items():
                obs[k] = obs.get(k, 0) + v
            sigs.update(rep["SigList"] or [])
            samples += rep["Samples"] or []
            violations += rep["Violations"] or []
            continue
        if p.returncode in (3, -9, -15):
            broken.append("harness ended with %d: %s" % (p.returncode, err[-500:]))
            continue
        # the process died in the middle of a case: a panic in another go routine, a fatal
        # error of the runtime, log.Fatal, a report of the race detector or a hang
        try:
            case = int(open(os.path.join(d, "state")).read().strip() or -1)
        except (OSError, ValueError):
            case = -1
        key = {4: "hang", 5: "memory", 66: "race"}.get(p.returncode, "crash")
        violations.append({"Key": key, "Case": case, "Detail": "process ended with %d\n%s" % (p.returncode, err[-6000:])})
    known = {(p, k): text for p, k, text in known_findings()}
    reported = [v for v in violations if (prop, v["Key"]) not in known]
    for p, k, text in known_findings():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, text))
    if only is None:
        cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": meta["Rule"], "samples": samples[:6] or ["none"],
               "observed": dict(sorted(obs.items())), "shards": shards, "build_s": round(built, 1)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 2), "assumptions": meta["Assumptions"] or [], "violations": len(reported)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", prop + ".json")
        json.dump(ev, open(path + ".tmp", "w"), indent=1)
        os.replace(path + ".tmp", path)
        print("%s %s: %d evaluations, %d distinct non trivial, %.1f s" % (prop, tier, evals, len(sigs), time.time() - t0))
        for k, v in sorted(obs.items()):
            print("  observed %-45s %d" % (k, v))
    if reported:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in sorted(reported, key=lambda v: v["Case"]):
            if v["Key"] in seen or len(seen) >= 4:
                continue
            seen.add(v["Key"])
            f = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", v["Key"]), v["Case"]))
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["Case"], "key": v["Key"], "detail": v["Detail"],
                       "replay": "python3 %s/run.py replay %s" % (HERE, f)}, open(f, "w"), indent=1)
            print("%s case %d: %s: %s" % (prop, v["Case"], v["Key"], v["Detail"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if broken:
        print("INCONCLUSIVE: " + "; ".join(broken))
        return 2
    if only is None and not cases:
        vac = [k for k in meta["Need"] or [] if not obs.get(k)]
        if vac or not sigs:
            print("INCONCLUSIVE: nothing observed of %s" % (vac or "anything non trivial"))
            return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "setup"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int, default=0)
    a = ap.parse_args()
    if a.cmd == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            harness, _ = build(work, sorted(PROPS)[0])
            print("harness builds, checks:", " ".join(d["Prop"] for d in json.loads(subprocess.check_output([harness, "-list"], text=True))))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if a.cmd == "replay":
        r = json.load(open(a.what))
        return check(r["property"], r["tier"], r["seed"], only=r["case"])
    return check(a.what, a.tier, a.seed, cases=a.cases)


if __name__ == "__main__":
    sys.exit(main())
