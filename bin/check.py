#!/usr/bin/env python3
"""Decides one property: generates behaviours from the Quint specification and
replays them into the library built from /repo's working tree.

  check.py ID                 the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py ID --replay FILE   replay a saved counterexample

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: the real code deviated from the specification.  Exit 2: trouble of the
machinery itself, no verdict.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402

ENV = dict(os.environ, HOME="/root",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")


class Trouble(Exception):
    pass


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, env=kw.pop("env", ENV), timeout=timeout, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, **kw)
    except subprocess.TimeoutExpired:
        raise Trouble("timeout: " + " ".join(map(str, cmd)))


def stages():
    """The optional bindings to unexported functions: name -> (file in package bls, file in the driver)."""
    d = os.path.join(VERIF, "driver", "stages")
    return {os.path.basename(f)[len("zz_verif_stage_"):-3]: (f, f.replace("zz_verif_stage_", "zz_verif_bind_"))
            for f in glob.glob(os.path.join(d, "zz_verif_stage_*.go"))}


def build(kind, tmp):
    """Build the driver together with the library's current working tree."""
    ov = os.path.join(tmp, "overlay-%s.json" % kind)
    out = os.path.join(tmp, "driver-" + kind)
    env, extra = dict(ENV), []
    if kind == "386":
        env.update(GOARCH="386", CGO_ENABLED="0")
    elif kind == "race":
        env.update(CGO_ENABLED="1")
        extra = ["-race"]
    bound = stages()
    while True:
        rep = {os.path.join(REPO, "zzverif", os.path.basename(g)): g for g in glob.glob(os.path.join(VERIF, "driver", "*.go"))}
        for f, g in bound.values():
            rep[os.path.join(REPO, os.path.basename(f))] = f
            rep[os.path.join(REPO, "zzverif", os.path.basename(g))] = g
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)
        r = run(["go", "build", "-gcflags=-e", *extra, "-overlay", ov, "-o", out, "./zzverif"], 600, cwd=REPO, env=env)
        if r.returncode == 0:
            return out
        # internal functions may be renamed or change shape at will: go on without those
        left = {k: v for k, v in bound.items() if "zz_verif_stage_%s.go" % k not in r.stderr and "zz_verif_bind_%s.go" % k not in r.stderr}
        if not bound:
            raise Trouble("cannot build the driver (%s):\n%s" % (kind, r.stderr[-4000:]))
        bound = left if len(left) < len(bound) else {}


def quint(args, timeout, cwd):
    return run(["quint", *args], timeout, cwd=cwd)


def name_of(gen):
    return gen.get("main", gen["spec"])


def far(*what):
    """A seed of its own for each behaviour. Quint's generator counts up from the seed, so that neighbouring
    seeds give nearly the same choices."""
    return int(hashlib.sha256(repr(what).encode()).hexdigest()[:12], 16)


def generate(gen, seed, steps, out, timeout):
    spec = os.path.join(VERIF, "spec", gen["spec"] + ".qnt")
    cmd = ["run", "--backend", "typescript", "--max-samples", "1", "--max-steps", str(steps),
           "--seed", str(seed), "--verbosity", "1", "--out-itf", out]
    if gen.get("main"):
        cmd += ["--main", gen["main"]]
    if gen.get("step"):
        cmd += ["--step", gen["step"]]
    if gen.get("init"):
        cmd += ["--init", gen["init"]]
    inv = gen.get("inv", "inv")
    if inv:
        cmd += ["--invariant", inv]
    r = quint(cmd + [spec], timeout, os.path.dirname(out))
    if r.returncode != 0 or not os.path.exists(out):
        raise Trouble("quint run failed on %s: %s%s" % (gen["spec"], r.stdout[-3000:], r.stderr[-3000:]))


def replay(drivers, kind, args, paths, timeout=850):
    """Run a driver over traces; its summary, with a crash or a data race as a failure."""
    r = run([drivers[kind], *args], timeout, env=dict(ENV, GORACE="halt_on_error=1 exitcode=66"))
    try:
        s = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        s = None
    race = r.returncode == 66 and "DATA RACE" in r.stderr
    if race or r.returncode not in (0, 1) or s is None or (r.returncode == 1) != (s["failure"] is not None):
        # a crash the Go runtime does not let us recover from, or a race, is caused by the code under test
        # (a panic in a goroutine that the library started ends the process)
        library = "\npanic: " in "\n" + r.stderr and "created by github.com/phoreproject/bls" in r.stderr
        if race or (r.returncode == 2 and ("fatal error:" in r.stderr or library)):
            s = {"machine": args[0], "arch": kind, "traces": 0, "steps": 0, "ops": {}, "distinct_events": 0,
                 "samples": [], "failure": {"file": paths[0], "step": None, "op": "?", "detail": r.stderr[:3000]}}
        else:
            raise Trouble("driver %s: exit %d\n%s\n%s" % (kind, r.returncode, r.stdout[-2000:], r.stderr[-3000:]))
    s["kind"] = kind
    return s


def commands(gen, idx, path):
    """The replays of one behaviour: (build, driver arguments)."""
    if gen.get("concurrent"):
        # every process of the behaviour as goroutines: with the race detector from a warm and from a
        # cold start, and at full speed several times over
        return [("race", ["concurrent", "cold" if idx % 2 else "conc", path])] + \
               [("amd64", ["concurrent", m, path]) for m in ("conc", "cold", "conc", "cold", "hammer")]
    out = []
    for kind in gen.get("drivers", ["amd64", "386"]):
        # the portable build is slow on pairings: some machines replay only every n-th behaviour on it
        if kind == "386" and idx % gen.get("every386", 1):
            continue
        out.append((kind, [gen.get("machine", gen["spec"]), path]))
    return out


def job(gen, idx, seed, steps, drivers, tmp, stop):
    """One behaviour: generate, then replay on every build."""
    if stop.is_set():
        return None
    path = os.path.join(tmp, "%s-%d.itf.json" % (name_of(gen), idx))
    t0 = time.time()
    generate(gen, seed, steps, path, gen.get("timeout", 800))
    t1 = time.time()
    res = []
    for kind, args in commands(gen, idx, path):
        if stop.is_set():
            return None
        s = replay(drivers, kind, args, [path])
        res.append(s)
        if s["failure"]:
            stop.set()
            return {"gen": gen, "idx": idx, "seed": seed, "res": res, "paths": [path], "args": args, "fail": s}
    if gen.get("concurrent"):
        os.remove(path)
    return {"gen": gen, "idx": idx, "seed": seed, "res": res, "fail": None, "t": (t1 - t0, time.time() - t1), "path": path}


def relays(done, drivers, seconds, tmp):
    """The behaviours once more, a few at a time in one process, by turns and repeatedly."""
    done = [r for r in done if r.get("path") and not r["gen"].get("concurrent")]
    groups = [[r for r in done if r["idx"] % 1000 % 8 in (k, (k + 1) % 8)][:6] for k in range(8)]

    def one(g):
        paths = [r["path"] for r in g]
        args = ["relay", str(seconds)] + [x for r in g for x in (r["gen"].get("machine", r["gen"]["spec"]), r["path"])]
        s = replay(drivers, "amd64", args, paths)
        return {"gen": {"spec": "relay"}, "idx": 9000, "seed": g[0]["seed"], "res": [s], "paths": paths, "args": args,
                "fail": s if s["failure"] else None}
    return [(one, g) for g in groups if g]


def part(gen, idx, seed, steps, tmp, stop):
    """One behaviour of a bundle: generate only."""
    if stop.is_set():
        return None
    path = os.path.join(tmp, "bundle%d-%s%s.itf.json" % (idx, name_of(gen), gen.get("step", "")))
    generate(gen, seed, steps, path, gen.get("timeout", 800))
    return [gen.get("machine", gen["spec"]), path]


def bundle(idx, seed, parts, drivers, stop):
    """Behaviours of several machines replayed at the same time in one process."""
    args = ["concurrent", "bundle"] + [x for p in parts for x in p]
    paths = [p[1] for p in parts]
    gen, res = {"spec": "bundle"}, []
    for kind in ("race", "amd64", "amd64"):
        if stop.is_set():
            return None
        s = replay(drivers, kind, args, paths)
        res.append(s)
        if s["failure"]:
            stop.set()
            return {"gen": gen, "idx": idx, "seed": seed, "res": res, "paths": paths, "args": args, "fail": s}
    return {"gen": gen, "idx": idx, "seed": seed, "res": res, "fail": None}


def model_step(ms, tmp):
    """A check of the specification itself (model level). Trouble, not a verdict, when it fails."""
    spec = os.path.join(VERIF, "spec", ms["spec"] + ".qnt")
    d = tempfile.mkdtemp(dir=tmp)
    t0 = time.time()
    if ms["kind"] == "test":
        r = quint(["test", "--main", ms.get("main", ms["spec"]), "--max-samples", "1",
                   *(["--match", ms["match"]] if "match" in ms else []), spec], ms.get("timeout", 800), d)
        ok = r.returncode == 0 and " passed " in r.stdout and "failed" not in r.stdout
    elif ms["kind"] == "verify":
        r = quint(["verify", "--main", ms.get("main", ms["spec"]), "--max-steps", str(ms["steps"]),
                   "--invariant", ms["inv"], spec], ms.get("timeout", 800), d)
        ok = r.returncode == 0 and "No violation" in r.stdout
    else:
        raise Trouble("unknown model step")
    if not ok:
        raise Trouble("model step %s failed:\n%s\n%s" % (ms["spec"], r.stdout[-3000:], r.stderr[-2000:]))
    return {"spec": ms["spec"], "kind": ms["kind"], "wall_s": round(time.time() - t0, 1),
            "output": [l for l in r.stdout.splitlines() if l.strip()][-4:]}


def save_counterexample(pid, fail, tmp):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = fail["fail"]["failure"]
    out = os.path.join(d, "%s.itf.json" % pid)
    docs = [json.load(open(p)) for p in fail["paths"]]
    if len(docs) == 1 and f["step"] is not None and "concurrent" not in fail["args"]:
        docs[0]["states"] = docs[0]["states"][:f["step"] + 1]
    # traces are named by position: TRACE0, TRACE1, ...
    args = ["TRACE%d" % fail["paths"].index(a) if a in fail["paths"] else a for a in fail["args"]]
    with open(out, "w") as fh:
        json.dump({"build": fail["fail"]["kind"], "args": args, "seed": fail["seed"], "detail": f, "traces": docs}, fh)
    return out


def replay_saved(path, tmp):
    doc = json.load(open(path))
    args, paths = list(doc["args"]), []
    for k, t in enumerate(doc["traces"]):
        paths.append(os.path.join(tmp, "trace%d.itf.json" % k))
        with open(paths[k], "w") as fh:
            json.dump(t, fh)
        args = [paths[k] if a == "TRACE%d" % k else a for a in args]
    drivers = {doc["build"]: build(doc["build"], tmp)}
    # a concurrent failure may need several schedules
    for _ in range(20 if "concurrent" in args else 1):
        s = replay(drivers, doc["build"], args, paths)
        if s["failure"]:
            print(json.dumps(s["failure"], indent=1))
            return 1
    print("no failure")
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):].strip())
    return out


def main():
    pid = sys.argv[1]
    plan = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay_saved(sys.argv[3], tmp)
        return check(pid, plan, tier, seed0, t0, tmp)
    except Trouble as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    except Exception:
        print("ERROR property=%s: %s" % (pid, traceback.format_exc()))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, plan, tier, seed0, t0, tmp):
    thorough = tier == "thorough"
    kinds = sorted({k for g in plan["gens"] for k in (["race", "amd64"] if g.get("concurrent") else g.get("drivers", ["amd64", "386"]))})
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    stop = threading.Event()
    with cf.ThreadPoolExecutor(workers) as ex:
        drivers = dict(zip(kinds, ex.map(lambda k: build(k, tmp), kinds)))
        futs = []
        for gi, g in enumerate(plan["gens"]):
            n = g["runs"][1] if thorough else g["runs"][0]
            steps = g["steps"][1] if thorough else g["steps"][0]
            for k in range(n):
                seed = far(seed0, pid, gi, k)
                futs.append((g, ex.submit(job, g, gi * 1000 + k, seed, steps, drivers, tmp, stop)))
        pfuts = {}
        for bi in range(plan["bundles"][1 if thorough else 0] if "bundle" in plan else 0):
            for pi, (g, steps) in enumerate(plan["bundle"]):
                seed = far(seed0, pid, "part", pi, bi)
                pfuts.setdefault(bi, []).append(ex.submit(part, g, bi, seed, steps, tmp, stop))
        models = [m for m in plan.get("models", []) if thorough or m.get("quick")]
        mfuts = [ex.submit(model_step, m, tmp) for m in models]
        results, trouble = [], None
        for g, f in futs:
            try:
                r = f.result()
                if r:
                    results.append(r)
            except Trouble as e:
                trouble = trouble or e
                stop.set()
        for bi, fs in pfuts.items():
            try:
                parts = [f.result() for f in fs]
                if all(parts):
                    r = bundle(bi, seed0, parts, drivers, stop)
                    if r:
                        results.append(r)
                for p in parts:
                    if p and not (results and results[-1]["fail"]):
                        os.remove(p[1])
            except Trouble as e:
                trouble = trouble or e
                stop.set()
        if not trouble and not any(r["fail"] for r in results) and "amd64" in drivers:
            for f in [ex.submit(one, g) for one, g in relays(results, drivers, 120 if thorough else 20, tmp)]:
                try:
                    results.append(f.result())
                except Trouble as e:
                    trouble = trouble or e
        mres = []
        for f in mfuts:
            try:
                mres.append(f.result())
            except Trouble as e:
                trouble = trouble or e
    fails = [r for r in results if r["fail"]]
    ops, samples, traces, steps, distinct, builds = {}, [], 0, 0, 0, {}
    for r in results:
        for s in r["res"]:
            traces += s["traces"]
            steps += s["steps"]
            if r["gen"]["spec"] == "relay":
                builds["amd64 by turns"] = builds.get("amd64 by turns", 0) + s["steps"]
                continue
            builds[s["kind"]] = builds.get(s["kind"], 0) + s["steps"]
            if s["kind"] == r["res"][0]["kind"]:
                distinct += s["distinct_events"]
                for o, c in s["ops"].items():
                    key = name_of(r["gen"]) + "." + o
                    ops[key] = ops.get(key, 0) + c
        if len(samples) < 12:
            l = r["res"][0]["samples"] or []
            samples += [x for x in l if x.startswith("unbound")] + [x for x in l if not x.startswith("unbound")][:3]
    spec_steps = sum(r["res"][0]["steps"] for r in results if r["gen"]["spec"] != "relay")
    ev = {"property": pid, "tier": tier, "seed": seed0, "level": "model_checking",
          "coverage": {
              "states": distinct, "transitions": spec_steps,
              "traces_validated_against_impl": traces,
              "steps_replayed_per_build": builds, "spec_actions_taken": ops,
              "behaviours_generated": sum(r["gen"]["spec"] != "relay" for r in results), "model_level_checks": mres,
              "samples": samples or ["none"],
              "rule": "states = distinct (call, operands, resulting state) triples of the generated behaviours; "
                      "transitions = steps generated from the specification; each behaviour is replayed step by step "
                      "into the real code on every listed build and the projected state compared after each step"},
          "assumptions": plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fails:
        fail = min(fails, key=lambda r: r["idx"])
        f = fail["fail"]["failure"]
        path = save_counterexample(pid, fail, tmp)
        print("%s on %s, step %s, %s: %s" % (name_of(fail["gen"]), fail["fail"]["kind"], f["step"], f["op"], f["detail"][:2500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if trouble:
        raise trouble
    missing = [name_of(g) + "." + o for g in plan["gens"] for o in g.get("must", []) if not ops.get(name_of(g) + "." + o)]
    if missing:
        raise Trouble("vacuous run, actions never taken: %s" % missing)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    print("ok property=%s tier=%s seed=%d behaviours=%d steps=%d replayed=%s wall=%.1fs" %
          (pid, tier, seed0, sum(r["gen"]["spec"] != "relay" for r in results), spec_steps, builds, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
