"""python -m vlib.main <property> [--replay FILE]: run one property's generated checks."""
import importlib
import json
import os
import sys
import time
import traceback
import copy
import hashlib
import shutil
import tempfile

ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CASE_SECONDS = 120      # cases take well below a second, the first one of a process some seconds
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known:") and ("property=%s " % pid) in ln:
                out.append(ln[len("known:"):].strip())
    return out


def run_task(chk, sub, shard, tier, seed, deadline):
    """Run one shard of one subtest; returns a JSON-able result."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    from vlib.core import Ctx, Violation, timeout
    eng.MAX_SHRINKING_SECONDS = 60
    ctx = Ctx()
    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, n // sub.shards)
    last = {}
    skipped = [0]

    @hypothesis.seed(seed * 1000 + shard)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example],
              phases=(Phase.generate, Phase.shrink))
    @given(sub.strategy)
    def body(spec):
        if time.time() > deadline and not last:
            skipped[0] += 1
            return
        if last.get("hang"):       # an endless case is not shrunk
            if spec == last["spec"]:
                raise Violation(last["msg"])
            return
        ctx.start(spec)
        try:
            with timeout(CASE_SECONDS, "this case"):
                sub.fn(copy.deepcopy(spec), ctx)   # checks may annotate their copy
        except Violation as v:
            last["spec"], last["msg"], last["hang"] = spec, str(v), "did not finish within" in str(v)
            raise
        except (hypothesis.errors.HypothesisException, MemoryError, OSError, ImportError):
            raise
        except Exception as e:  # the output lacks what the property reads, or has another shape
            tb = traceback.extract_tb(e.__traceback__)[-1]
            last["spec"], last["msg"] = spec, "result cannot be read as documented: %s: %s (at %s:%d)" % (
                type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)
            raise Violation(last["msg"])

    res = {"sub": sub.name, "shard": shard, "violation": None, "error": None}
    try:
        body()
    except Violation as v:
        res["violation"] = {"msg": str(v), "spec": last.get("spec")}
    except hypothesis.errors.Flaky:
        if last:
            res["violation"] = {"msg": last["msg"] + " [flaky on replay]", "spec": last["spec"]}
        else:
            res["error"] = traceback.format_exc()
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    res.update(evals=ctx.evals, nontrivial=sorted(ctx.nontrivial), classes=ctx.classes,
               samples=ctx.samples, skipped=skipped[0])
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import warnings
    warnings.filterwarnings("ignore")
    devnull = open(os.devnull, "w")
    real_out = sys.stdout
    sys.stdout = devnull
    import numpy as np
    np.seterr(all="ignore")
    import dask
    dask.config.set(scheduler="synchronous")
    import emc2
    assert os.path.realpath(emc2.__file__).startswith("/repo/"), emc2.__file__
    mod = importlib.import_module("checks.%s" % pid.lower())
    chk = mod.CHECK
    if "--replay" in sys.argv:
        from vlib.core import Ctx, Violation
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        sub = [s for s in chk.subtests if s.name == rep["subtest"]][0]
        ctx = Ctx()
        ctx.start(rep["spec"])
        sys.stdout = real_out
        try:
            sub.fn(rep["spec"], ctx)
        except Exception as v:
            print("reproduced: %s" % v)
            sys.exit(1)
        print("case passes")
        sys.exit(0)
    only = os.environ.get("VERIF_ONLY")
    deadline = t0 + (400 if tier == "quick" else 3000)
    tasks = [(s, k) for s in chk.subtests if not only or s.name in only.split(",")
             for k in range(s.shards)]
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    results = [None] * len(tasks)
    running, nxt = {}, 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < NPROC:
            pidn = os.fork()
            if pidn == 0:
                code = 0
                try:
                    out = run_task(chk, tasks[nxt][0], tasks[nxt][1], tier, seed, deadline)
                    with open(os.path.join(tmp, "%d.json" % nxt), "w") as f:
                        json.dump(out, f)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                sys.stderr.flush()
                os._exit(code)
            running[pidn] = nxt
            nxt += 1
        p, st = os.wait()
        if p in running:
            i = running.pop(p)
            path = os.path.join(tmp, "%d.json" % i)
            if os.path.exists(path):
                results[i] = json.load(open(path))
            else:
                results[i] = {"sub": tasks[i][0].name, "shard": tasks[i][1], "violation": None,
                              "error": "worker died with status %d" % st, "evals": 0,
                              "nontrivial": [], "classes": {}, "samples": [], "skipped": 0}
    shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout = real_out
    nontriv, classes, samples, subs = set(), {}, [], {}
    for r in results:
        nontriv.update(r["sub"] + h for h in r["nontrivial"])
        for k, v in r["classes"].items():
            classes[r["sub"] + "/" + k] = classes.get(r["sub"] + "/" + k, 0) + v
        if r["shard"] == 0:
            samples += ["%s: %s" % (r["sub"], s) for s in r["samples"][:1]]
        d = subs.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "skipped_time_budget": 0})
        d["evaluations"] += r["evals"]
        d["nontrivial"] += len(r["nontrivial"])
        d["skipped_time_budget"] += r["skipped"]
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r["error"]]
    # known findings are re-demonstrated by the check itself (mod.FINDINGS: key -> probe)
    finds = known_findings(pid)
    for f in finds:
        key = f.split("key=")[1].split()[0]
        probe = getattr(mod, "FINDINGS", {}).get(key)
        if probe is not None and probe():
            print("KNOWN-FINDING: %s" % f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evals"] for r in results),
                       "distinct_nontrivial": len(nontriv), "rule": chk.rule,
                       "samples": samples[:12], "classes": classes, "subtests": subs},
          "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in subs:
        print("%s %-40s %s" % (pid, d, subs[d]))
    seen = set()
    for r in viol:
        if r["sub"] in seen:
            continue
        seen.add(r["sub"])
        rep = {"property": pid, "subtest": r["sub"], "message": r["violation"]["msg"],
               "spec": r["violation"]["spec"]}
        s = json.dumps(rep, indent=1, default=str)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (
            pid, r["sub"], hashlib.md5(s.encode()).hexdigest()[:8]))
        open(path, "w").write(s)
        print("  %s: %s" % (r["sub"], r["violation"]["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for r in errs:
        print("HARNESS ERROR in %s:\n%s" % (r["sub"], r["error"]), file=sys.stderr)
    print("%s tier=%s seed=%d evaluations=%d nontrivial=%d violations=%d errors=%d wall=%.1fs" % (
        pid, tier, seed, ev["coverage"]["evaluations"], len(nontriv), len(viol), len(errs),
        time.time() - t0))
    if viol:
        sys.exit(1)
    sys.exit(2 if errs else 0)


if __name__ == "__main__":
    main()
