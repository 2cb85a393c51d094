"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N] [--root DIR] [--selftest N]"""
import argparse, traceback, importlib, json, os, subprocess, sys, time
from . import core, overlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="1",
           TQDM_DISABLE="1")


def load(prop):
    mod = importlib.import_module("dst.worlds.%s" % prop.lower())
    return mod.WORLD()


def findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def scenarios(world, seed, tier, n):
    for i in range(n):
        r = core.rng_for(seed, world.prop, tier, i)
        sc = world.gen(r, tier)
        sc = json.loads(json.dumps(sc))
        sc.setdefault("ops", [])
        yield i, sc


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--root", help="use an already built scratch tree")
    ap.add_argument("--selftest", type=int, default=0)
    ap.add_argument("--digests", action="store_true", help="print run digests (determinism test)")
    ap.add_argument("--only", type=int, help="run only scenario number N and print its log")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--hashseed", default="0")
    a = ap.parse_args(argv)

    want = dict(ENV, PYTHONHASHSEED=a.hashseed)
    if any(os.environ.get(k) != v for k, v in want.items()) or "PYTHONPATH" in os.environ:
        env = dict(os.environ, **want)
        env.pop("PYTHONPATH", None)
        os.execve(overlay.PY, [overlay.PY, "-W", "ignore", os.path.join(VERIF, "check.py")] + (argv or sys.argv[1:]), env)

    own = a.root is None
    root = a.root or overlay.build()
    try:
        return run(a, root)
    finally:
        if own:
            overlay.remove(root)


def run(a, root):
    overlay.activate(root)
    t0 = time.time()
    world = load(a.prop)
    world.root = os.path.join(root, "pystatsm") + os.sep
    warm_error = None
    try:
        world.warm()
    except Exception:                       # a call that fails while warming up fails in the runs too, where it is judged
        warm_error = traceback.format_exc()
        print("warming up raised:\n" + warm_error[-1500:], file=sys.stderr)
    t_warm = time.time() - t0
    if a.replay:
        return replay(a, world, root)
    n = a.runs or (world.quick_runs if a.tier == "quick" else world.thorough_runs)
    cap = float(os.environ.get("DST_WALL_CAP", "420" if a.tier == "quick" else "3000"))
    if a.only is not None:
        for i, sc in scenarios(world, a.seed, a.tier, a.only + 1):
            pass
        print(json.dumps(sc))
        res = core.run_one(world, sc, root, record=True)
        for l in res.pop("log") or []:
            print("  ", l)
        print(json.dumps({k: v for k, v in res.items() if k not in ("harness",)}, indent=1)[:4000])
        print(res["harness"] or "")
        return 0

    import glob
    for f in glob.glob(os.path.join(VERIF, "evidence", "replay_%s_*.json" % a.prop)):
        os.remove(f)
    t1 = time.time()
    viol, harness, known = [], [], {}
    counts, states, shapes, samples = {}, set(), set(), []
    done = nontriv = steps = 0
    digests = {}
    stop = lambda: len(viol) >= 6 and not a.keep_going
    for i, sc, res in core.run_many(world, scenarios(world, a.seed, a.tier, n), root, a.workers,
                                    wall_cap=cap, stop_on_violation=stop):
        done += 1
        steps += res["steps"]
        digests[i] = res["digest"]
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        states.update(res["states"])
        if world.nontrivial(sc, res):
            key = json.dumps(sc, sort_keys=True)
            if hash(key) not in shapes:
                shapes.add(hash(key))
                nontriv += 1
        if len(samples) < 3 and res["steps"] and len(json.dumps(sc)) < 6000:
            samples.append(dict(run=i, scenario=sc, events=res["events"], digest=res["digest"][:16]))
        if res["harness"]:
            harness.append((i, res["harness"]))
        if res["violation"]:
            f = world.known(sc, res)
            if f is not None and any(d["id"] == f for d in findings(a.prop)):
                known.setdefault(f, []).append(i)
            else:
                viol.append((i, sc, res))
    wall = time.time() - t1
    if a.digests:
        for i in sorted(digests):
            print("D", i, digests[i])

    for d in findings(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, d["what"]))

    if a.keep_going:
        hist = {}
        for i, sc, res in viol:
            hist.setdefault(res["violation"][0], []).append((len(sc["ops"]), i, res["violation"][1][:300]))
        for k in sorted(hist, key=lambda k: -len(hist[k])):
            print("%5d %s e.g. run %d: %s %s" % (len(hist[k]), k, min(hist[k])[1], min(hist[k])[2], [h[1] for h in sorted(hist[k])[:8]]))
        for i, h in harness[:2]:
            print("harness run", i, h)
        print(done, "runs", nontriv, "nontrivial", len(harness), "harness", round(wall, 1), "s", counts)
        return 0
    rc = 0
    reported = 0
    if viol:
        rc = 1
        viol.sort(key=lambda t: (len(json.dumps(t[1])), t[0]))
        classes = set()
        for i, sc, res in viol:
            cls = res["violation"][0]
            if cls in classes or reported >= 3:
                continue
            classes.add(cls)
            msc, tried = core.minimise(world, sc, cls, root, budget=40.0, workers=a.workers)
            mres = core.run_one(world, msc, root, record=True)
            if not (mres["violation"] and mres["violation"][0] == cls):
                msc, mres = sc, res
            path = os.path.join(VERIF, "evidence", "replay_%s_%d_%d.json" % (a.prop, a.seed, i))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            doc = dict(property=a.prop, seed=a.seed, tier=a.tier, run=i, violation=cls,
                       detail=mres["violation"][1], digest=mres["digest"], scenario=msc,
                       original_ops=len(sc["ops"]), minimised_ops=len(msc["ops"]), minimiser_runs=tried,
                       trace=(mres.get("log") or [])[-60:])
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            p = subprocess.run([overlay.PY, "-W", "ignore", os.path.join(VERIF, "check.py"), a.prop, "--replay", path,
                                "--root", root], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            doc["replay_confirmed_in_fresh_process"] = p.returncode == 1
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            print("violation class=%s seed=%d run=%d ops=%d->%d replay_confirmed=%s" % (
                cls, a.seed, i, len(sc["ops"]), len(msc["ops"]), p.returncode == 1))
            print("  " + mres["violation"][1].replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            reported += 1
    elif harness or warm_error:
        rc = 3
    if harness:
        print("harness errors: %d" % len(harness), file=sys.stderr)
        for i, h in harness[:3]:
            print("run %d\n%s" % (i, h), file=sys.stderr)
    if done == 0 and rc == 0:
        rc = 3

    # determinism sample: some runs again, events must be identical
    mism = 0
    redo = [i for i in sorted(digests)[: (6 if a.tier == "quick" else 40)]]
    if redo and rc == 0:
        again = dict(scenarios(world, a.seed, a.tier, max(redo) + 1))
        for i, sc, res in core.run_many(world, [(i, again[i]) for i in redo], root, 3):
            if res["digest"] != digests[i]:
                mism += 1
    fault_kinds = {k[6:]: v for k, v in counts.items() if k.startswith("fault:")}
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=world.level,
              coverage=dict(
                  evaluations=done, distinct_nontrivial=nontriv,
                  rule=world.rule, samples=samples,
                  simulated_runs=done, seeds_per_hour=round(done / max(wall, 1e-9) * 3600),
                  simulated_steps=steps,
                  simulated_time="no component of this system reads a clock; time is counted in %d simulated steps" % steps,
                  faults_injected=fault_kinds,
                  operations={k[3:]: v for k, v in sorted(counts.items()) if k.startswith("op:")},
                  probes={k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe:")},
                  assertions=counts.get("assertions", 0),
                  distinct_states_reached=len(states), states_measure=world.__dict__.get("states_measure", getattr(world, "states_measure", "")),
                  determinism_reruns=len(redo), determinism_mismatches=mism,
                  runs_planned=n, stopped_by_wall_cap=bool(done < n and not viol),
                  known_findings_hit={k: len(v) for k, v in known.items()},
                  components_real=list(world.real), components_stubbed=list(world.stub)),
              assumptions=list(world.assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if reported == 0 or True:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s seed=%d runs=%d/%d nontrivial=%d steps=%d faults=%s warm=%.1fs wall=%.1fs mismatches=%d violations=%d harness=%d" % (
        a.prop, a.tier, a.seed, done, n, nontriv, steps, fault_kinds, t_warm, wall, mism, len(viol), len(harness)))
    return rc


def replay(a, world, root):
    doc = json.load(open(a.replay))
    res = core.run_one(world, doc["scenario"], root, record=True)
    for l in (res.get("log") or [])[-40:]:
        print("  ", l)
    if res["harness"]:
        print(res["harness"], file=sys.stderr)
        return 3
    if res["violation"]:
        same = res["violation"][0] == doc["violation"] and res["digest"] == doc["digest"]
        print("replayed: class=%s identical=%s\n  %s" % (res["violation"][0], same, res["violation"][1]))
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    print("replay: no violation")
    return 0
