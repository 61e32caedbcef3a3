#!/opt/venv/bin/python
"""Run the solver-based check of one property:  check.py C03 [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ["JAX_ENABLE_X64"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load(prop):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod


def task(a):
    prop, name, seed, tier = a
    from jsym import ob as obm

    mod = load(prop)
    for o in mod.obligations(tier):
        if o.name == name:
            return obm.solve_ob(o, seed)
    raise KeyError(name)


def init_worker():
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    except Exception:
        pass


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: ") and f"property={prop} " in line:
                rest = line.split(f"property={prop} ", 1)[1]
                key, _, text = rest.partition(" ")
                out.append((key, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-t", action="store_true", help="full tracebacks")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier
    t0 = time.time()
    if args.replay:
        return do_replay(args.replay)
    try:
        mod = load(args.prop)
        obs = [o for o in mod.obligations(tier) if tier == "thorough" or o.tier == "quick"]
    except Exception as e:
        import traceback

        traceback.print_exc()
        # the real code cannot even be loaded / set up the obligations
        print(f"ERROR: cannot build obligations: {e}")
        return 2
    if args.list:
        for o in obs:
            print(o.name, o.method, o.vars)
        return 0
    if args.only:
        obs = [o for o in obs if args.only in o.name]
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor

    results = []
    if args.j <= 1 or len(obs) == 1:
        for o in obs:
            results.append(task((args.prop, o.name, seed, tier)))
            if args.v:
                pr(results[-1])
    else:
        from concurrent.futures import FIRST_COMPLETED, wait

        from jsym.ob import ObResult

        # a run gives an answer in time: after a first violation the rest only gets a short while
        deadline = t0 + (800 if tier == "quick" else 1e9)
        names = {k for k, _ in known(args.prop)}
        ctx = mp.get_context("spawn")
        ex = ProcessPoolExecutor(min(args.j, len(obs)), mp_context=ctx, initializer=init_worker)
        futs = {ex.submit(task, (args.prop, o.name, seed, tier)): o.name for o in obs}
        while futs:
            done, _ = wait(futs, timeout=max(0.1, deadline - time.time()), return_when=FIRST_COMPLETED)
            for f in done:
                name = futs.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    r = ObResult(name)
                    r.status, r.detail = "error", repr(e)
                results.append(r)
                if r.status == "violated" and r.name not in names:
                    deadline = min(deadline, time.time() + 30)
                if args.v:
                    pr(r)
            if time.time() > deadline:
                break
        for f, name in futs.items():
            r = ObResult(name)
            r.status, r.detail = "unknown", "not finished in time"
            results.append(r)
        if futs:
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for q in procs:
                q.kill()
        else:
            ex.shutdown()
    results.sort(key=lambda r: r.name)
    kf = known(args.prop)
    code = 0
    bad = [r for r in results if r.status == "violated"]
    err = [r for r in results if r.status in ("unknown", "error")]
    new = []
    for r in bad:
        hit = [t for k, t in kf if k == r.name]
        if hit:
            print(f"KNOWN-FINDING: property={args.prop} {r.name}: {hit[0]}")
        else:
            new.append(r)
    rep = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for r in new:
        path = os.path.join(rep, f"{args.prop}-{r.name.replace('/', '_').replace(' ', '_')}.json")
        with open(path, "w") as f:
            json.dump({"property": args.prop, "obligation": r.name, "tier": tier, "inputs": r.model,
                       "goal": r.label, "observed": r.detail}, f, indent=1)
        print(f"  {r.name} [{r.label}] {str(r.detail)[:400]}")
        print(f"VIOLATION property={args.prop} replay={path}")
        code = 1
    for r in err[:12]:
        print(f"UNDECIDED {r.name}: {r.status}: " + " ".join(str(r.detail).split())[:300])
    if args.t:
        for r in err:
            print(r.name, r.detail)
    if code == 0 and err:
        code = 2
    write_evidence(args, mod, results, bad, new, seed, tier, time.time() - t0)
    print(f"{args.prop}: {len(results)} obligations, {sum(r.status == 'ok' for r in results)} discharged, "
          f"{len(new)} violated, {len(err)} undecided, {time.time() - t0:.1f}s")
    return code


def pr(r):
    if r.status == 'ok' and r.wall < 5:
        return
    print(f"  [{r.status}] {r.name} goals={r.goals} paths={r.paths} q={r.stats.get('queries')} "
          f"cells={r.stats.get('cells')} solver={r.stats.get('time')}s wall={r.wall:.1f}s val={r.validated} {r.label} {' '.join(str(r.detail).split())[:160]} {str(r.model or '')[:120]}", flush=True)


def write_evidence(args, mod, results, bad, new, seed, tier, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fns = sorted({f for r in results for f in r.functions})
    tot = lambda k: sum(r.stats.get(k, 0) for r in results)
    ev = {
        "property": args.prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip()
            + " Decided by symbolic execution of the jaxpr of the real functions and SMT queries; "
              "arithmetic is exact-real (rounding outside the claim).",
            "obligations": len(results),
            "discharged": sum(r.status == "ok" for r in results),
            "goals": sum(r.goals for r in results),
            "paths_or_cell_groups": sum(r.paths for r in results),
            "cells": tot("cells"),
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "queries_unknown": tot("unknown"),
            "solver_seconds": round(tot("time"), 2),
            "functions_encoded": fns,
            "ir_equations": sum(r.eqns for r in results),
            "translator_validation_points": sum(r.validated for r in results),
            "bounds": getattr(mod, "BOUNDS", ""),
            "samples": [
                {"obligation": r.name, "status": r.status, "goals": r.goals, "paths": r.paths,
                 "queries": r.stats.get("queries"), "wall_s": round(r.wall, 2)} for r in results
            ][:60],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def do_replay(path):
    d = json.load(open(path))
    from jsym import ob as obm

    mod = load(d["property"])
    for o in mod.obligations(d.get("tier", "quick")):
        if o.name == d["obligation"]:
            try:
                res = obm.run_concrete(o, d["inputs"])
            except Exception as e:
                print(f"real code raises {type(e).__name__}: {e}")
                return 1
            print("assumptions fail" if res is None else {k: v for k, v in res.items() if not v[0]})
            return 0 if res is None or all(v[0] for v in res.values()) else 1
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
