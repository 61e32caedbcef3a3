"""Obligations: traceable functions that call the real code and state a property.

An obligation function takes JAX arrays and returns a dict with any of
   assume : list of boolean arrays
   eq     : {label: (lhs, rhs)}       equality on every path (tolerance `tol`)
   le     : {label: (lhs, rhs)}
   true   : {label: boolean array}
   defined: {label: array}            no NaN / division by zero on any path
The same function is traced (symbolic execution of the resulting IR) and run on
concrete numbers (replay of counterexamples).
"""

import math
import os
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np

from . import interp, smt, terms as tm


class Ob:
    def __init__(self, name, fn, vars, method="alg", tol=1e-9, rtol=1e-7, tier="quick",
                 timeout=20000, max_paths=4000, unroll=64, note="", stubs=None, sampler=None,
                 cells=None, cond_timeout=3000, split=None, tmopts=None, quick_s=None, concolic=None, eager=False, roots=False, free_angles=False):
        self.free_angles = free_angles
        self.name, self.fn = name, fn
        self.roots = roots
        self.vars = {k: (v if len(v) == 3 else ((),) + tuple(v)) for k, v in vars.items()}
        self.method, self.tol, self.rtol = method, tol, rtol
        self.tier, self.timeout, self.max_paths = tier, timeout, max_paths
        self.unroll, self.note, self.stubs, self.sampler = unroll, note, stubs, sampler
        self.cells, self.cond_timeout = cells, cond_timeout
        self.tmopts = tmopts or {}
        self.concolic = concolic  # bounds of integers forced to be concrete while executing
        self.eager = eager or concolic is not None

    def spec(self):
        return [(k, tuple(v[0])) for k, v in self.vars.items()]

    def bounds(self):
        b = {}
        for k, (shape, lo, hi) in self.vars.items():
            if shape == ():
                b[k] = (float(lo), float(hi))
            else:
                los, his = np.broadcast_to(lo, shape), np.broadcast_to(hi, shape)
                for ix in np.ndindex(*shape):
                    b[k + "_" + "_".join(map(str, ix))] = (float(los[ix]), float(his[ix]))
        return b

    def concrete(self, env):
        args = []
        for k, (shape, _, _) in self.vars.items():
            if shape == ():
                args.append(jnp.asarray(env[k], dtype=float))
            else:
                a = np.zeros(shape)
                for ix in np.ndindex(*shape):
                    a[ix] = env[k + "_" + "_".join(map(str, ix))]
                args.append(jnp.asarray(a))
        return args


def norm_out(out):
    r = {"assume": [], "eq": {}, "le": {}, "true": {}, "defined": {}}
    for k, v in out.items():
        r[k] = list(v) if k == "assume" else dict(v)
    for k in ("eq", "le"):
        for lab, pair in list(r[k].items()):
            shapes = [np.shape(x) for x in pair]
            try:
                np.broadcast_shapes(*shapes)
            except ValueError:  # an array of the wrong shape is never the right value
                del r[k][lab]
                r["true"][f"{lab}: shapes {shapes[0]} {shapes[1]}"] = np.asarray(False)
    return r


def compiled(ob):
    """the obligation over the real code, compiled once (outside any cut)"""
    c = getattr(ob, "_compiled", None)
    if c is None and ob.eager:
        c = ob._compiled = ob.fn
    if c is None:
        args = [jax.ShapeDtypeStruct(s, jnp.float64) for _, s in ob.spec()]
        c = ob._compiled = jax.jit(lambda *a: ob.fn(*a)).lower(*args).compile()
    return c


class outside:
    """run a block with the cuts of an obligation switched off"""

    def __init__(self, ob):
        self.s = ob.stubs

    def __enter__(self):
        if self.s:
            self.s.__exit__(None, None, None)

    def __exit__(self, *a):
        if self.s:
            self.s.__enter__()


def run_fast(ob, env):
    if getattr(ob, "_compiled", None) is None:
        with outside(ob):
            compiled(ob)
    return run_concrete(ob, env, ob._compiled)


def run_concrete(ob, env, f=None):
    """returns None when an assumption fails, else {label: (ok, text)}"""
    out = norm_out({k: v for k, v in (f or ob.fn)(*ob.concrete(env)).items() if k != "abstract"})
    for a in out["assume"]:
        if not bool(np.all(np.asarray(a))):
            return None
    res = {}
    for lab, (l, r) in out["eq"].items():
        l, r = np.asarray(l), np.asarray(r)
        l, r = np.broadcast_arrays(l, r)
        if l.dtype == bool or r.dtype == bool:
            ok = bool(np.all(l == r))
        else:
            scale = np.maximum(1.0, np.maximum(np.abs(l), np.abs(r)))
            d = np.abs(l - r)
            ok = bool(np.all(d <= 3 * ob.tol + ob.rtol * scale)) if l.size else True
        res[lab] = (ok, f"{_s(l)} != {_s(r)}")
    for lab, (l, r) in out["le"].items():
        l, r = np.broadcast_arrays(np.asarray(l), np.asarray(r))
        scale = np.maximum(1.0, np.maximum(np.abs(l), np.abs(r)))
        ok = bool(np.all(l <= r + ob.rtol * scale)) if l.size else True
        res[lab] = (ok, f"{_s(l)} > {_s(r)}")
    for lab, v in out["true"].items():
        res[lab] = (bool(np.all(np.asarray(v))), "false")
    for lab, v in out["defined"].items():
        v = np.asarray(v)
        res[lab] = (bool(np.all(np.isfinite(v))), f"non-finite {_s(v)}")
    return res


def _s(x):
    return np.array2string(np.asarray(x), precision=12, threshold=12)


class ObResult:
    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.detail = ""
        self.model = None
        self.label = ""
        self.stats = {}
        self.functions = []
        self.wall = 0.0
        self.paths = 0
        self.goals = 0
        self.validated = 0
        self.vacuous = False
        self.eqns = 0


def flat_goals(out, tol):
    goals = []
    for lab, (l, r) in out["eq"].items():
        l, r = np.broadcast_arrays(interp.to_obj(l), interp.to_obj(r))
        for ix in np.ndindex(*l.shape):
            a, b = l[ix], r[ix]
            if isinstance(a, interp.C) or isinstance(b, interp.C):
                a, b = interp.c_(a), interp.c_(b)
                goals.append(smt.Goal(lab, "eq", a.re, b.re, tol))
                goals.append(smt.Goal(lab, "eq", a.im, b.im, tol))
            elif a.isbool:
                goals.append(smt.Goal(lab, "true", tm.eq(a, b)))
            else:
                goals.append(smt.Goal(lab, "eq", a, b, tol))
    for lab, (l, r) in out["le"].items():
        l, r = np.broadcast_arrays(interp.to_obj(l), interp.to_obj(r))
        for ix in np.ndindex(*l.shape):
            goals.append(smt.Goal(lab, "le", l[ix], r[ix]))
    for lab, v in out["true"].items():
        v = interp.to_obj(v)
        for ix in np.ndindex(*v.shape):
            goals.append(smt.Goal(lab, "true", v[ix]))
    for lab, v in out["defined"].items():
        v = interp.to_obj(v)
        for ix in np.ndindex(*v.shape):
            goals.append(smt.Goal(lab, "defined", v[ix]))
    return goals


def sample_env(ob, rng):
    if ob.sampler is not None:
        return ob.sampler(rng)
    env = {}
    for k, (lo, hi) in ob.bounds().items():
        lo = max(lo, -10.0) if not math.isfinite(lo) else lo
        hi = min(hi, 10.0) if not math.isfinite(hi) else hi
        env[k] = lo + (hi - lo) * rng.random()
    return env


def solve_ob(ob, seed=1):
    """decide one obligation"""
    import random

    r = ObResult(ob.name)
    t0 = time.time()
    smt.STATS.__init__()
    rng = random.Random(seed * 7919 + hash_name(ob.name))
    if ob.stubs:
        ob.stubs.__enter__()
    tm.ROOTS = ob.roots
    try:
        if ob.concolic:
            from . import concolic

            concolic.solve(ob, r, rng, seed, _solve)
        else:
            _solve(ob, r, rng, seed)
    except Exception as e:  # machinery failure or the real code raised
        r.status = "error"
        r.detail = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    finally:
        if ob.stubs:
            ob.stubs.__exit__(None, None, None)
    r.stats = smt.STATS.dict()
    r.wall = time.time() - t0
    return r


def hash_name(s):
    import zlib

    return zlib.crc32(s.encode()) % 100003


def _solve(ob, r, rng, seed):
    try:
        fnb = getattr(ob.stubs, "fnb", None)
        pb = smt.Problem(ob.bounds(), [], [], fnb=fnb)
        pb.iv = smt.Ival(ob.bounds(), fnb=fnb)
        from . import cuts

        cuts.SIGN = {"f": pb._sign, "p": pb.poly_bound}
        out, it = interp.trace(ob.fn, ob.spec(), ob.unroll)
    except Exception as e:
        # does the real code raise on concrete valid inputs too?
        err = real_raises(ob, rng)
        if err is not None:
            r.status, r.label, r.model, r.detail = "violated", "raises", err[0], err[1]
            return
        raise
    abstract = out.pop("abstract", [])
    ob_angles, ob_angles_of = [], []
    out = norm_out(out)
    r.functions = sorted(it.functions)
    r.eqns = it.neqns
    assumptions = []
    for a in out["assume"]:
        for t in interp.to_obj(a).reshape(-1):
            assumptions.append(t)
    goals = flat_goals(out, ob.tol)
    for kind, t in it.side:
        goals.append(smt.Goal("unwind", "true", t))
    r.goals = len(goals)
    # translator validation + vacuity: a concrete point satisfying the assumptions,
    # executed by the real code and by the term evaluator
    validate(ob, out, assumptions, rng, r)

    # pairs (sine, cosine) of an angle, whose way of being computed is not needed: any angle
    # (that they lie on the unit circle is a goal of its own)
    for s_, c_ in abstract:
        mapping = {}
        for k, (x, y) in enumerate(zip(interp.to_obj(s_).reshape(-1), interp.to_obj(c_).reshape(-1))):
            a = tm.var(f"!angle{len(ob_angles)}")
            ob_angles.append(a)
            for t, v in ((x, tm.sin(a)), (y, tm.cos(a))):
                mapping[t.id] = v
                if t.op == "mul" and tm.is_const(t.args[0]):  # constant factors are merged with others
                    mapping[t.args[1].id] = tm.div(v, t.args[0])
        for g in goals:
            generalise(g, mapping)
    if ob.free_angles:  # whatever the outermost angles are
        mapping = {}
        stack, seen = [t for g in goals for t in (g.lhs, g.rhs) if t is not None], set()
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ("sin", "cos"):
                a = t.args[0]
                if a.id not in {k for k, _ in ob_angles_of}:
                    ob_angles_of.append((a.id, tm.var(f"!angle{len(ob_angles)}")))
                    ob_angles.append(ob_angles_of[-1][1])
                v = dict(ob_angles_of)[a.id]
                mapping[t.id] = tm.sin(v) if t.op == "sin" else tm.cos(v)
            else:
                stack.extend(t.args)
        for g in goals:
            generalise(g, mapping)

    def replay(env, label):
        def bad(res):
            if res is None:
                return None
            for lab, (ok, text) in res.items():
                if not ok:
                    return f"{lab}: {text}"
            return None

        try:
            v = bad(run_fast(ob, env))
        except Exception as e:
            v = f"raises {type(e).__name__}: {e}"
        if v is None:
            return None
        # candidate counterexample: confirm by calling the real code eagerly
        try:
            with outside(ob):
                return bad(run_concrete(ob, env))
        except Exception as e:
            return f"raises {type(e).__name__}: {e}"

    if ob.method == "alg":
        p = smt.Problem({**ob.bounds(), **{a.val: (-math.pi, math.pi) for a in ob_angles}}, assumptions, goals, tol=ob.tol, seed=seed, timeout=ob.timeout,
                        replay=replay, fnb=fnb, max_paths=ob.max_paths, cond_timeout=ob.cond_timeout,
                        sampler=(lambda g: sample_env(ob, g)) if ob.sampler else None,
                        contracts=CONTRACTS.get("atoms"), fns=getattr(ob.stubs, "fns", None))
        p.run()
        r.paths = p.paths
        if p.violation is not None:
            fill_violation(r, p.violation)
            return
        if p.paths > ob.max_paths:
            r.status, r.detail = "error", f"path budget exceeded ({p.paths})"
            return
        if p.unknown:
            # undecided: hand the inputs to the real code once more, then report honestly
            u = p.unknown[0]
            r.status = "unknown"
            r.detail = f"{len(p.unknown)} undecided, e.g. {u.label}: {u.info}"
            return
        dead = [g.label for g in goals if not p.leaf_reached.get(g.label)]
        if dead and r.validated == 0:
            r.status, r.detail, r.vacuous = "error", f"vacuous goals: {dead[:3]}", True
            return
    elif ob.method == "tm":
        from . import taylor

        taylor.decide(ob, assumptions, goals, replay, r, rng)
    else:
        raise ValueError(ob.method)


CONTRACTS = {}


def generalise(g, mapping):
    pair = [g.lhs] + ([g.rhs] if g.rhs is not None else [])
    new = tm.substitute(pair, mapping)
    g.lhs = new[0]
    if g.rhs is not None:
        g.rhs = new[1]


def fill_violation(r, v):
    r.status, r.label = "violated", v.label
    r.model = {k: x for k, x in v.model.items() if not k.startswith("_")}
    r.detail = v.model.get("_observed", "")


def real_raises(ob, rng):
    for _ in range(5):
        env = sample_env(ob, rng)
        try:
            with outside(ob):
                run_concrete(ob, env)
        except Exception as e:
            if isinstance(e, interp.Unsupported):
                return None
            return env, f"real code raises {type(e).__name__}: {e}"
    return None


def validate(ob, out, assumptions, rng, r, n=3, tries=400):
    """run the real code and the symbolic encoding on the same concrete inputs"""
    done = 0
    fns = getattr(ob.stubs, "fns", None)
    flat = []
    for lab, (l, rr) in out["eq"].items():
        flat += [(lab, x) for x in interp.to_obj(l).reshape(-1)]
    for lab, (l, rr) in out["le"].items():
        flat += [(lab, x) for x in interp.to_obj(l).reshape(-1)]
    for lab, l in out["true"].items():
        flat += [(lab, x) for x in interp.to_obj(l).reshape(-1)]
    roots = []
    for lab, x in flat:
        roots += [x.re, x.im] if isinstance(x, interp.C) else [x]
    for _ in range(tries):
        if done >= n:
            break
        env = sample_env(ob, rng)
        if assumptions:
            av = tm.evaluate(assumptions, env, fns)
            if not all(av):
                continue
        vals = tm.evaluate(roots, env, fns)
        if getattr(ob, "_compiled", None) is None:
            with outside(ob):
                compiled(ob)
        conc = norm_out({k: v for k, v in ob._compiled(*ob.concrete(env)).items() if k != "abstract"})
        cv, rv = [], []
        for lab in out["eq"]:
            l = np.asarray(conc["eq"][lab][0])
            for x in l.reshape(-1):
                cv += [x.real, x.imag] if np.iscomplexobj(l) else [x]
            l = np.asarray(conc["eq"][lab][1])
            for x in l.reshape(-1):
                rv += [x.real, x.imag] if np.iscomplexobj(l) else [x]
        for lab in out["le"]:
            cv += list(np.asarray(conc["le"][lab][0]).reshape(-1))
        for lab in out["true"]:
            cv += list(np.asarray(conc["true"][lab]).reshape(-1))
        for a, b, (lab) in zip(vals, cv, range(len(cv))):
            a, b = float(a), float(b)
            if math.isnan(a) and math.isnan(b):
                continue
            if not abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)):
                raise RuntimeError(f"translator validation failed at {env}: encoding {a} vs real {b}")
        done += 1
    r.validated = done
    if done == 0:
        # no random point satisfies the assumptions; the solver must show they are satisfiable
        r.validated = 0
