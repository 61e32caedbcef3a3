"""Forking symbolic execution of Python code that forces traced values to be concrete.

While a function is traced, `int(x)`, `bool(x)`, `x.__index__()`, `math.floor(x)`, and boolean-mask
indexing on a traced value are decisions: each possible outcome is one path, with the outcome as a path
condition.  Prefixes of decisions are pruned when the solver shows their conditions unsatisfiable.
"""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from . import interp, smt, terms as tm


class Decisions:
    def __init__(self, script, rng):
        self.script, self.lo_hi = script, rng
        self.taken = []       # (candidates, index)
        self.conds = []       # traced booleans, one per decision

    def choose(self, cands, cond):
        k = len(self.taken)
        i = self.script[k] if k < len(self.script) else 0
        v = cands[i]
        self.taken.append((len(cands), i))
        self.conds.append(cond(v))
        return v

    def integer(self, x, how="trunc"):
        if not isinstance(x, jax.core.Tracer):
            return None
        lo, hi = self.lo_hi
        f = {"trunc": jnp.trunc, "floor": jnp.floor, "ceil": jnp.ceil}[how]
        y = x if jnp.issubdtype(x.dtype, jnp.integer) else f(x)
        return self.choose(list(range(lo, hi + 1)), lambda v: y == v)

    def boolean(self, x):
        return self.choose([True, False], lambda v: x if v else ~x)


@contextlib.contextmanager
def patched(d):
    T = jax.core.Tracer
    import jax._src.core as core

    def conc(x):
        return core.is_concrete(x)

    def wrap(name, f):
        old = T.__dict__.get(name)

        def g(self):
            if conc(self):
                v = self.to_concrete_value()
                return getattr(np.asarray(v).item(), name)() if old is None else old(self)
            return f(self)
        return old, g

    def getitem(self, idx):
        ids = idx if isinstance(idx, tuple) else (idx,)
        sym = lambda i: isinstance(i, T) and i.dtype == bool and i.ndim == 1 and not conc(i)
        if any(sym(i) for i in ids):
            new = [np.nonzero(np.array([d.boolean(i[k]) for k in range(i.shape[0])], dtype=bool))[0] if sym(i) else i
                   for i in ids]
            idx = tuple(new) if isinstance(idx, tuple) else new[0]
        return oldget(self, idx)

    new = {
        "__int__": lambda x: d.integer(x), "__index__": lambda x: d.integer(x), "__trunc__": lambda x: d.integer(x),
        "__floor__": lambda x: d.integer(x, "floor"), "__ceil__": lambda x: d.integer(x, "ceil"),
        "__bool__": lambda x: d.boolean(x),
    }
    old = {}
    for n, f in new.items():
        old[n], g = wrap(n, f)
        setattr(T, n, g)
    oldget = T.__dict__["__getitem__"]
    T.__getitem__ = getitem
    # jnp.arange of an empty range raises while tracing, unlike in eager execution
    arange = jnp.arange

    def arange2(*a, **k):
        if a and all(isinstance(x, int) for x in a) and not k:
            return jnp.asarray(np.arange(*a))
        return arange(*a, **k)

    jnp.arange = arange2
    try:
        yield
    finally:
        jnp.arange = arange
        T.__getitem__ = oldget
        for n, v in old.items():
            if v is None:
                delattr(T, n)
            else:
                setattr(T, n, v)


def solve(ob, r, rng, seed, solve1):
    real = ob.fn
    work = [[]]
    total = {"goals": 0, "paths": 0, "validated": 0, "feasible": 0}
    while work:
        script = work.pop()
        holder = {}

        def fn(*args):
            if not any(isinstance(a, jax.core.Tracer) for a in args):
                return real(*args)
            d = holder["d"] = Decisions(script, ob.concolic)
            with patched(d):
                out = dict(real(*args))
            out["assume"] = list(out.get("assume", [])) + d.conds
            return out

        ob.fn = fn
        ob._compiled = None
        try:
            holder.pop("d", None)
            try:
                out, it = interp.trace(ob.fn, ob.spec(), ob.unroll)
            except Exception:
                # a later decision may have taken an impossible value
                d = holder.get("d")
                n = len(script)
                if d is None or n >= len(d.taken):
                    if d is not None and not prefix_feasible(ob, real, script):
                        continue
                    raise
                for i in reversed(range(d.taken[n][0])):
                    work.append(script + [i])
                continue
            d = holder["d"]
            ass = [t for a in out["assume"] for t in interp.to_obj(a).reshape(-1)]
            own, conds = ass[: len(ass) - len(d.conds)], ass[len(ass) - len(d.conds):]
            # alternatives of the decisions beyond the script
            if not feasible(ob, own + conds[: len(script)]):
                continue
            n = len(script)
            if n < len(d.taken):
                # expand the first undetermined decision
                for i in reversed(range(d.taken[n][0])):
                    work.append(script + [i])
                continue
            ob._compiled = None
            r.validated, r.status = 0, "ok"
            solve1(ob, r, rng, seed)
            total["goals"] += r.goals
            total["paths"] += r.paths
            total["validated"] += r.validated
            total["feasible"] += 1
            if r.status == "error" and r.vacuous:
                r.status, r.detail, r.vacuous = "ok", "", False
            if r.status != "ok":
                r.detail = f"path {script}: {r.detail}"
                break
        finally:
            ob.fn = real
    r.goals, r.paths, r.validated = total["goals"], total["paths"], total["validated"]
    if r.status == "ok" and not total["feasible"]:
        r.status, r.detail = "error", "no feasible path"


def prefix_feasible(ob, real, script):
    """are the conditions of this script satisfiable, when the code raises after taking it?"""
    d = Decisions(script, ob.concolic)

    def fn(*args):
        with patched(d):
            try:
                out = real(*args)
                own = list(out.get("assume", []))
            except Exception:
                own = []
        return {"assume": own + d.conds[: len(script)]}

    out, it = interp.trace(fn, ob.spec(), ob.unroll)
    return feasible(ob, [t for a in out["assume"] for t in interp.to_obj(a).reshape(-1)])


def feasible(ob, ass):
    p = smt.Problem(ob.bounds(), ass, [smt.Goal("reach", "true", tm.FALSE)], cond_timeout=ob.cond_timeout, timeout=1000)
    p.leafonly = True
    p.run()
    return bool(p.leaf_reached.get("reach")) or p.paths > p.max_paths
