"""Mapping a function over the bodies of a system equals applying it to each body."""
import jax
import jax.numpy as jnp

from checks.common import mag, mags
from jaxoplanet.object_stack import ObjectStack
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

BOUNDS = "2 or 3 objects with matching (stacked) and non-matching (looped) structure; array arguments of rank <= 3 and every combination of mapped axes listed; all numeric contents arbitrary in [-3,3]; bodies with arbitrary elements"


def objects(kind, v):
    if kind == "same2":
        return [{"a": v[0], "b": v[1:3]}, {"a": v[3], "b": v[4:6]}]
    if kind == "same3":
        return [{"a": v[0], "b": v[1:3]}, {"a": v[3], "b": v[4:6]}, {"a": v[6], "b": v[7:9]}]
    if kind == "mixed2":
        return [{"a": v[0], "b": v[1:3]}, {"a": v[3], "b": v[4:6], "c": v[6]}]
    if kind == "mixed3":
        return [{"a": v[0], "b": v[1:3]}, {"a": v[3], "b": v[4:6], "c": v[6]}, {"a": v[7], "b": v[8:10]}]
    return [{"a": v[0], "b": v[1:3]}]


def func(o, x, y):
    """depends on the object, and asymmetrically on both arguments"""
    s = o["a"] + 2 * o["b"][0] - o["b"][1] + 3 * o.get("c", 0.0)
    return {"p": s * x + y, "q": (x - 2 * y) * o["a"], "m": jnp.stack([x.sum() * s, y.sum() + s, s])}


AXES = [
    # (x shape without the mapped axis, x axis), same for y, out axis
    ((2,), None, (2,), None, 0),
    ((2,), 0, (2,), None, 0),
    ((2,), None, (2,), 1, 0),
    ((2,), 0, (2,), 1, 1),
    ((2,), -1, (2,), 0, 0),
    ((2, 3), 1, (3,), -1, 0),
    ((2, 3), 2, (2, 3), 0, 1),
    ((), 0, (2,), None, -1),
]


def stack_ob(kind, k):
    xs, xa, ys, ya, oa = AXES[k]
    n = {"same2": 2, "mixed2": 2, "same3": 3, "mixed3": 3, "one": 1}[kind]

    def shape(s, a):
        if a is None:
            return s
        s = list(s)
        s.insert(a if a >= 0 else len(s) + 1 + a, n)
        return tuple(s)

    def fn(v, x, y):
        objs = objects(kind, v)
        st = ObjectStack(*objs)
        got = st.vmap(func, in_axes=(xa, ya), out_axes=oa)(x, y)
        parts = []
        for i, o in enumerate(objs):
            xi = x if xa is None else jnp.take(x, i, axis=xa)
            yi = y if ya is None else jnp.take(y, i, axis=ya)
            parts.append(func(o, xi, yi))
        ref = jax.tree_util.tree_map(lambda *p: jnp.stack(p, axis=oa), *parts)
        if any(got[key].shape != ref[key].shape for key in ref):
            raise ValueError("shape")
        eq = {key: (got[key], ref[key]) for key in ref}
        if xa == ya:
            alt = st.vmap(func, in_axes=xa, out_axes=oa)(x, y)
            eq.update({key + " scalar in_axes": (alt[key], ref[key]) for key in ref})
        return dict(eq=eq, true={"length": jnp.asarray(len(st) == n)})
    return Ob(f"stack-{kind}-axes{k}", fn, {"v": ((10,), -3, 3), "x": (shape(xs, xa), -3, 3), "y": (shape(ys, ya), -3, 3)})


def axes_ob(kind, xa, nested):
    """three arguments (one of them structured), every combination of their mapped axes with the first one's"""
    n = {"same2": 2, "mixed2": 2, "mixed3": 3}[kind]

    def f(o, x, y, z):
        y1, y2 = (y["u"], y["v"]) if nested else (y, 0.0)
        s = o["a"] + 2 * o["b"][0] - o["b"][1] + 3 * o.get("c", 0.0)
        return s * x.sum() + 5 * x.reshape(-1)[-1] - 7 * y1.reshape(-1)[0] + y1.sum() * o["a"] + jnp.sum(y2) * s + 11 * jnp.sum(z)

    def take(a, i, ax):
        return a if ax is None else jnp.moveaxis(a, ax, 0)[i]

    def fn(v, x, y, z):
        objs = objects(kind, v)
        st = ObjectStack(*objs)
        eq = {}
        for ya in (None, 0, 1, -1):
            for za in (None, 0, -1):
                w = {"u": y, "v": z} if nested else y
                wa = {"u": ya, "v": None} if nested else ya
                got = st.vmap(f, in_axes=(xa, wa, za))(x, w, z)
                ref = [f(o, take(x, i, xa), {"u": take(y, i, ya), "v": z} if nested else take(y, i, ya), take(z, i, za)) for i, o in enumerate(objs)]
                eq[f"{ya} {za}"] = (got, jnp.stack(ref))
        return dict(eq=eq)
    return Ob(f"axes-{kind}-{xa}{'-nested' if nested else ''}", fn, {"v": ((10,), -3, 3), "x": ((n, n), -3, 3), "y": ((n, n), -3, 3), "z": ((n,), -3, 3)})


def outs_ob(kind):
    """several results, each stacked along its own axis"""
    n = {"same2": 2, "mixed2": 2, "mixed3": 3}[kind]

    def f(o, x):
        return o["a"] * x, {"m": jnp.outer(x, x + o["a"]), "s": o["a"] + x[0]}

    def fn(v, x):
        objs = objects(kind, v)
        st = ObjectStack(*objs)
        ref = [f(o, x) for o in objs]
        eq = {}
        for a in (0, 1, -1):
            for b in (0, 1, 2, -1, -2):
                got = st.vmap(f, in_axes=None, out_axes=(a, {"m": b, "s": 0}))(x)
                want = (jnp.stack([r[0] for r in ref], a), jnp.stack([r[1]["m"] for r in ref], b), jnp.stack([r[1]["s"] for r in ref]))
                g = (got[0], got[1]["m"], got[1]["s"])
                if any(p.shape != q.shape for p, q in zip(g, want)):
                    raise ValueError("shape")
                eq.update({f"{a} {b} {k}": (p, q) for k, (p, q) in enumerate(zip(g, want))})
        return dict(eq=eq)
    return Ob(f"outs-{kind}", fn, {"v": ((10,), -3, 3), "x": ((2,), -3, 3)})


KINDS = {
    "matching": ["ecc", "ecc"],
    "different": ["ecc", "circ"],
    "three": ["ecc", "circ", "ecc"],
    "three-matching": ["circ", "circ", "circ"],
}


def body_kw(kind, q):
    kw = dict(period=q[0] * ureg.d, time_transit=q[1] * ureg.d, mass=q[2] * ureg.M_sun, radius=q[3] * ureg.R_sun,
              inclination=q[4] * ureg.rad)
    if kind == "ecc":
        kw.update(eccentricity=q[5], omega_peri=q[6] * ureg.rad)
    return kw


LO = [1.0, -3.0, 0.0, 0.01, 0.0, 0.0, -3.0]
HI = [20.0, 3.0, 0.5, 0.5, 3.0, 0.9, 3.0]


def system_ob(name, how):
    kinds = KINDS[name]
    n = len(kinds)

    def fn(t, q):
        central = Central(mass=1.1 * ureg.M_sun, radius=0.9 * ureg.R_sun)
        kws = [body_kw(k, q[i]) for i, k in enumerate(kinds)]
        if how == "init":
            sys = System(central, bodies=[Body(**kw) for kw in kws])
        elif how == "add":
            sys = System(central)
            for kw in kws:
                sys = sys.add_body(**kw)
        else:
            sys = System(central, bodies=[OrbitalBody(central, Body(**kws[0]))])
            for kw in kws[1:]:
                sys = sys.add_body(Body(**kw))
        singles = [OrbitalBody(central, Body(**kw)) for kw in kws]
        eq = {"radius": (mag(sys.radius, ureg.R_sun), q[:, 3])}
        if sys.shape != (n,) or len(sys.bodies) != n:
            raise ValueError("shape")
        for m in ("position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity"):
            u = ureg.R_sun if "position" in m else ureg.R_sun / ureg.d
            got = mags(getattr(sys, m)(t * ureg.d), u)
            one = [mags(getattr(b, m)(t * ureg.d), u) for b in singles]
            for k in range(3):
                eq[f"{m} {k}"] = (got[k], jnp.stack([o[k] for o in one]))
        u = ureg.R_sun / ureg.d
        eq["radial velocity"] = (mag(sys.radial_velocity(t * ureg.d), u),
                                 jnp.stack([mag(b.radial_velocity(t * ureg.d), u) for b in singles]))
        got = sys.body_vmap(lambda b, s, w: b.radius * s + b.time_transit.magnitude * w * ureg.R_sun, in_axes=(0, None))(jnp.arange(1.0, n + 1), t)
        eq["body_vmap"] = (mag(got, ureg.R_sun), q[:, 3] * jnp.arange(1.0, n + 1) + q[:, 1] * t)
        return dict(eq=eq)
    return Ob(f"system-{name}-{how}", fn, {"t": (-4, 4), "q": ((n, 7), LO, HI)}, stubs=KeplerCut())


def times_ob(name):
    """array of times"""
    kinds = KINDS[name]
    n = len(kinds)

    def fn(t, q):
        central = Central(mass=1.1 * ureg.M_sun, radius=0.9 * ureg.R_sun)
        kws = [body_kw(k, q[i]) for i, k in enumerate(kinds)]
        sys = System(central, bodies=[Body(**kw) for kw in kws])
        got = mags(sys.relative_position(t * ureg.d), ureg.R_sun)
        eq = {}
        for i, kw in enumerate(kws):
            b = OrbitalBody(central, Body(**kw))
            for j in range(3):
                one = mags(b.relative_position(t[j] * ureg.d), ureg.R_sun)
                for k in range(3):
                    eq[f"{i}{j}{k}"] = (got[k][i, j], one[k])
        return dict(eq=eq)
    return Ob(f"times-{name}", fn, {"t": ((3,), -4, 4), "q": ((n, 7), LO, HI)}, stubs=KeplerCut())


def obligations(tier):
    obs = [stack_ob(k, i) for k in ("same2", "mixed2", "same3", "mixed3", "one") for i in range(len(AXES))]
    obs += [axes_ob(k, a, h) for k in ("same2", "mixed2", "mixed3") for a in (None, 0, 1, -1, -2) for h in (False, True)] + [outs_ob(k) for k in ("same2", "mixed2", "mixed3")]
    obs += [system_ob(k, h) for k in KINDS for h in ("init", "add", "mix")]
    obs += [times_ob(k) for k in KINDS]
    return obs
