"""Vectorised light-curve functions act element by element."""
import jax
import jax.numpy as jnp
import numpy as np

from checks.common import mag
from jaxoplanet.light_curves.emission import light_curve as emission_light_curve
from jaxoplanet.light_curves.limb_dark import light_curve
from jaxoplanet.light_curves.utils import vectorize
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.keplerian import Body, Central, System
from jaxoplanet.starry.light_curves import light_curve as surface_light_curve
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import Cuts, KeplerCut, LimbDarkCut, SolutionCut, OpaqueFns, opaque_p
from jsym.ob import Ob

BOUNDS = ("time arrays of shape (), (1,), (0,), (4,), (2,3), (1,2), (2,1,2) with arbitrary real entries; functions: every function of time and two arguments "
          "(uninterpreted) with scalar, vector, matrix or unit-carrying values, and the limb-darkened, system, emission and surface light curves of the package")
ASSUMPTIONS = ["the wrapped function is uninterpreted: only congruence (equal arguments give equal values) is assumed of it"]

SHAPES = [(), (1,), (0,), (4,), (2, 3), (1, 2), (2, 1, 2)]
CUT = lambda: Cuts(KeplerCut(), LimbDarkCut(), SolutionCut(), OpaqueFns())


def F(t, a, b):
    return opaque_p.bind(jnp.asarray(t, float), jnp.asarray(a, float), jnp.asarray(b, float), order=0)


VAL = {
    "scalar": lambda t, a, b: F(t, a, b)[0],
    "vector": lambda t, a, b: jnp.stack(F(t, a, b)),
    "matrix": lambda t, a, b: jnp.stack([jnp.stack(F(t, a, b)[:2]), jnp.stack(F(t, b, a)[1:])]),
}


def opaque(kind, shape, units):
    f = VAL[kind]

    def fn(t, a, b):
        if units == "plain":
            g = lambda time, a, *, b=2.0: f(time, a, b)
            call = lambda t: vectorize(g)(t, a, b=b)
            one = lambda t: f(t, a, b)
        elif units == "time":
            g = lambda time, a, *, b=2.0: f(time.to(ureg.d).magnitude, a, b)
            call = lambda t: vectorize(g)(t * ureg.h, a, b=b)
            one = lambda t: f(t / 24, a, b)
        elif units == "value":
            g = lambda time, a, *, b=2.0: f(time.to(ureg.d).magnitude, a, b) * ureg.km
            call = lambda t: mag(vectorize(g)(t * ureg.d, a, b=b), ureg.m)
            one = lambda t: f(t, a, b) * 1000
        elif units == "default":
            g = lambda time, a, *, b=2.0: f(time, a, b)
            call = lambda t: vectorize(g)(t, a)
            one = lambda t: f(t, a, 2.0)
        elif units == "jit":
            g = lambda time, a, *, b=2.0: f(time, a, b)
            call = lambda t: jax.jit(vectorize(g))(t, a, b=b)
            one = lambda t: f(t, a, b)
        else:
            # array arguments are passed through unchanged
            g = lambda time, a, *, b=2.0: jnp.stack([f(time, a[0], b), f(time, a[1], b)])
            call = lambda t: vectorize(g)(t, jnp.stack([a, b]), b=b)
            one = lambda t: jnp.stack([f(t, a, b), f(t, b, b)])
        out = call(t)
        ref = one(jnp.asarray(0.0)).shape
        eq = {str(i): (out[i], one(t[i])) for i in np.ndindex(*shape)}
        return dict(eq=eq, true={"shape": jnp.asarray(out.shape == shape + ref)})
    return Ob(f"opaque-{kind}-{units}-{'x'.join(map(str, shape)) or 'scalar'}", fn, {"t": (shape, -5, 5), "a": (-3, 3), "b": (-3, 3)}, stubs=CUT())


VP = {"P": (0.5, 30), "t0": (-5, 5), "k": (0.01, 0.5), "b": (0, 1)}


def system(P, t0, k, b):
    return System(Central(), bodies=[Body(period=P, time_transit=t0, radius=k, impact_param=b), Body(period=2 * P, time_transit=t0, radius=0.2, inclination=1.2)])


def make(name):
    def transit(P, t0, k, b):
        return light_curve(TransitOrbit(period=P, duration=0.1, time_transit=t0, impact_param=b, radius_ratio=k), jnp.array([0.2, 0.3]))

    def multi(P, t0, k, b):
        return light_curve(system(P, t0, k, b), jnp.array([0.2, 0.3]))

    def ssys(P, t0, k, b):
        s = system(P, t0, k, b)
        return SurfaceSystem(Central(), Surface(u=(0.2,), amplitude=k, normalize=False), bodies=[(x, Surface(amplitude=b, normalize=False)) for x in s.bodies])
    return {"transit": transit, "system": multi, "emission": lambda *p: emission_light_curve(ssys(*p)),
            "surfaces": lambda *p: surface_light_curve(ssys(*p))}[name]


def package(name, shape, units):
    build = make(name)

    def fn(t, *p):
        f = build(*p)
        out = f(t * ureg.d) if units else f(t)
        eq = {str(i): (out[i], f(t[i] * ureg.d) if units else f(t[i])) for i in np.ndindex(*shape)}
        n = f(jnp.asarray(0.1)).shape
        return dict(eq=eq, true={"shape": jnp.asarray(out.shape == shape + n)})
    return Ob(f"{name}-{'d' if units else 'plain'}-{'x'.join(map(str, shape)) or 'scalar'}", fn, {"t": (shape, -5, 5), **VP}, stubs=CUT())


def obligations(tier):
    obs = [opaque(k, s, u) for k in VAL for s in SHAPES for u in ("plain", "time", "value", "default", "jit", "array")]
    for n in ("transit", "system", "emission", "surfaces"):
        obs += [package(n, s, u) for s, u in (((3,), False), ((2, 2), True), ((0,), False), ((1, 2), False))]
    return obs
