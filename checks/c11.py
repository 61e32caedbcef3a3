"""Orbits parameterised by the transit signal: chord geometry, contact times and periodicity."""
import jax.numpy as jnp

from checks.common import mag
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.units import unit_registry as ureg
from jsym.ob import Ob

BOUNDS = ("period in [0.5,1000] d, transit time in [-1e4,1e4] d, duration (or, with the speed given, the implied one) in [0.001,0.9] of the period, "
          "impact parameter in [0,1+k], radius ratio k in [0,2]; times t = t0 + (n+s)P for every integer n with |n| <= 1e4 "
          "(n symbolic) and every phase s in [-0.5,0.5); 1 or 2 planets")

CASES = ["dur", "dur-k", "dur-b", "dur-b-k", "dur-t0-b-k", "speed", "speed-t0-b-k", "speed-b-k"]


def build(case, P, w, t0, b, k, array=False):
    """w: duration / period; returns orbit and the spec (t0, b, k, duration, speed)"""
    c = case.split("-")
    kw = dict(period=P * ureg.d)
    if "dur" in c:
        kw["duration"] = w * P * ureg.d
    else:
        pass
    if "t0" in c:
        kw["time_transit"] = t0 * ureg.d
    else:
        t0 = 0.0 * t0
    if "b" in c:
        kw["impact_param"] = b
    else:
        b = 0.0 * b
    if "k" in c:
        kw["radius_ratio"] = k
    else:
        k = 0.0 * k
    chord = 2 * jnp.sqrt((1 + k) ** 2 - b ** 2)
    if "dur" in c:
        dur = w * P
        speed = chord / dur
    else:
        speed, dur = chord / (w * P), w * P
        kw["speed"] = speed * (1 / ureg.d)
    return TransitOrbit(**kw), (t0, b, k, dur, speed)


VARS = {"P": (0.5, 1000), "w": (0.001, 0.9), "t0": (-1e4, 1e4), "v": (-1e4, 1e4), "s": (-0.5, 0.4999999999), "bk": (0, 0.999999), "k": (0, 2)}


def bmax(case, bk, k):
    c = case.split("-")
    return bk * (1 + (k if "k" in c else 0.0))


def variables(case):
    return dict(VARS)


def tame(g):
    """replay inputs for which rounding stays negligible"""
    u = g.uniform
    return {"P": u(0.5, 20), "w": u(0.05, 0.9), "t0": u(-20, 20), "v": u(-5, 5), "s": u(-0.5, 0.5), "bk": u(0, 1), "k": u(0, 2)}


def at_time(case, phase):
    def fn(P, w, t0, v, s, bk, k):
        b = bmax(case, bk, k)
        orbit, (t0, b, k, dur, speed) = build(case, P, w, t0, b, k)
        n = jnp.floor(v)
        t = t0 + (n + s) * P
        x, y, z = orbit.relative_position(t * ureg.d)
        d = s * P
        inside = jnp.abs(d) < 0.5 * dur
        out = dict(eq={"x": (mag(x), speed * d), "y": (mag(y), b), "z": (mag(z), jnp.where(inside, 1.0, -1.0)),
                       "speed": (mag(orbit.speed, 1 / ureg.d), speed), "duration": (mag(orbit.duration, ureg.d), dur),
                       "radius": (mag(orbit.radius), k), "central radius": (mag(orbit.central_radius), 1.0)})
        return out
    return Ob(f"phase-{case}", fn, variables(case), sampler=tame)


def contact(case):
    """projected separation is 1+k exactly half a duration from mid-transit"""
    def fn(P, w, t0, v, s, bk, k):
        b = bmax(case, bk, k)
        orbit, (t0, b, k, dur, speed) = build(case, P, w, t0, b, k)
        n = jnp.floor(v)
        eq = {}
        assume = [dur <= 0.98 * P]
        for sg in (-1, 1):
            x, y, z = orbit.relative_position((t0 + n * P + sg * 0.5 * dur) * ureg.d)
            eq[f"contact{sg:+d}"] = (mag(x) ** 2 + mag(y) ** 2, (1 + k) ** 2)
            eq[f"side{sg:+d}"] = (mag(x), sg * 0.5 * dur * speed)
        return dict(assume=assume, eq=eq)
    return Ob(f"contact-{case}", fn, variables(case), sampler=tame)


def same(case):
    """duration and the equivalent speed give the same orbit"""
    def fn(P, w, t0, v, s, bk, k):
        b = bmax(case, bk, k)
        o1, (t0_, b_, k_, dur, speed) = build("dur-t0-b-k", P, w, t0, b, k)
        o2 = TransitOrbit(period=P, speed=speed * (1 / ureg.d), time_transit=t0, impact_param=b, radius_ratio=k)
        n = jnp.floor(v)
        t = (t0 + (n + s) * P) * ureg.d
        a, c = o1.relative_position(t), o2.relative_position(t, parallax=0.1)
        return dict(eq={"x": (mag(a[0]), mag(c[0])), "y": (mag(a[1]), mag(c[1])),
                        "duration": (mag(o2.duration, ureg.d), dur)})
    return Ob("duration=speed", fn, variables("dur"), sampler=tame)


def beyond():
    """an impact parameter beyond contact: never in transit / zero duration"""
    def fn(P, w, t0, v, s, bk, k):
        b = (1 + k) * (1 + bk)
        o = TransitOrbit(period=P, speed=w, time_transit=t0, impact_param=b, radius_ratio=k)
        t = t0 + (jnp.floor(v) + s) * P
        x, y, z = o.relative_position(t * ureg.d)
        o2 = TransitOrbit(period=P, duration=w * P, time_transit=t0, impact_param=b, radius_ratio=k)
        x2, _, _ = o2.relative_position(t * ureg.d)
        return dict(eq={"dur": (mag(o.duration, ureg.d), 0.0), "z": (mag(z), -1.0), "x": (mag(x), w * s * P), "x2": (mag(x2), 0.0)})
    return Ob("beyond-contact", fn, variables("dur"), sampler=tame)


def planets():
    def fn(P, w, t0, v, s, b, k):
        o = TransitOrbit(period=P * ureg.d, duration=w * P * ureg.d, time_transit=t0 * ureg.d, impact_param=b, radius_ratio=k)
        # time at phase s of the first planet
        t = t0[0] + (jnp.floor(v) + s) * P[0]
        x, y, z = o.relative_position(t * ureg.d)
        eq = {}
        for i in range(2):
            oi = TransitOrbit(period=P[i] * ureg.d, duration=w[i] * P[i] * ureg.d, time_transit=t0[i] * ureg.d, impact_param=b[i], radius_ratio=k[i])
            xi, yi, zi = oi.relative_position(t * ureg.d)
            eq[f"x{i}"], eq[f"y{i}"], eq[f"z{i}"] = (mag(x)[i], mag(xi)), (mag(y)[i], mag(yi)), (mag(z)[i], mag(zi))
        if o.shape != (2,):
            raise ValueError("shape")
        return dict(eq=eq)
    V = {n: ((2,), *VARS[m]) for n, m in (("P", "P"), ("w", "w"), ("t0", "t0"))}
    return Ob("two-planets", fn, {**V, "v": (-1e4, 1e4), "s": (-0.5, 0.4999999999), "b": ((2,), 0, 0.9), "k": ((2,), 0, 2)})


def obligations(tier):
    return [at_time(c, 0) for c in CASES] + [contact(c) for c in CASES] + [same("dur-k"), beyond(), planets()]
