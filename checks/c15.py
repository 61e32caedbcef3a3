"""Exposure-time integration is the documented quadrature."""
import jax.numpy as jnp

from checks.common import mag
from jaxoplanet.light_curves.transforms import integrate
from jaxoplanet.units import unit_registry as ureg
from jsym.ob import Ob

BOUNDS = ("orders 0, 1, 2; sample counts 1..9 (thorough ..15); time in [-100,100] d, exposure in [1e-4,2] d; the integrand is a "
          "polynomial of degree <= 4 with arbitrary coefficients, or an arbitrary function of the sampled times")


def odd(n):
    return n + 1 - n % 2


def rule(order, n):
    """nodes in units of the exposure, relative weights"""
    n = odd(n)
    if order == 0:
        return [(k + 0.5) / n - 0.5 for k in range(n)], [1.0] * n
    n = max(n, 3)
    x = [k / (n - 1) - 0.5 for k in range(n)]
    if order == 1:
        w = [1.0] + [2.0] * (n - 2) + [1.0]
    else:
        w = [1.0] + [4.0 if k % 2 else 2.0 for k in range(1, n - 1)] + [1.0]
    return x, w


def poly(c, s):
    r = 0.0
    for k in range(c.shape[0] - 1, -1, -1):
        r = r * s + c[k]
    return r


def exact_mean(c, t, e, t0):
    """mean of poly(c, time - t0) over [t-e/2, t+e/2]"""
    u = t - t0
    a, b = u - 0.5 * e, u + 0.5 * e
    r = 0.0
    for k in range(c.shape[0]):
        # (b^{k+1} - a^{k+1}) / (k+1) / e, written out
        s = 0.0
        for j in range(k + 1):
            s = s + a ** j * b ** (k - j)
        r = r + c[k] * s / (k + 1)
    return r


def quad(order, n):
    """weights and nodes, read off from a function that is a polynomial around t"""
    def fn(t, e, c, d):
        g = integrate(lambda time: poly(c, mag(time, ureg.d) - t), exposure_time=e * ureg.d, order=order, num_samples=n)
        x, w = rule(order, n)
        ref = sum(wi * poly(c, xi * e) for xi, wi in zip(x, w)) / sum(w)
        # exactness for low degrees
        deg = {0: 1, 1: 1, 2: 3}[order]
        h = integrate(lambda time: poly(c[: deg + 1], mag(time, ureg.d) - d), exposure_time=e * ureg.d, order=order, num_samples=n)
        return dict(eq={"rule": (g(t * ureg.d), ref), "exact": (h(t * ureg.d), exact_mean(c[: deg + 1], t, e, d)),
                        "plain number": (h(t), h(t * ureg.d))})
    return Ob(f"rule-o{order}-n{n}", fn, {"t": (-100, 100), "e": (1e-4, 2), "c": ((5,), -3, 3), "d": (-100, 100)},
              sampler=lambda g: {"t": g.uniform(-3, 3), "e": g.uniform(0.01, 2), "d": g.uniform(-3, 3), **{f"c_{i}": g.uniform(-3, 3) for i in range(5)}})


def nodes(order, n):
    """sampled times exactly: an arbitrary integrand (sin) at the documented nodes"""
    def fn(t, e, a):
        g = integrate(lambda time: jnp.sin(a * mag(time, ureg.d)), exposure_time=e * ureg.d, order=order, num_samples=n)
        x, w = rule(order, n)
        ref = sum(wi * jnp.sin(a * (t + xi * e)) for xi, wi in zip(x, w)) / sum(w)
        return dict(eq={"nodes": (g(t * ureg.d), ref)})
    return Ob(f"nodes-o{order}-n{n}", fn, {"t": (-5, 5), "e": (1e-4, 2), "a": (-3, 3)})


def plumbing(order):
    """argument passing, units, array times and array outputs"""
    def fn(t, e, p, q):
        def lc(time, a, b=0.0, *, k=1.0):
            assert time.units == ureg.d
            s = mag(time, ureg.d)
            return jnp.stack([a * s + b[0], k * s * s - b[1]])
        g = integrate(lc, exposure_time=e * 1440 * ureg.minute, order=order, num_samples=3)
        x, w = rule(order, 3)
        out = g(t * ureg.d, p, q, k=p + q[0])
        kw = g(t * ureg.d, p, b=q, k=p + q[0])
        one = g(t[1] * ureg.d, p, q, k=p + q[0])
        hours = g(t[0] * 24 * ureg.hour, p, q, k=p + q[0])
        eq = {}
        for j in range(2):
            s = [t[j] + xi * e for xi in x]
            W = sum(w)
            eq[f"lin{j}"] = (out[j, 0], sum(wi * (p * si + q[0]) for wi, si in zip(w, s)) / W)
            eq[f"quad{j}"] = (out[j, 1], sum(wi * ((p + q[0]) * si * si - q[1]) for wi, si in zip(w, s)) / W)
        eq["keywords"] = (kw, out)
        eq["scalar"] = (one, out[1])
        eq["hours"] = (hours, out[0])
        same = integrate(lc)
        eq["no exposure time"] = (same(t[0] * ureg.d, p, q), lc(t[0] * ureg.d, p, q))
        # a light curve with units keeps them
        u = integrate(lambda time: (time * p).to(ureg.hour), exposure_time=e, order=order, num_samples=3)
        eq["units"] = (mag(u(t[0] * ureg.d), ureg.hour), 24 * p * t[0])
        # values of rank two
        m = integrate(lambda time: mag(time, ureg.d) * jnp.stack([jnp.stack([p, q[0], q[1]]), jnp.stack([q[1], p, p])]),
                      exposure_time=e, order=order, num_samples=3)
        eq["matrix"] = (m(t[0] * ureg.d), t[0] * jnp.stack([jnp.stack([p, q[0], q[1]]), jnp.stack([q[1], p, p])]))
        return dict(eq=eq)
    return Ob(f"plumbing-o{order}", fn, {"t": ((2,), -5, 5), "e": (1e-3, 2), "p": (-3, 3), "q": ((2,), -3, 3)})


def obligations(tier):
    ns = (1, 2, 3, 4, 5, 7, 9) if tier == "quick" else tuple(range(1, 16))
    obs = [quad(o, n) for o in (0, 1, 2) for n in ns]
    obs += [nodes(o, n) for o in (0, 1, 2) for n in ns]
    return obs + [plumbing(o) for o in (0, 1, 2)]
