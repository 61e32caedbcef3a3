"""Interpolated light curves: the periodic linear interpolant of the pre-computed values."""
import jax.numpy as jnp

from checks.common import mag
from jaxoplanet.light_curves.transforms import interpolate
from jaxoplanet.units import unit_registry as ureg
from jsym.ob import Ob

BOUNDS = ("grids of 2..4 (thorough 5) points with arbitrary flux values; period in [0.5,50] d, reference time m P + f P with |m| <= 1000 "
          "and symbolic, f in [0,1); window of the full period or of a fraction in [0.05,0.95] of it; times in every period |n| <= 1000 (n symbolic) "
          "and at every phase")

V = {"P": (0.5, 50), "w": (0.05, 0.95), "f": (0, 0.9999999), "m": (-1000, 1000), "v": (-1000, 1000), "th": (0, 1)}


def tame(N):
    def g(r):
        u = r.uniform
        return {"P": u(0.5, 5), "w": u(0.1, 0.9), "f": u(0, 0.99), "m": u(-3, 3), "v": u(-3, 3), "th": u(0.01, 0.99),
                **{f"F_{i}": u(-2, 2) for i in range(N)}}
    return g


def inside(N, k, full, units=False):
    """phases in segment k of the grid"""
    def fn(P, w, f, m, v, th, F):
        if full:
            w = 1.0 + 0 * w
            F = jnp.concatenate([F[:-1], F[:1]])
        t0 = (jnp.floor(m) + f) * P
        func = (lambda time: F * ureg.ppt) if units else (lambda time: F)
        kw = {} if full else {"duration": w * P * ureg.d}
        g = interpolate(func, period=P * ureg.d, time_transit=t0 * ureg.d, num_samples=N, **kw)
        s = w * ((k + th) / (N - 1) - 0.5)
        out = g((t0 + (jnp.floor(v) + s) * P) * ureg.d)
        if units:
            out = mag(out, ureg.ppt)
        return dict(eq={"linear": (out, F[k] * (1 - th) + F[k + 1] * th)})
    return Ob(f"inside-N{N}-seg{k}{'-full' if full else ''}{'-units' if units else ''}", fn, {**V, "F": ((N,), -2, 2)}, sampler=tame(N))


def outside(N):
    """phases outside the window: between the values at its ends"""
    def fn(P, w, f, m, v, th, F, d):
        F = jnp.concatenate([F[-1:] + d, F[1:]])
        t0 = (jnp.floor(m) + f) * P
        g = interpolate(lambda time: F, period=P * ureg.d, time_transit=t0 * ureg.d, num_samples=N, duration=w * P * ureg.d)
        s = 0.5 * w + th * (1 - w)
        out = g((t0 + (jnp.floor(v) + s) * P) * ureg.d)
        return dict(le={"between": (0, d * (out - F[-1]) + 1e-9), "and": (0, d * (F[0] - out) + 1e-9)})
    return Ob(f"outside-N{N}", fn, {**V, "F": ((N,), -2, 2), "d": (-4, 4)}, sampler=lambda r: {**tame(N)(r), "d": r.uniform(-4, 4)})


def grid(N, full):
    """the light curve is evaluated on the documented grid, with the given arguments"""
    def fn(P, w, t0, a, b):
        seen = []

        def func(time, p, *, q):
            seen.append(time)
            return p * mag(time, ureg.d) + q
        kw = {} if full else {"duration": w * P * 24 * ureg.hour}
        interpolate(func, period=P * ureg.d, time_transit=t0 * ureg.d, num_samples=N, args=(a,), kwargs={"q": b}, **kw)
        t = mag(seen[0], ureg.d)
        W = P if full else w * P
        return dict(eq={f"grid{k}": (t[k], t0 + W * (k / (N - 1) - 0.5)) for k in range(N)})
    return Ob(f"grid-N{N}{'-full' if full else ''}", fn, {"P": (0.5, 50), "w": (0.05, 0.95), "t0": (-100, 100), "a": (-2, 2), "b": (-2, 2)})


def original(N, k):
    """equals the original light curve at the grid times and their repetitions"""
    def fn(P, w, f, m, v, c):
        t0 = (jnp.floor(m) + f) * P
        lc = lambda time: c[0] + c[1] * (mag(time, ureg.d) - t0) + c[2] * (mag(time, ureg.d) - t0) ** 2
        g = interpolate(lc, period=P * ureg.d, time_transit=t0 * ureg.d, num_samples=N, duration=w * P * ureg.d)
        tk = t0 + w * P * (k / (N - 1) - 0.5)
        return dict(eq={"grid time": (g((tk + jnp.floor(v) * P) * ureg.d), lc(tk * ureg.d))})
    V2 = {n: V[n] for n in ("P", "w", "f", "m", "v")}
    t = tame(0)
    return Ob(f"original-N{N}-{k}", fn, {**V2, "c": ((3,), -2, 2)},
              sampler=lambda r: {**{n: x for n, x in t(r).items() if n != "th"}, **{f"c_{i}": r.uniform(-2, 2) for i in range(3)}})


def array():
    """arrays of times"""
    def fn(P, w, t0, t, F):
        g = interpolate(lambda time: F, period=P * ureg.d, time_transit=t0 * ureg.d, num_samples=3, duration=w * P * ureg.d)
        out = g(t * ureg.d)
        return dict(eq={f"{i}{j}": (out[i, j], g(t[i, j] * ureg.d)) for i in range(2) for j in range(2)})
    return Ob("array", fn, {"P": (0.5, 50), "w": (0.05, 0.95), "t0": (-100, 100), "t": ((2, 2), -100, 100), "F": ((3,), -2, 2)})


def obligations(tier):
    Ns = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5)
    obs = [outside(N) for N in reversed(Ns)]
    obs += [inside(N, k, full) for N in Ns for k in range(N - 1) for full in (False, True)]
    obs += [inside(3, 1, False, True)]
    obs += [grid(N, f) for N in (2, 5) for f in (False, True)]
    obs += [original(N, k) for N in (3, 4) for k in range(N)]
    return obs + [array()]
