"""Expected transit times: exactly the ephemeris times inside the closed window."""
import jax.numpy as jnp

from jaxoplanet.orbits.ttv import compute_expected_transit_times
from jsym.ob import Ob

BOUNDS = ("period in [0.3,50] d, reference time in [-1e3,1e3] d, window starting within 3 (thorough 6) periods of the reference time and "
          "spanning at most 2.5 (thorough 4) periods (also windows without a transit); 1 planet symbolic, or 2 planets of which one "
          "is symbolic and the other fixed; int(), bool() and boolean-mask indexing on symbolic values are forked")


def spec(times, a, c, P, t0, lo, hi, true, eq, tag):
    """a, c: window limits in periods from t0"""
    m = times.shape[0]
    N = -jnp.floor(-a)          # first transit number
    # exactly N .. N+m-1 are inside
    true[tag + "last inside"] = N + (m - 1) <= c if m else jnp.asarray(True)
    true[tag + "next outside"] = N + m > c
    for j in range(m):
        eq[f"{tag}time {j}"] = (times[j], t0 + (N + j) * P)
        true[f"{tag}in window {j}"] = (lo - 1e-9 <= times[j]) & (times[j] <= hi + 1e-9)


def one(name, alo, ahi, wlo, whi, irange, scalar=True):
    def fn(P, t0, a, w):
        c = a + w
        lo, hi = t0 + a * P, t0 + c * P
        out = compute_expected_transit_times(lo, hi, P if scalar else P[None], t0 if scalar else t0[None])
        if len(out) != 1:
            raise ValueError("one array per planet")
        eq, true = {}, {}
        spec(out[0], a, c, P, t0, lo, hi, true, eq, "")
        return dict(eq=eq, true=true)
    return Ob(name, fn, {"P": (0.3, 50), "t0": (-1e3, 1e3), "a": (alo, ahi), "w": (wlo, whi)}, concolic=irange,
              sampler=lambda g: {"P": g.uniform(0.3, 50), "t0": g.uniform(-1e3, 1e3), "a": g.uniform(alo, ahi), "w": g.uniform(wlo, whi)})


def two(which):
    def fn(P, t0, a, w):
        c = a + w
        lo, hi = t0 + a * P, t0 + c * P
        P2 = [P, 2 * P] if which == 0 else [P * 3, P]
        T2 = [t0, t0 + 0.25 * P] if which == 0 else [t0 - P, t0]
        out = compute_expected_transit_times(lo, hi, jnp.stack(P2), jnp.stack(T2))
        if len(out) != 2:
            raise ValueError("one array per planet")
        eq, true = {}, {}
        for i in range(2):
            # limits in units of this planet's own ephemeris
            q = {(0, 0): (1, 0), (0, 1): (2, 0.25), (1, 0): (3, -1), (1, 1): (1, 0)}[(which, i)]
            ai, ci = (a - q[1]) / q[0], (c - q[1]) / q[0]
            spec(out[i], ai, ci, P2[i], T2[i], lo, hi, true, eq, f"planet {i} ")
        return dict(eq=eq, true=true)
    return Ob(f"two-planets-{which}", fn, {"P": (0.3, 50), "t0": (-1e3, 1e3), "a": (-1.2, 1.2), "w": (0, 1.7)}, concolic=(-4, 6),
              sampler=lambda g: {"P": g.uniform(0.3, 50), "t0": g.uniform(-1e3, 1e3), "a": g.uniform(-1.2, 1.2), "w": g.uniform(0, 1.7)})


def obligations(tier):
    obs = [one("before", -3, -1, 0, 2.5, (-4, 6)), one("around", -1, 1, 0, 2.5, (-4, 6)), one("after", 1, 3, 0, 2.5, (-4, 6)),
           one("array", -1, 1, 0, 2.5, (-4, 6), scalar=False), two(0), two(1)]
    if tier == "thorough":
        obs += [one("far-before", -6, -3, 0, 4, (-7, 8)), one("far-after", 3, 6, 0, 4, (-2, 11)), one("long", -1, 1, 2.5, 4, (-4, 8))]
    return obs
