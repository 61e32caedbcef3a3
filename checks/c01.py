"""The Kepler solver: sine and cosine of the true anomaly."""
import jax
import jax.numpy as jnp
import numpy as np

from jaxoplanet.core.kepler import kepler
from jsym.ob import Ob

PI = float(np.pi)
BOUNDS = ("every eccentric anomaly in [-2pi,4pi] (three turns, so every mean anomaly of these), eccentricity in [0,0.9]; one turn for eccentricity up to 0.97, E in [0.3,pi] up to 0.99 (thorough: E in [0.05,pi] up to 0.99, [0.3,pi] up to 0.998; further turns); accuracy 1e-9 of sine and cosine")
ASSUMPTIONS = ["mean anomalies are written E - e sin E, which covers all of them exactly once for e < 1"]


def truth(E, e):
    q = 1 - e * jnp.cos(E)
    return jnp.sqrt(1 - e * e) * jnp.sin(E) / q, (jnp.cos(E) - e) / q


def solve(name, lo, hi, elo, ehi, cells, tol=1e-9, **kw):
    def fn(E, e):
        s, c = kepler(E - e * jnp.sin(E), e)
        S, C = truth(E, e)
        return dict(eq={"sin": (s, S), "cos": (c, C)})
    return Ob(name, fn, {"E": (lo, hi), "e": (elo, ehi)}, method="tm", tol=tol, tmopts=dict(cells=cells, **{"seconds": 280, **kw}))


def obligations(tier):
    obs = []
    for k in range(-2, 4):
        lo, hi = k * PI, (k + 1) * PI
        for n, (a, b) in enumerate(((0, 0.45), (0.45, 0.9))):
            obs.append(solve(f"turn{k:+d}-{n}", lo, hi, a, b, {"E": 24, "e": 6}))
    obs.append(solve("high-a", 0.0, 0.3, 0.9, 0.97, {"E": 12, "e": 6}))
    obs.append(solve("high-b", 0.3, PI, 0.9, 0.97, {"E": 24, "e": 6}))
    obs.append(solve("high-c", 0.3, PI, 0.97, 0.99, {"E": 24, "e": 6}))
    obs.append(solve("high-d", -PI, 0, 0.9, 0.97, {"E": 24, "e": 6}))
    if tier != "quick":
        obs.append(solve("high-e", 0.3, PI, 0.99, 0.998, {"E": 48, "e": 12}, depth=8, seconds=3000))
        obs.append(solve("high-f", 0.05, 0.3, 0.97, 0.99, {"E": 24, "e": 12}, depth=9, seconds=3000))
        for k in (-6, -5, 8, 9):
            obs.append(solve(f"turn{k:+d}", k * PI, (k + 1) * PI, 0, 0.9, {"E": 24, "e": 12}, seconds=3000))
    return obs
