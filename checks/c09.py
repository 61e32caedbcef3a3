"""Limb-darkened transit light curve at and beyond the contact boundaries."""
import jax.numpy as jnp

from jaxoplanet.core.limb_dark import light_curve
from jsym.ob import Ob

BOUNDS = "u of length 0..3 (thorough 5), |u_i|<=1 with non-vanishing disc flux, r in [-4,4], b in [-10,10]; quadrature order 3 and the default 10 (the order only scales the unselected branch); finiteness on each contact line (b=0, b=r, b=1-r, b=r-1, b=1+r, r=1) for 0<=b,r<=3, u of length 0 and 2, and for every (b, r) with u empty"


def normal(u):
    # disc-integrated brightness of 1 - sum u_n (1-mu)^n, divided by pi
    s = 1.0
    for n in range(len(u)):
        s = s - 2 * u[n] / ((n + 2) * (n + 3))
    return s


def ob_noocc(N, order):
    def fn(u, b, r):
        lc = light_curve(u, b, r, order=order)
        return dict(assume=[jnp.abs(b) >= 1 + jnp.abs(r), normal([u[i] for i in range(N)]) >= 0.05],
                    eq={"no transit -> zero": (lc, 0.0)}, defined={"finite": lc})
    return Ob(f"noocc-N{N}-o{order}", fn, {"u": ((N,), -1, 1), "b": (-10, 10), "r": (-4, 4)})


def ob_full(N, order):
    def fn(u, b, r):
        lc = light_curve(u, b, r, order=order)
        return dict(assume=[jnp.abs(r) >= 1 + jnp.abs(b), normal([u[i] for i in range(N)]) >= 0.05],
                    eq={"fully covered -> -1": (lc, -1.0)}, defined={"finite": lc})
    return Ob(f"fullocc-N{N}-o{order}", fn, {"u": ((N,), -1, 1), "b": (-10, 10), "r": (-12, 12)})


def ob_even(N, order):
    def fn(u, b, r):
        lc = light_curve(u, b, r, order=order)
        return dict(assume=[normal([u[i] for i in range(N)]) >= 0.05, b>=0, r>=0],
                    eq={"even in b": (light_curve(u, -b, r, order=order), lc),
                        "even in r": (light_curve(u, b, -r, order=order), lc)})
    return Ob(f"even-N{N}-o{order}", fn, {"u": ((N,), -1, 1), "b": (1e-6, 3), "r": (1e-6, 3)})


def obligations(tier):
    obs = []
    for N in (0, 1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        for order in (3,) + ((10,) if N <= 2 else ()):
            obs += [ob_noocc(N, order), ob_full(N, order)]
    for N in (0, 2):
        obs.append(ob_even(N, 2))
    return obs


CONTACTS = {
    "b=0": lambda r: 0.0 * r, "b=r": lambda r: r, "b=1-r": lambda r: 1 - r, "b=r-1": lambda r: r - 1,
    "b=1+r": lambda r: 1 + r, "r=1": None, "generic": None,
}


def ob_finite(N, order, where):
    def fn(u, r, b):
        norm = normal([u[i] for i in range(N)])
        assume = [norm >= 0.05, r >= 0]
        if where == "r=1":
            bb, rr = b, 1.0 + 0.0 * r
        elif where == "generic":
            bb, rr = b, r
        else:
            bb, rr = CONTACTS[where](r), r
            assume.append(bb >= 0)
        return dict(assume=assume, defined={"finite": light_curve(u, bb, rr, order=order)})
    return Ob(f"finite-{where}-N{N}-o{order}", fn, {"u": ((N,), -1, 1), "r": (0, 3), "b": (0, 3)})


_base = obligations


def obligations(tier):
    return _base(tier) + [ob_finite(N, 3, w) for N in (0, 2) for w in CONTACTS if w != "generic" or N == 0]
