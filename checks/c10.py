"""Limb-darkened flux: the integral of the intensity over the visible part of the disk."""
import jax.numpy as jnp
import numpy as np

from jaxoplanet.core.limb_dark import light_curve
from jsym.ob import Ob

PI = float(np.pi)
US = [(), (0.4,), (0.4, 0.2), (-0.3, 0.5, 0.1, 0.2)]
BOUNDS = ("quick: polynomial limb darkening of order 0, 1, 2 and 4; occultor crossing the limb: radius ratio in [0.002,0.9] with the occulted arc's half angle in [0.1,pi-0.1], "
          "similar sizes (triangle angles in [0.2,1.2] x [0.2,1.7]), radius ratio in [1.1,20] with the limb's half angle in [0.1,pi-0.1]; occultor inside the disk: radius ratio in "
          "[0.002,0.95], separation from 0.01 to 0.97 of the distance of internal contact, and 0; to 1e-7 against the two-node Gauss rule on the independently derived boundary integrand, and the default "
          "order to 2e-5 against a 20-node rule; every u in [-1,1]^n up to n = 3 with a positive total, every b in [0,3], r in [0.01,2], for the dependence on the coefficients (one node); "
          "no overlap and full cover for every r up to 5, |u| <= 0.2.  Thorough: 1e-9, n up to 5")
ASSUMPTIONS = ["grazing contacts (within the margins above) are outside: the quadrature's weight functions degenerate there"]


def intensity(u):
    """coefficients of z^n in 1 - sum_k u_k (1 - z)^k"""
    p = np.polynomial.Polynomial([1.0])
    for k, x in enumerate(u, 1):
        p = p - x * np.polynomial.Polynomial([1.0, -1.0]) ** k
    return p.coef


def truth(u, b, r, k0, k1, order):
    """By Green's theorem the integral of z^n over a region is the integral of rho^2 M_n dtheta along its boundary, M_n = (1 - z^(n+2)) /
    ((n+2)(1 - z^2)), which is 1/(n+2) on the limb.  k0: half angle, seen from the occultor's centre, of its arc inside the disk
    (occultor + r (-cos psi, sin psi)); k1: half angle, seen from the centre of the disk, of the occulted limb.  Odd n: Gauss-Legendre."""
    x, w = np.polynomial.legendre.leggauss(order)
    s, c = jnp.sin(k0), jnp.cos(k0)
    A, B = 1 - r * r - b * b, 2 * b * r  # z^2 = A + B cos psi on the arc
    psi = k0 * (x + 1) / 2
    sq = A + B * jnp.cos(psi)
    z = jnp.sqrt(sq)
    total, norm = 0.0, 0.0
    for n, a in enumerate(intensity(u)):
        if a == 0:
            continue
        norm = norm + 2 * PI * a / (n + 2)
        if n % 2:
            arc, m = 0.0, sum(z ** k for k in range(n + 2)) / (1 + z)
        else:  # 1 + z^2 + z^4 + ..., the first two terms in closed form
            arc, m = 2 * (r * r * k0 - b * r * s), 0.0
            if n:
                arc = 2 * ((1 + A) * r * r * k0 + (B * r * r - (1 + A) * b * r) * s - B * b * r * (k0 + s * c) / 2)
            for k in range(4, n + 1, 2):
                m = m + sq ** (k // 2)
        arc = (arc + jnp.sum(jnp.asarray(w) * m * (r * r - b * r * jnp.cos(psi))) * k0) / (n + 2)
        total = total + a * (2 * (PI - k1) / (n + 2) - arc)
    return total / norm - 1


def overlap(name, geometry, vars, us, cells, order, tol=1e-9, ref=None, tm=8, **kw):
    """geometry: the two angles and the separation and radius ratio they belong to"""
    def fn(*p):
        b, r, k0, k1 = geometry(*p)
        return dict(eq={str(u): (light_curve(jnp.asarray(u, float), b, r, order=order) if order != "default" else light_curve(jnp.asarray(u, float), b, r),
                                 truth(u, b, r, k0, k1, ref or order)) for u in us})
    return Ob(name, fn, vars, method="tm", tol=tol, tmopts=dict(cells=cells, order=tm, near=0, **{"forks": 0, **kw}))


def small(r, k0):
    """occultor smaller than the disk, crossing the limb"""
    b = r * jnp.cos(k0) + jnp.sqrt(1 - jnp.square(r * jnp.sin(k0)))
    return b, r, k0, jnp.arctan2(r * jnp.sin(k0), b - r * jnp.cos(k0))


def similar(k0, k1):
    """of a similar size: law of sines"""
    return jnp.sin(k0 + k1) / jnp.sin(k0), jnp.sin(k1) / jnp.sin(k0), k0, k1


def large(r, k1):
    b = jnp.cos(k1) + jnp.sqrt(jnp.square(r) - jnp.square(jnp.sin(k1)))
    return b, r, jnp.arctan2(jnp.sin(k1), b - jnp.cos(k1)), k1


def inside(f, r):
    return f * (1 - r), r, PI, 0.0


def coefficients(n, order):
    """any coefficients: the light curves of single coefficients combined"""
    def fn(u, b, r):
        out = light_curve(u, b, r, order=order)
        one = lambda k: light_curve(jnp.asarray([0.0] * (k - 1) + [1.0] if k else [], float), b, r, order=order)
        part = lambda k: 2 / ((k + 1) * (k + 2)) if k else 1.0  # integral of (1 - z)^k over the disk, over pi
        s0 = 1 + one(0)
        total, norm = s0, 1.0
        for k in range(1, n + 1):
            # the light curve of 1 - (1 - z)^k
            sk = s0 - (1 + one(k)) * (1 - part(k))
            total = total - u[k - 1] * sk
            norm = norm - u[k - 1] * part(k)
        return dict(assume=[norm > 0], eq={"flux": ((out + 1) * norm, total)})
    return Ob(f"coefficients-{n}-{order}", fn, {"u": ((n,), -1, 1), "b": (0, 3), "r": (0.01, 2)})


def apart(n):
    def fn(u, r, d):
        return dict(eq={"apart": (light_curve(u, 1 + r + d, r), 0.0)})
    return Ob(f"apart-{n}", fn, {"u": ((n,), -0.2, 0.2), "r": (0, 5), "d": (0, 10)})


def covered(n):
    def fn(u, b, d):
        return dict(eq={"covered": (light_curve(u, b, 1 + b + d), -1.0)})
    return Ob(f"covered-{n}", fn, {"u": ((n,), -0.2, 0.2), "b": (0, 5), "d": (0, 10)})


def concentric():
    def fn(r):
        u = jnp.asarray(US[-1])
        return dict(eq={str(u): (light_curve(jnp.asarray(u), jnp.zeros(()), r, order=2), truth(u, 0.0, r, PI, 0.0, 2)) for u in US})
    return Ob("concentric", fn, {"r": (0.002, 0.95)}, method="tm", tol=1e-9, tmopts=dict(cells={"r": 20}, near=0, forks=0))


def obligations(tier):
    q = tier == "quick"
    tol = 1e-7 if q else 1e-9
    obs = []

    def add(name, geometry, vars, cells, **kw):
        obs.append(overlap(name, geometry, vars, US, cells, 2, tol=tol, **kw))
        obs.append(overlap(name + "-default", geometry, vars, [(0.4, 0.2)], cells, "default", tol=2e-5, ref=20, tm=5, forks=2, **kw))
    add("ingress", small, {"r": (0.002, 0.9), "k0": (0.1, PI - 0.1)}, {"r": np.geomspace(0.002, 0.9, 17), "k0": 12})
    add("similar", similar, {"k0": (0.2, 1.2), "k1": (0.2, 1.7)}, {"k0": 12, "k1": 12})
    add("large", large, {"r": (1.1, 20), "k1": (0.1, PI - 0.1)}, {"r": np.geomspace(1.1, 20, 17), "k1": 12})
    add("transit", inside, {"f": (0.01, 0.97), "r": (0.002, 0.95)}, {"f": np.geomspace(0.01, 0.97, 17), "r": np.geomspace(0.002, 0.95, 17)})
    obs.append(concentric())
    for n in (0, 1, 2, 3) if q else range(6):
        obs += [coefficients(n, 1), apart(n), covered(n)]
    return obs
