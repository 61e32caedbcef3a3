"""Spots: expansion of the profile, contrast, symmetry and position."""
import math

import jax.numpy as jnp
import numpy as np
from numpy.polynomial import legendre

from checks.maps import intensity_of, lms, sh
from jaxoplanet.starry import ylm as module
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import spot_profile, ylm_spot
from jsym.cuts import Cuts, MatrixCut, ProfileCut, RotationCut
from jsym.ob import Ob

BOUNDS = ("spots of degree 0..5 (thorough 0..8) with the default 300 samples of the profile and any values of it; complete unfolding with 3..8 samples, degrees 0..3; every contrast in [-3,3], radius in (0,1.6), "
          "latitude and longitude (degrees 1..2 away from the centre of the disk); intensity of the map at every place")
ASSUMPTIONS = ["where the default 300 samples are used, the radial profile is an uninterpreted function with values in [-1,0] (decided by the obligations `profile`)",
               "rotations about a general axis are replaced by independent matrices (decided by C19)"]
C, R = (-3, 3), (0.02, 1.6)


def expansion(deg, npts):
    """smoothed, regularised least-squares fit of Legendre series (unit: orthonormal harmonics) to samples at equal angles"""
    th = np.linspace(0, np.pi, npts)
    B = np.stack([math.sqrt(2 * l + 1) * legendre.legval(np.cos(th), [0] * l + [1]) for l in range(deg + 1)], -1)
    X = np.linalg.solve(B.T @ B + 1e-9 * np.eye(deg + 1), B.T)
    s = 0.5 if deg < 4 else 2.0 / deg
    return np.exp([[-0.5 * l * (l + 1) * s * s] for l in range(deg + 1)]) * X, th


def profile(t, r, f):
    """sigmoid from -1 (centre) to 0"""
    return -1 / (1 + jnp.exp(f * (t - r)))


def pointwise():
    obs = []

    def default(t, r):
        b = spot_profile(t, r)
        return dict(eq={"profile": (b, profile(t, r, 300.0))}, le={"above": (-1.0, b), "below": (b, 0.0)})
    obs.append(Ob("profile-default", default, {"t": (0, 3.15), "r": (0, 1.6)}, sampler=lambda g: (lambda r: {"r": r, "t": r + g.uniform(-0.02, 0.02)})(g.uniform(0.1, 1.6))))

    def fac(t, r, f):
        b = spot_profile(t, r, f)
        k = spot_profile(t, r, spot_fac=f)
        return dict(eq={"profile": (b, profile(t, r, f)), "keyword": (k, b), "edge": (spot_profile(r, r, f), -0.5)})
    obs.append(Ob("profile-width", fac, {"t": (0, 3.15), "r": (0, 1.6), "f": (0.1, 300)}, sampler=lambda g: {"r": g.uniform(0, 1.6), "t": g.uniform(0, 3), "f": g.uniform(0.1, 20)}))
    return obs


def spot(deg, npts, fac):
    """ylm_spot; the matrix of the fit does not depend on the inputs"""
    kw = {} if npts == 300 else dict(npts=npts)
    kw |= {} if fac == 300 else dict(spot_fac=fac)
    try:
        return ylm_spot(deg, **kw)
    except Exception as e:
        err = e

    def fails(*a, **k):
        raise err
    return fails


def central(deg, npts, fac, cut):
    """a spot in the middle of the disk"""
    X, th = expansion(deg, npts)
    f = spot(deg, npts, fac)

    def fn(c, r):
        y = f(c, r)
        b = module.spot_profile(th, r, fac) if cut else jnp.stack([profile(t, r, fac) for t in th])
        a = X @ b
        want = [0.0] * (deg + 1) ** 2
        for l in range(deg + 1):
            want[l * l + l] = c * a[l] + (1.0 if l == 0 else 0.0)
        return dict(eq={"coefficients": (y.todense(), jnp.stack([jnp.asarray(w, float) for w in want])),
                        "contrast": (f(2 * c, r).todense() + f(0.0, r).todense(), 2 * y.todense()),
                        "size": (float(y.todense().shape[0]), float((deg + 1) ** 2))})
    return Ob(f"central-{deg}-{npts}-{fac}", fn, {"c": C, "r": R}, stubs=Cuts(*([ProfileCut()] if cut else []), MatrixCut()), tol=1e-8)


def placed(deg, npts, fac, cut, place=None):
    """anywhere: symmetric about the direction of the spot"""
    X, th = expansion(deg, npts)
    f = spot(deg, npts, fac)

    def fn(c, r, lat, lon):
        args = {"lat": lat} if place == "lat" else {"lon": lon} if place == "lon" else {"lat": lat, "lon": lon}
        y = f(c, r, **args)
        la, lo = args.get("lat", 0.0), args.get("lon", 0.0)
        b = module.spot_profile(th, r, fac) if cut else jnp.stack([profile(t, r, fac) for t in th])
        a = X @ b
        d = (jnp.cos(la) * jnp.sin(lo), jnp.sin(la), jnp.cos(la) * jnp.cos(lo))
        want = []
        for l, m in lms(deg):
            want.append((c * a[l] + (1.0 if l == 0 else 0.0)) * sh(l, m, *d) / float(sh(l, 0, 0.0, 0.0, 1.0)))
        return dict(eq={"coefficients": (y.todense(), jnp.stack([jnp.asarray(w, float) for w in want]))})
    return Ob(f"placed-{deg}-{npts}-{fac}{'-' + place if place else ''}", fn, {"c": C, "r": R, "lat": (-1.57, 1.57), "lon": (-6.2, 6.2)}, stubs=Cuts(*([ProfileCut()] if cut else []), MatrixCut()), tol=1e-8)


def seen(deg, npts, fac, cut):
    """Surface.intensity at (lat, lon) of a surface with a spot depends on the distance from the spot alone"""
    X, th = expansion(deg, npts)
    f = spot(deg, npts, fac)

    def fn(c, r, lat, lon, la, lo):
        y = f(c, r, lat, lon)
        s = Surface(y=y, normalize=False)
        b = module.spot_profile(th, r, fac) if cut else jnp.stack([profile(t, r, fac) for t in th])
        a = X @ b
        d = [jnp.cos(lat) * jnp.sin(lon), jnp.sin(lat), jnp.cos(lat) * jnp.cos(lon)]
        e = [jnp.cos(la) * jnp.sin(lo), jnp.sin(la), jnp.cos(la) * jnp.cos(lo)]
        mu = d[0] * e[0] + d[1] * e[1] + d[2] * e[2]
        want = 0.0
        for l in range(deg + 1):
            q = 0.0
            for k in legendre.leg2poly([0] * l + [1])[::-1]:
                q = q * mu + float(k)
            want = want + (c * a[l] + (1.0 if l == 0 else 0.0)) * math.sqrt(2 * l + 1) / math.pi * q
        return dict(eq={"intensity": (s.intensity(la, lo), want)})
    return Ob(f"seen-{deg}-{npts}", fn, {"c": C, "r": R, "lat": (-1.57, 1.57), "lon": (-6.2, 6.2), "la": (-1.57, 1.57), "lo": (-6.2, 6.2)}, stubs=Cuts(*([ProfileCut()] if cut else []), MatrixCut(), RotationCut()), tol=1e-8)


def separate():
    """is the radial profile still a function of its own?"""
    hit = []
    old = getattr(module, "spot_profile", None)
    if old is None:
        return False
    module.spot_profile = lambda *a, **k: hit.append(1) or old(*a, **k)
    try:
        ylm_spot(2)(0.1, 0.2)
    finally:
        module.spot_profile = old
    return bool(hit)


def obligations(tier):
    th = tier != "quick"
    obs = pointwise()
    obs += [central(d, n, f, False) for d in range(4) for n, f in ((5, 3.0),)] + [central(1, 4, 300, False)]
    obs += [placed(1, 4, 3.0, False), placed(2, 4, 3.0, False)]
    if separate():
        obs += [central(d, 300, 300, True) for d in range(9 if th else 7)]
        obs += [placed(d, 300, 300, True) for d in (0, 1, 2)] + [placed(d, 300, 300, True, p) for d in (1, 2, 3) for p in ("lat", "lon")]
        obs += [seen(1, 6, 300, True), seen(2, 6, 300, True)]
    return obs
