"""Unocculted flux of a map: the integral of its intensity over the visible disk."""
import jax.numpy as jnp
import numpy as np

from checks.maps import disk_nodes, intensity_of, limb_dark, lms, ijk
from jaxoplanet.starry.core.rotation import left_project
from jaxoplanet.starry.core.solution import rT
from jaxoplanet.starry.light_curves import surface_light_curve
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jsym.cuts import Cuts, ProjectCut
from jsym.ob import Ob

BOUNDS = ("maps of degree 0..5 (thorough 0..8) with every coefficient vector in [-1,1], 0..3 limb-darkening coefficients, every amplitude in [-5,5], inclination, obliquity and phase; "
          "moments of the polynomial basis up to degree 16 (thorough 20)")
ASSUMPTIONS = ["the rotation of the map into the sky frame is an uninterpreted function of its arguments (decided by C19); None angles stand for 0",
               "the integral over the disk is taken by a product cubature that is exact for polynomials of the degree of the map"]
V = {"inc": (0, 3.1), "obl": (-3, 3), "th": (-6, 6), "amp": (-5, 5)}


def total_dark(u):
    t = np.pi
    for k, c in enumerate(u):
        t = t - c * (2 * np.pi / ((k + 2) * (k + 3)))
    return t


def surface(deg, us, y, normalize, variant, inc, obl, amp, phase=0.0):
    kw = dict(u=us)
    if variant == "full":
        kw.update(inc=inc, obl=obl)
    elif variant == "pole":
        kw.update(inc=None, obl=obl)
    elif variant == "noobl":
        kw.update(inc=inc)
    if not normalize:
        kw.update(amplitude=amp, normalize=False)
    return Surface(y=Ylm.from_dense(y, normalize=False), **kw)


def flux(deg, nu, variant="full", normalize=False):
    """flux = amplitude * integral of the rotated map times the limb-darkening profile, normalised to unit mean profile"""
    n = (deg + 1) ** 2

    def fn(inc, obl, th, amp, y, u):
        us = tuple(u[i] for i in range(nu))
        total = total_dark(us)
        s = surface(deg, us, y, normalize, variant, inc, obl, amp)
        theta = None if variant == "still" else th
        out = surface_light_curve(s, theta=theta)
        i0 = {"pole": 0.0}.get(variant, inc if variant in ("full", "noobl") else 0.5 * jnp.pi)
        o0 = obl if variant in ("full", "pole") else 0.0
        yn = y / y[0] if normalize else y
        a = y[0] if normalize else amp
        Ry = left_project(deg, i0, o0, 0.0 if theta is None else theta, 0.0, yn) if deg else yn
        nodes = disk_nodes(deg + nu)
        ref = sum(w * intensity_of(Ry, deg, px, py, pz) * limb_dark(us, pz) for px, py, pz, w in nodes)
        P = np.array(nodes).T
        own = jnp.sum(P[3] * s._intensity(P[0], P[1], P[2], theta=theta))
        eq = {"integral": (out * total, a * ref * np.pi), "rendered intensity": (out * total, own * np.pi)}
        if not deg:
            eq["occultor outside the disk"] = (surface_light_curve(s, 0.5, 1.2, 1.0, 2.0, theta), out)
            eq["occultor behind"] = (surface_light_curve(s, 0.5, 0.2, 0.3, -1.0, theta), out)
        return dict(assume=[total >= 0.3] + ([abs(y[0]) >= 0.05] if normalize else []), eq=eq)
    return Ob(f"flux-{deg}-u{nu}-{variant}{'-normalised' if normalize else ''}", fn, {**V, "y": ((n,), -1, 1), "u": ((max(nu, 1),), 0, 0.5)}, stubs=Cuts(ProjectCut(20.0 if normalize else 1.0)))


def moments(deg):
    """integrals over the disk of the polynomial basis"""
    def fn(p):
        m = rT(deg)
        ref = 0.0
        nodes = disk_nodes(deg)
        for n, (l, k) in enumerate(lms(deg)):
            i, j, e = ijk(l, k)
            ref = ref + p[n] * sum(w * x**i * y**j * z**e for x, y, z, w in nodes)
        return dict(eq={"integral": (jnp.asarray(m) @ p, ref)}, true={"shape": jnp.asarray(m.shape == ((deg + 1) ** 2,))})
    return Ob(f"moments-{deg}", fn, {"p": (((deg + 1) ** 2,), -1, 1)})


def unit():
    """default map: unit flux at every phase; the amplitude and the normalisation scale the flux"""
    def fn(th, c, u):
        us = (u[0], u[1])
        eq = {"default": (surface_light_curve(Surface(), theta=th), 1.0), "dark": (surface_light_curve(Surface(u=us), theta=th), 1.0),
              "normalised": (surface_light_curve(Surface(y=Ylm({(0, 0): c}), u=us), theta=th), c),
              "amplitude": (surface_light_curve(Surface(amplitude=c, normalize=False, u=us), theta=th), c),
              "single occultor default": (surface_light_curve(Surface(u=us)), 1.0)}
        return dict(eq=eq)
    return Ob("unit", fn, {"th": (-6, 6), "c": (0.1, 5), "u": ((2,), 0, 0.5)})


def obligations(tier):
    th = tier != "quick"
    obs = [flux(d, n) for d in range(0, 9 if th else 6) for n in range(0, 4)]
    obs += [flux(d, n, v) for d, n in ((0, 2), (1, 0), (2, 2), (3, 1)) for v in ("pole", "noobl", "default", "still")]
    obs += [flux(d, n, "full", True) for d, n in ((0, 0), (1, 1), (2, 2))]
    obs += [moments(d) for d in range(0, 21 if th else 17)] + [unit()]
    return obs
