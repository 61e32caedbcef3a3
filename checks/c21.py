"""Occulted surface flux: the integral of the intensity over the part of the disk outside the occultor."""
import jax.numpy as jnp
import numpy as np

from checks import c10
from checks.c20 import surface, total_dark
from checks.c23 import dark_poly, greens, psum, scale, sh_poly, vec
from checks.maps import green_vector, ipow, lms, pmul
from jaxoplanet.starry.core.rotation import left_project
from jaxoplanet.starry.core.solution import solution_vector
from jaxoplanet.starry.light_curves import surface_light_curve
from jsym.cuts import Cuts, LimbDarkCut, ProjectCut, SolutionCut
from jsym.ob import Ob

PI = float(np.pi)
BOUNDS = ("integrals of the Green's basis, degrees 0..3 (thorough 0..5): occultor crossing the limb with radius ratio in [0.01,0.9] and the occulted arc's half angle in [0.1,pi-0.1], similar sizes (triangle angles in "
          "[0.2,1.2] x [0.2,1.7]), radius ratio in [1.1,10] with the limb's half angle in [0.1,pi-0.1]; occultor inside the disk: radius ratio in [0.01,0.95], separation from 0.02 to 0.97 of that of internal contact, "
          "and 0; full cover for every b up to 5.  Flux: maps of degree 0..3 with every coefficient vector in [-1,1], 0..2 limb-darkening coefficients, every occultor position and size, orientation and amplitude")
ASSUMPTIONS = ["in the flux obligations the rotation into the sky frame (C19) and the integrals of the Green's basis (decided by the other obligations of this check) are uninterpreted functions",
               "grazing contacts (within the margins above) are outside"]


def circulation(deg, b, r, k0, k1, order):
    """circulation of every Green's vector field around the visible region, occultor at (0, b)"""
    x, w = np.polynomial.legendre.leggauss(18 + 2 * deg)
    t = 0.5 * PI + k1 + (PI - k1) * (x + 1)  # the visible limb, counterclockwise
    lx, ly, lw = jnp.cos(t), jnp.sin(t), jnp.asarray(w) * (PI - k1)
    x, w = np.polynomial.legendre.leggauss(order)
    psi = k0 * (x + 1) / 2
    out = []

    def comp(p, x, y, z, skip=False):
        t = 0.0
        for (i, j, k), c in p.items():
            if not (skip and k):
                t = t + c * ipow(x, i) * ipow(y, j) * (ipow(z, k) if k else 1.0)
        return t
    for l, m in lms(deg):
        G = green_vector(l, m)
        s, c = jnp.sin(psi), jnp.cos(psi)
        z = jnp.sqrt(1 - r * r - b * b + 2 * b * r * c)
        if G is None:
            limb = 2 * (PI - k1) / 3
            arc = k0 * jnp.sum(jnp.asarray(w) * (1 + z + z * z) / (1 + z) * (r * r - b * r * c)) / 3
        else:
            limb = jnp.sum(lw * (comp(G[1], lx, ly, 0.0, True) * lx - comp(G[0], lx, ly, 0.0, True) * ly))
            arc = 0.0
            for sx in (s, -s):  # both halves of the arc
                px, py = r * sx, b - r * c
                arc = arc + k0 / 2 * jnp.sum(jnp.asarray(w) * (comp(G[0], px, py, z) * r * c + comp(G[1], px, py, z) * r * sx))
        out.append(limb - arc)
    return out


def integrals(name, geometry, vars, cells, degs, order, tol, **kw):
    def fn(*p):
        b, r, k0, k1 = geometry(*p)
        S = solution_vector(max(degs), order=order)(b, r)
        T = circulation(max(degs), b, r, k0, k1, order)
        return dict(eq={f"{l},{m}": (S[l * l + l + m], T[l * l + l + m]) for l, m in lms(max(degs)) if l in degs})
    return Ob(f"integrals-{name}-{'-'.join(map(str, degs))}", fn, vars, method="tm", tol=tol, tmopts=dict(cells=cells, near=0, forks=0, **kw))


def cover(deg):
    def fn(b, d):
        S = solution_vector(deg, order=2)(b, 1 + b + d)
        return dict(eq={str(i): (S[i], 0.0) for i in range((deg + 1) ** 2)})
    return Ob(f"cover-{deg}", fn, {"b": (0, 5), "d": (0, 10)})


V = {"inc": (0, 3.1), "obl": (-3, 3), "th": (-6, 6), "amp": (-5, 5), "r": (0.01, 3), "b0": (0.01, 4), "az": (-3.1, 3.1), "z": (-3, 3)}


def flux(deg, nu, variant):
    def fn(inc, obl, th, amp, r, b0, az, z, y, u):
        us = tuple(u[k] for k in range(nu))
        xo, yo = b0 * jnp.sin(az), b0 * jnp.cos(az)
        b = jnp.sqrt(xo * xo + yo * yo)
        total = total_dark(us)
        s = surface(deg, us, y, False, variant, inc, obl, amp)
        out = surface_light_curve(s, r, xo, yo, z, th, order=7)
        i0 = {"pole": 0.0}.get(variant, inc if variant in ("full", "noobl") else 0.5 * jnp.pi)
        o0 = obl if variant in ("full", "pole") else 0.0
        Ry = left_project(deg, i0, o0, th, 0.0, y)
        R = ProjectCut.spin(Ry, jnp.arctan2(xo, yo))
        I = psum(scale(sh_poly(l, m), R[l * l + l + m]) for l, m in lms(deg))
        I = pmul(I, dark_poly(us)) if nu else I
        S = solution_vector(deg + nu, order=7)(b, r) @ greens(deg + nu)
        return dict(eq={"flux": (out * total, amp * 2 * np.sqrt(np.pi) * (S @ vec(I, deg + nu)))}, assume=[b < 1 + r, z > 0, total >= 0.3])
    return Ob(f"flux-{deg}-u{nu}-{variant}", fn, {**V, "y": (((deg + 1) ** 2,), -1, 1), "u": ((max(nu, 1),), 0, 0.5)}, stubs=Cuts(ProjectCut(1.0, split=True), SolutionCut()), tol=1e-7)


def gate(deg, nu, variant):
    """an occultor beside the map or behind it changes nothing"""
    def fn(inc, obl, th, amp, r, b0, az, z, y, u):
        us = tuple(u[k] for k in range(nu))
        xo, yo = b0 * jnp.sin(az), b0 * jnp.cos(az)
        b = jnp.sqrt(xo * xo + yo * yo)
        s = surface(deg, us, y, False, variant, inc, obl, amp)
        return dict(eq={"same": (surface_light_curve(s, r, xo, yo, z, th, order=7), surface_light_curve(s, theta=th))},
                    assume=[(b >= 1 + r) | (z <= 0), total_dark(us) >= 0.3])
    return Ob(f"gate-{deg}-u{nu}-{variant}", fn, {**V, "b0": (0.01, 7), "y": (((deg + 1) ** 2,), -1, 1), "u": ((max(nu, 1),), 0, 0.5)}, stubs=Cuts(ProjectCut(1.0, split=True), SolutionCut()))


def uniform(nu):
    """degree zero: the limb-darkened light curve (C10), scaled"""
    def fn(amp, r, b0, az, z, u):
        from jaxoplanet.core import limb_dark
        light_curve = limb_dark.light_curve
        us = tuple(u[k] for k in range(nu))
        xo, yo = b0 * jnp.sin(az), b0 * jnp.cos(az)
        b = jnp.sqrt(xo * xo + yo * yo)
        s = surface(0, us, jnp.ones(1), False, "default", None, None, amp)
        return dict(eq={"flux": (surface_light_curve(s, r, xo, yo, z, order=1), amp * (1 + light_curve(u[:nu], b, r, order=1)))},
                    assume=[b < 1 + r, z > 0, total_dark(us) >= 0.3])
    return Ob(f"uniform-u{nu}", fn, {k: V[k] for k in ("amp", "r", "b0", "az", "z")} | {"u": ((max(nu, 1),), 0, 0.5)}, stubs=Cuts(LimbDarkCut()))


def obligations(tier):
    q = tier == "quick"
    tol = 1e-7 if q else 1e-9
    obs = []
    for degs in ((0, 1, 2), (3,)) if q else ((0, 1, 2), (3,), (4,), (5,)):
        for name, geo, vars, cells in (
                ("ingress", c10.small, {"r": (0.01, 0.9), "k0": (0.1, PI - 0.1)}, {"r": np.geomspace(0.01, 0.9, 13), "k0": 12}),
                ("similar", c10.similar, {"k0": (0.2, 1.2), "k1": (0.2, 1.7)}, {"k0": 12, "k1": 12}),
                ("large", c10.large, {"r": (1.1, 10), "k1": (0.1, PI - 0.1)}, {"r": np.geomspace(1.1, 10, 13), "k1": 12}),
                ("transit", c10.inside, {"f": (0.02, 0.97), "r": (0.01, 0.95)}, {"f": np.geomspace(0.02, 0.97, 13), "r": np.geomspace(0.01, 0.95, 13)}),
                ("concentric", lambda r: (jnp.zeros(()), r, PI, 0.0), {"r": (0.01, 0.95)}, {"r": 20})):
            obs.append(integrals(name, geo, vars, cells, degs, 2, tol))
    for deg, nu, v in ((1, 0, "full"), (1, 1, "full"), (2, 0, "full"), (2, 1, "noobl"), (1, 2, "default"), (3, 0, "pole")):
        obs += [flux(deg, nu, v), gate(deg, nu, v)]
    obs += [uniform(k) for k in (0, 1, 2)]
    obs += [cover(k) for k in ((1, 3) if q else (1, 3, 5))]
    return obs
