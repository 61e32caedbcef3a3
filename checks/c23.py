"""Radial-velocity anomaly: flux-weighted mean of the line-of-sight velocity of rotation."""
import jax.numpy as jnp
import numpy as np

from checks.common import mag, mags
from checks.maps import disk_nodes, green, intensity_of, limb_dark, lm_of, lms, pmul, sh_norm, plm
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.starry.core.rotation import left_project
from jaxoplanet.starry.core.solution import solution_vector
from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
from jaxoplanet.starry.orbit import SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import Cuts, KeplerCut, ProjectCut, SolutionCut
from jsym.ob import Ob

BOUNDS = ("maps of degree 0..3 (thorough 0..5) with every coefficient vector (y00 = 1, the others in [-0.3,0.3]), 0..2 limb-darkening coefficients, every inclination, obliquity, phase, shear in [-1,1], "
          "rotation period in [0.3,30], one occultor at any position and of any size (degrees up to 2); systems of one or two bodies of which one is in front")
ASSUMPTIONS = ["the rotation of the map into the sky frame (C19), the occultation integrals of the Green's basis (C21) and the Kepler solver (C01) are uninterpreted functions here"]
V = {"inc": (0, 3.1), "obl": (-3, 3), "th": (-6, 6), "P": (0.3, 30), "rad": (0.1, 5), "al": (-1, 1)}


def surface(deg, us, y, variant, inc, obl, P, rad, al, **kw):
    kw.update(u=us, period=P, radius=rad)
    if "pole" in variant:
        kw.update(inc=None, obl=obl)
    elif "noobl" in variant:
        kw.update(inc=inc)
    elif "default" not in variant:
        kw.update(inc=inc, obl=obl)
    if "shear" in variant:
        kw.update(shear=al)
    if "still" in variant:
        kw.update(period=None)
    return Surface(y=Ylm.from_dense(y, normalize=False), normalize=False, **kw)


def angles(variant, inc, obl):
    i = 0.0 if "pole" in variant else 0.5 * jnp.pi if "default" in variant else inc
    return i, 0.0 if "noobl" in variant or "default" in variant else obl


def geometry(variant, inc, obl):
    """components of the rotation: v = veq (A x + B y), and the spin axis on the sky (-B, A, C)"""
    i, o = angles(variant, inc, obl)
    si, ci = (0.0, 1.0) if "pole" in variant else (1.0, 0.0) if "default" in variant else (jnp.sin(i), jnp.cos(i))
    so, co = (0.0, 1.0) if "noobl" in variant or "default" in variant else (jnp.sin(o), jnp.cos(o))
    return si * co, si * so, ci


def velocity(variant, veq, geo, al, x, y, z):
    """recession speed of the surface at a point of the disk"""
    A, B, C = geo
    v = veq * (A * x + B * y)
    if "shear" in variant:
        sl = -B * x + A * y + C * z
        v = v * (1 - al * sl * sl)
    return v


def spread(y, deg):
    """y00 = 1 and small other coefficients: the flux stays positive"""
    return jnp.concatenate([jnp.ones(1), y * (1.0 / (deg + 1))]) if deg else jnp.ones(1)


def rotated(deg, variant, inc, obl, th, y):
    i, o = angles(variant, inc, obl)
    return left_project(deg, i, o, th, 0.0, y) if deg else y


def total_flux(deg, nu, Ry, us):
    return sum(w * intensity_of(Ry, deg, x, y, z) * limb_dark(us, z) for x, y, z, w in disk_nodes(deg + nu))


def free(deg, nu, variant):
    """no occultor: rv * integral of I = integral of I v"""
    def fn(inc, obl, th, P, rad, al, amp, y, u):
        us = tuple(u[k] for k in range(nu))
        c = spread(y, deg)
        s = surface(deg, us, c, variant, inc, obl, P, rad, al, amplitude=amp)
        rv = surface_radial_velocity(s, theta=th)
        Ry = rotated(deg, variant, inc, obl, th, c)
        geo = geometry(variant, inc, obl)
        veq = 0.0 if "still" in variant else 2 * jnp.pi * rad / P
        nodes = disk_nodes(deg + nu + (3 if "shear" in variant else 1))
        vals = [(w * intensity_of(Ry, deg, px, py, pz) * limb_dark(us, pz), px, py, pz) for px, py, pz, w in nodes]
        F, M = sum(v[0] for v in vals), sum(v[0] * velocity(variant, 1.0, geo, al, *v[1:]) for v in vals)
        eq = {"mean": (rv * F, veq * M)}
        if deg == 0 or "still" in variant:
            eq["vanishes"] = (rv, 0.0)
        pts = [(0.3, -0.4), (0.0, 0.9), (-0.7, 0.1)]
        own = s._intensity(*(jnp.asarray(q) for q in np.array([(a, b, np.sqrt(1 - a * a - b * b)) for a, b in pts]).T), theta=th, rv=True)
        for k, (a, b) in enumerate(pts):
            zz = float(np.sqrt(1 - a * a - b * b))
            eq[f"rendered {k}"] = (own[k], amp * intensity_of(Ry, deg, a, b, zz) * limb_dark(us, zz) * velocity(variant, veq, geo, al, a, b, zz))
        return dict(eq=eq, assume=[F >= 0.2])
    return Ob(f"free-{deg}-u{nu}-{variant}", fn, {**V, "amp": (0.1, 5), "y": (((deg + 1) ** 2 - 1 or 1,), -0.3, 0.3), "u": ((max(nu, 1),), 0, 0.4)}, stubs=Cuts(ProjectCut(0.3 / (deg + 1), split=True)))


def sh_poly(l, m):
    """orthonormal real harmonic as a polynomial {(i, j, k): c}, z^2 = 1 - x^2 - y^2"""
    a = abs(m)
    re, im = {(0, 0, 0): 1.0}, {}
    for _ in range(a):
        nr, ni = {}, {}
        for src, fac in ((re, ((nr, (1, 0), 1), (ni, (0, 1), 1))), (im, ((nr, (0, 1), -1), (ni, (1, 0), 1)))):
            for (i, j, k), c in src.items():
                for dst, (p, q), f in fac:
                    dst[(i + p, j + q, k)] = dst.get((i + p, j + q, k), 0.0) + f * c
        re, im = nr, ni
    zp, out = {(0, 0, 0): 1.0}, {}
    for k in plm(l, a):
        for key, c in zp.items():
            out[key] = out.get(key, 0.0) + float(k) * c
        zp = dict(pmul(zp, {(0, 0, 1): 1.0}))
    return {k: c * sh_norm(l, m) for k, c in pmul(out, im if m < 0 else re).items()}


def vec(p, deg):
    """coefficients in the polynomial basis"""
    out = [0.0] * (deg + 1) ** 2
    for (i, j, k), c in p.items():
        l, m = lm_of(i, j, k)
        out[l * l + l + m] = out[l * l + l + m] + c
    return jnp.stack([jnp.asarray(v, float) for v in out])


def add(a, b, f=1.0):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0.0) + f * c
    return out


def psum(terms):
    out = {}
    for t in terms:
        out = add(out, t)
    return out


def scale(p, f):
    return {k: c * f for k, c in p.items()}


def dark_poly(us):
    out, q = {(0, 0, 0): 1.0}, {(0, 0, 0): 1.0}
    for c in us:
        q = pmul(q, {(0, 0, 0): 1.0, (0, 0, 1): -1.0})
        out = add(out, q, -c)
    return out


def greens(deg):
    G = np.zeros(((deg + 1) ** 2,) * 2)
    for n in range((deg + 1) ** 2):
        for (i, j, k), c in green(n).items():
            p = {(i, j, 0): float(c)}
            for _ in range(k):
                p = pmul(p, {(0, 0, 1): 1.0})
            for key, f in p.items():
                l, m = lm_of(*key)
                if f:
                    G[l * l + l + m, n] += f
    return np.linalg.inv(G)


def occulted(deg, nu, variant):
    """one occultor: rv * visible integral of I = visible integral of I v (integrals in the frame with the occultor on the y axis)"""
    def fn(inc, obl, th, P, rad, al, r, b0, az, y, u, z):
        us = tuple(u[k] for k in range(nu))
        xo, yo = b0 * jnp.sin(az), b0 * jnp.cos(az)
        c = spread(y, deg)
        s = surface(deg, us, c, variant, inc, obl, P, rad, al)
        vdeg = 3 if "shear" in variant else 1
        N = deg + nu + vdeg
        b = jnp.sqrt(xo * xo + yo * yo)
        rv = surface_radial_velocity(s, r, xo, yo, z, th, order=7)
        Ry = rotated(deg, variant, inc, obl, th, c)
        ct, st = yo / b, xo / b
        R = ProjectCut.spin(Ry, jnp.arctan2(xo, yo)) if deg else Ry
        I = psum(scale(sh_poly(l, m), R[l * l + l + m]) for l, m in lms(deg))
        I = pmul(I, dark_poly(us)) if nu else I
        A, B, C = geometry(variant, inc, obl)
        A, B = A * ct - B * st, A * st + B * ct  # v = A x + B y in the rotated frame
        v = {(1, 0, 0): A, (0, 1, 0): B}
        if "shear" in variant:
            sl = {(1, 0, 0): -B, (0, 1, 0): A, (0, 0, 1): C}
            v = add(v, pmul(v, pmul(sl, sl)), -al)
        Ginv = greens(N)
        S = solution_vector(N, order=7)(b, r) @ Ginv
        F, M = S @ vec(I, N), S @ vec(pmul(I, v), N)
        return dict(eq={"mean": (rv * F, 2 * jnp.pi * rad / P * M)}, assume=[b < 1 + r, z > 0, F >= 0.2, F <= 2])
    return Ob(f"occulted-{deg}-u{nu}-{variant}", fn, {**V, "r": (0.01, 3), "b0": (0.01, 4), "az": (-3.1, 3.1), "y": (((deg + 1) ** 2 - 1 or 1,), -0.3, 0.3), "u": ((max(nu, 1),), 0, 0.4), "z": (-3, 3)},
              stubs=Cuts(ProjectCut(0.3 / (deg + 1), split=True), SolutionCut()), tol=1e-7)


def gate(deg, nu, variant):
    """an occultor behind the star or beside it changes nothing"""
    def fn(inc, obl, th, P, rad, al, r, b0, az, y, u, z):
        us = tuple(u[k] for k in range(nu))
        xo, yo = b0 * jnp.sin(az), b0 * jnp.cos(az)
        c = spread(y, deg)
        s = surface(deg, us, c, variant, inc, obl, P, rad, al)
        b = jnp.sqrt(xo * xo + yo * yo)
        rv = surface_radial_velocity(s, r, xo, yo, z, th, order=7)
        ref = surface_radial_velocity(s, theta=th)
        F = total_flux(deg, nu, rotated(deg, variant, inc, obl, th, c), us)
        return dict(eq={"same": (rv, ref)}, assume=[(b >= 1 + r) | (z <= 0), F >= 0.2])
    return Ob(f"gate-{deg}-u{nu}-{variant}", fn, {**V, "r": (0.01, 3), "b0": (0.01, 7), "az": (-3.1, 3.1), "y": (((deg + 1) ** 2 - 1 or 1,), -0.3, 0.3), "u": ((max(nu, 1),), 0, 0.4), "z": (-3, 3)},
              stubs=Cuts(ProjectCut(0.3 / (deg + 1), split=True), SolutionCut()))


def system(nb, given, deg=1):
    """star: reflex motion by all the bodies plus the anomaly with the occultor in front; bodies: anomaly with the star as occultor"""
    def fn(t, u, y, period, prot, phase, t0, inc, r, m, K, M, R):
        c = Central(mass=M, radius=R)
        cs = Surface(u=(u[0],), y=Ylm.from_dense(spread(y[0], deg), normalize=False), normalize=False, inc=1.1, obl=0.3, period=prot[0], phase=phase[0])
        bs, sur = [], []
        for k in range(nb):
            kw = dict(period=period[k], time_transit=t0[k], inclination=inc[k], radius=r[k])
            if given[k] == "K":
                kw.update(radial_velocity_semiamplitude=K[k] * ureg.m / ureg.s)
            else:
                kw.update(mass=m[k])
            bs.append(Body(**kw))
            sur.append(None if given[k] != "surf" else Surface(u=(u[1],), y=Ylm.from_dense(spread(y[1], deg), normalize=False), normalize=False, inc=0.9, period=prot[1], phase=phase[1]))
        out = radial_velocity(SurfaceSystem(c, cs, bodies=list(zip(bs, sur))), order=7)(t)
        th = 2 * jnp.pi * t / prot + phase
        free = surface_radial_velocity(cs, theta=th[0])
        eq, assume, star = {}, [], 0.0
        for k, b in enumerate(bs):
            o = OrbitalBody(c, b)
            x, yy, z = mags(o.relative_position(t * ureg.d), ureg.R_sun)
            star = star + mag(o.radial_velocity(t * ureg.d), ureg.R_sun / ureg.d)
            if k == 0:
                assume += [z > 0]
                star = star + surface_radial_velocity(cs, r[k] / R, x / R, yy / R, z / R, th[0], order=7)
            else:
                assume += [z < 0]
            if sur[k] is None:
                eq[f"body {k}"] = (out[k + 1], 0.0)
            else:
                eq[f"body {k}"] = (out[k + 1], surface_radial_velocity(sur[k], R / r[k], -x / r[k], -yy / r[k], -z / r[k], th[1], order=7))
        eq["star"] = (out[0], star)
        return dict(eq=eq, assume=assume, true={"shape": jnp.asarray(out.shape == (nb + 1,))})
    n = (deg + 1) ** 2 - 1 or 1
    return Ob(f"system-{nb}-{'_'.join(given)}", fn, {"t": (-5, 5), "u": ((2,), 0, 0.4), "y": ((2, n), -0.3, 0.3), "period": ((2,), 0.5, 30), "prot": ((2,), 0.5, 30), "phase": ((2,), -3, 3), "t0": ((2,), -5, 5),
                                                  "inc": ((2,), 0.3, 2.8), "r": ((2,), 0.05, 0.5), "m": ((2,), 0.0, 0.5), "K": ((2,), 0.1, 1000), "M": (0.5, 2), "R": (0.5, 2)},
              stubs=Cuts(KeplerCut(), ProjectCut(0.3 / (deg + 1), split=True), SolutionCut()), tol=1e-8)


def veq():
    def fn(P, rad):
        eq = {"equatorial": (Surface(period=P, radius=rad).veq * P, 2 * jnp.pi * rad), "still": (Surface(radius=rad).veq, 0.0)}
        return dict(eq=eq)
    return Ob("veq", fn, {"P": (0.1, 30), "rad": (0.1, 5)})


def obligations(tier):
    th = tier != "quick"
    obs = [veq()]
    obs += [free(d, n, v) for d in range(6 if th else 4) for n in range(3) for v in ("full", "full-shear") if d + n < (8 if th else 5)]
    obs += [free(d, n, v + h) for d, n in ((0, 1), (1, 0), (2, 1)) for v in ("pole", "noobl", "default", "still") for h in ("", "-shear")]
    obs += [occulted(d, n, v) for d, n in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0)) + (((2, 1), (3, 0)) if th else ()) for v in ("full", "full-shear") if d + n < 2 or th or v == "full"]
    obs += [occulted(0, 1, v) for v in ("pole-shear", "noobl", "default")]
    obs += [gate(d, n, v) for d, n in ((0, 1), (1, 0), (2, 1)) for v in ("full", "full-shear")]
    obs += [system(1, ("m",)), system(1, ("surf",)), system(1, ("K",)), system(2, ("m", "m"), 0)]
    return obs
