"""Barycentric, relative and central frames, and radial velocities, are mutually consistent."""
import jax.numpy as jnp

from checks.common import AU, DAY, GRAV, R_SUN, mag, mags
from checks.c05 import reference, setup
from checks.orbits import CONFIGS, MASSLESS, V, build
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

BOUNDS = "time in [-5,5] d (any phase: the true anomaly is arbitrary), masses, sizes, eccentricity and orientation as in C05; semi-amplitude in [0.01,50]; parallax in [0.001,0.5] arcsec"
ASSUMPTIONS = ["the Kepler solver is replaced by its contract (any point on the unit circle, exact derivative); C01 and C02 check the solver"]


def frames(cfg, parallax=False):
    u = ureg.arcsec if parallax else ureg.R_sun

    def fn(t, *p):
        body, d = build(cfg, p, parallax)
        tq = t * ureg.d
        rb, rc, rr = (mags(f(tq), u) for f in (body.position, body.central_position, body.relative_position))
        vb, vc, vr = (mags(f(tq), u / ureg.d) for f in (body.velocity, body.central_velocity, body.relative_velocity))
        m, M = d.get("m", 0.0), d["m0"]
        eq = {}
        for k in range(3):
            eq[f"relative position {k}"] = (rr[k], rb[k] - rc[k])
            eq[f"barycentre {k}"] = (m * rb[k], -M * rc[k])
            eq[f"relative velocity {k}"] = (vr[k], vb[k] - vc[k])
            eq[f"momentum {k}"] = (m * vb[k], -M * vc[k])
        rho, th = body.relative_angles(tq)
        rho, th = mag(rho, u), mag(th)
        eq["separation"] = (rho * rho, rr[0] ** 2 + rr[1] ** 2)
        eq["position angle"] = (rr[1] * jnp.cos(th), rr[0] * jnp.sin(th))
        if not parallax:
            rv = mag(body.radial_velocity(tq), ureg.R_sun / ureg.d)
            eq["radial velocity is recession of the central"] = (rv, -vc[2])
        le = {"separation sign": (0.0, rho)}
        if cfg in ("circ-mass-inc-P", "circ-mass-edge-a", "circ-b-a"):
            le["position angle direction"] = (0.0, rr[0] * jnp.cos(th) + rr[1] * jnp.sin(th))
        return dict(eq=eq, le=le,
                    true={"position angle range": jnp.abs(th) <= jnp.pi})
    return Ob(f"frames-{cfg}" + ("-plx" if parallax else ""), fn, {"t": (-5, 5), **V(cfg, parallax)}, stubs=KeplerCut())


def geometry(cfg):
    """sky-plane coordinates from the angles as defined: argument of periastron, inclination, ascending node"""
    def fn(*p):
        body, d, E, e, a, P, mt, t = setup(cfg, p)
        if "i" in d:
            ci, si = jnp.cos(d["i"]), jnp.sin(d["i"])
        elif "b" in d:
            ci, si = mag(body.cos_inclination), mag(body.sin_inclination)
        else:
            ci, si = 0.0, 1.0
        R = reference(d, body, E, e, a, ci, si)
        eq = {}
        for name, k in (("relative", 1.0), ("body", d["m0"] / mt), ("central", -d.get("m", 0.0) / mt)):
            X = mags(getattr(body, {"relative": "relative_position", "body": "position", "central": "central_position"}[name])(t * ureg.d), ureg.R_sun)
            eq.update({f"{name} {'xyz'[j]}": (X[j], k * R[j]) for j in range(3)})
        return dict(eq=eq, assume=[ci**2 <= 0.999] if "b" in d else [])
    return Ob(f"geometry-{cfg}", fn, {"E": (-13, 13), **V(cfg)}, stubs=KeplerCut())


def parallax_scale(cfg):
    """angular coordinates are lengths in au times the parallax"""
    def fn(t, *p):
        body, d = build(cfg, p, True)
        plain, _ = build(cfg, p, False)
        tq = t * ureg.d
        eq = {}
        k = d["plx"] * (R_SUN / AU)
        for name in ("position", "central_position", "relative_position"):
            a = mags(getattr(body, name)(tq), ureg.arcsec)
            b = mags(getattr(plain, name)(tq), ureg.R_sun)
            c = mags(getattr(plain, name)(tq, parallax=d["plx"] * ureg.arcsec), ureg.arcsec)
            for i in range(3):
                eq[f"{name} {i}"] = (a[i], b[i] * k)
                eq[f"{name} {i} by argument"] = (c[i], a[i])
        return dict(eq=eq)
    return Ob(f"parallax-{cfg}", fn, {"t": (-5, 5), **V(cfg, True)}, stubs=KeplerCut(), tol=1e-8)


def semiamp_mass(cfg):
    """radial velocity of the mass parametrisation, K^3 = 2 pi G (m sin i)^3 / (P Mtot^2 (1-e^2)^(3/2))"""
    def fn(E, *p):
        body, d = build(cfg, p)
        P = mag(body.period, ureg.d)
        a = mag(body.semimajor, ureg.R_sun)
        e = d.get("e", 0.0)
        w = d.get("w", 0.0)
        t = mag(body.time_peri, ureg.d) + (E - e * jnp.sin(E)) * P / (2 * jnp.pi)
        rv = mag(body.radial_velocity(t * ureg.d), ureg.R_sun / ureg.d)
        den = 1 - e * jnp.cos(E)
        cf, sf = (jnp.cos(E) - e) / den, jnp.sqrt(1 - e * e) * jnp.sin(E) / den
        si = mag(body.sin_inclination)
        m, M = d["m"], d["m0"]
        shape = cf * jnp.cos(w) - sf * jnp.sin(w) + e * jnp.cos(w)
        # rv = -K * shape for the star (planet approaching -> star receding)
        K = 2 * jnp.pi / P * a * m / (m + M) / jnp.sqrt(1 - e * e) * si
        return dict(eq={"radial velocity curve": (rv, RVSIGN * K * shape),
                        "semi-amplitude formula": ((2 * jnp.pi / P * a)**3 / (2 * jnp.pi * GRAV * (m + M) / P), 1.0)})
    return Ob(f"rv-{cfg}", fn, {"E": (-13, 13), **V(cfg)}, stubs=KeplerCut(), tol=1e-7)


RVSIGN = 1.0


def semiamp_given(cfg, how):
    def fn(K, E, *p):
        extra = dict(radial_velocity_semiamplitude=K * ureg.R_sun / ureg.d) if how == "body" else {}
        body, d = build(cfg, p, **extra)
        P = mag(body.period, ureg.d)
        e, w = d.get("e", 0.0), d.get("w", 0.0)
        t = mag(body.time_peri, ureg.d) + (E - e * jnp.sin(E)) * P / (2 * jnp.pi)
        tq = t * ureg.d
        u = ureg.R_sun / ureg.d
        kw = {} if how == "body" else dict(semiamplitude=K * u)
        rv = mag(body.radial_velocity(tq, **kw), u)
        den = 1 - e * jnp.cos(E)
        cf, sf = (jnp.cos(E) - e) / den, jnp.sqrt(1 - e * e) * jnp.sin(E) / den
        eq = {"rv": (rv, RVSIGN * K * (cf * jnp.cos(w) - sf * jnp.sin(w) + e * jnp.cos(w)))}
        if "m" in d:
            vb, vc, vr = (mags(f(tq, **kw), u) for f in (body.velocity, body.central_velocity, body.relative_velocity))
            for k in range(3):
                eq[f"relative velocity {k}"] = (d["m"] * vr[k], d["m"] * (vb[k] - vc[k]))
                eq[f"momentum {k}"] = (d["m"] * vb[k], -d["m0"] * vc[k])
        return dict(eq=eq)
    v = {"K": (0.01, 50), "E": (-13, 13), **V(cfg)}
    if "m" in v:
        v["m"] = (0.01, 0.5)
    return Ob(f"rv-K-{how}-{cfg}", fn, v, stubs=KeplerCut())


def obligations(tier):
    obs = [frames(c) for c in CONFIGS + MASSLESS]
    obs += [frames(c, True) for c in ("ecc-mass-inc-node-P", "circ-mass-b-P")]
    obs += [geometry(f"{e}-mass-{i}{n}-P") for e in ("circ", "ecc", "eccsc") for i in ("inc", "edge") for n in ("", "-node", "-nodesc")]
    obs += [geometry(c) for c in MASSLESS + ["ecc-mass-b-nodesc-a-tp", "circ-mass-b-node-P"]]
    obs += [parallax_scale(c) for c in ("ecc-mass-inc-node-P", "circ-mass-b-P", "circ-b-a")]
    obs += [semiamp_mass(c) for c in CONFIGS]
    obs += [semiamp_given(c, h) for c in CONFIGS + MASSLESS for h in ("body", "argument")]
    return obs
