"""Kepler's laws: every orbit is the ellipse its elements describe, traversed at Keplerian speed."""
import jax.numpy as jnp

from checks.common import DAY, GM_SUN, GRAV, R_SUN, cross, dot, mag, mags
from checks.orbits import ALL, CONFIGS, MASSLESS, V, build
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

BOUNDS = "eccentric anomaly in [-13,13] (four revolutions), central mass/radius in [0.1,3], body mass in [0,0.5] or absent, period in [0.5,30] d or semi-major axis in [5,60] R_sun, eccentricity in [0,0.95], every orientation"
ASSUMPTIONS = ["the Kepler solver is replaced by its contract (true anomaly of the eccentric anomaly), which C01 checks"]


def setup(cfg, p):
    E, p = p[0], p[1:]
    body, d = build(cfg, p)
    P = mag(body.period, ureg.d)
    a = mag(body.semimajor, ureg.R_sun)
    e = d.get("e", 0.0)
    t = mag(body.time_peri, ureg.d) + (E - e * jnp.sin(E)) * P / (2 * jnp.pi)
    mt = d["m0"] + d.get("m", 0.0)
    return body, d, E, e, a, P, mt, t


def reference(d, body, E, e, a, ci=None, si=None):
    """sky-frame position relative to the central from the orbital elements"""
    w = d.get("w", 0.0)
    if ci is None:
        ci, si = mag(body.cos_inclination), mag(body.sin_inclination)
    px = a * (jnp.cos(E) - e)
    py = a * jnp.sqrt(1 - e * e) * jnp.sin(E)
    x1 = jnp.cos(w) * px - jnp.sin(w) * py
    y1 = jnp.sin(w) * px + jnp.cos(w) * py
    x, y, z = -x1, -ci * y1, si * y1
    if "O" in d:
        O = d["O"]
        x, y = jnp.cos(O) * x - jnp.sin(O) * y, jnp.sin(O) * x + jnp.cos(O) * y
    return x, y, z


def ellipse(cfg):
    def fn(*p):
        body, d, E, e, a, P, mt, t = setup(cfg, p)
        X = mags(body.relative_position(t * ureg.d), ureg.R_sun)
        R = reference(d, body, E, e, a)
        eq = {"xyz"[k]: (X[k], R[k]) for k in range(3)}
        assume = []
        if "b" in d:
            assume = [mag(body.cos_inclination) ** 2 <= 0.999]
        eq["sin2+cos2 inclination"] = (mag(body.cos_inclination) ** 2 + mag(body.sin_inclination) ** 2, 1.0)
        eq["distance"] = (dot(X, X), (a * (1 - e * jnp.cos(E))) ** 2)
        return dict(assume=assume, eq=eq)
    return Ob(f"ellipse-{cfg}", fn, {"E": (-13, 13), **V(cfg)}, stubs=KeplerCut())


def dynamics(cfg):
    def fn(*p):
        body, d, E, e, a, P, mt, t = setup(cfg, p)
        X = mags(body.relative_position(t * ureg.d), ureg.R_sun)
        v = mags(body.relative_velocity(t * ureg.d), ureg.R_sun / ureg.d)
        mu = 4 * jnp.pi**2 * a**3 / P**2
        r = a * (1 - e * jnp.cos(E))
        h = cross(X, v)
        # orientation of the orbital plane
        ci, si = mag(body.cos_inclination), mag(body.sin_inclination)
        n = (0.0, si, ci)
        if "O" in d:
            n = (-jnp.sin(d["O"]) * si, jnp.cos(d["O"]) * si, ci)
        H = 2 * jnp.pi / P * a**2 * jnp.sqrt(1 - e * e)
        # the quotient keeps every side bounded
        eq = {f"angular momentum {k}": (h[k] / a**2 * P, H * n[k] / a**2 * P) for k in range(3)}
        assume = [ci * ci <= 0.999] if "b" in d else []
        if "b" not in d:
            eq["vis-viva"] = (0.5 * dot(v, v) * r * a / mu, (a - 0.5 * r) )
        return dict(assume=assume, eq=eq)
    return Ob(f"dynamics-{cfg}", fn, {"E": (-13, 13), **V(cfg)}, stubs=KeplerCut())


def third(cfg):
    def fn(*p):
        body, d = build(cfg, p)
        P = mag(body.period, ureg.d)
        a = mag(body.semimajor, ureg.R_sun)
        mt = d["m0"] + d.get("m", 0.0)
        eq = {"third law": (4 * jnp.pi**2 * a * a * a / (GRAV * mt * P * P), 1.0),
              "total mass": (mag(body.total_mass, ureg.M_sun), mt)}
        if "P" in cfg.split("-"):
            eq["period kept"] = (P, d["size"])
        else:
            eq["semimajor kept"] = (a, d["size"])
        return dict(eq=eq)
    return Ob(f"third-law-{cfg}", fn, V(cfg), tol=1e-7, rtol=1e-7)


def periodic(cfg, n):
    def fn(*p):
        body, d, E, e, a, P, mt, t = setup(cfg, p)
        X = mags(body.relative_position(t * ureg.d), ureg.R_sun)
        Y = mags(body.relative_position((t + n * P) * ureg.d), ureg.R_sun)
        v = mags(body.relative_velocity(t * ureg.d), ureg.R_sun / ureg.d)
        w = mags(body.relative_velocity((t + n * P) * ureg.d), ureg.R_sun / ureg.d)
        return dict(eq={**{f"p{k}": (X[k], Y[k]) for k in range(3)}, **{f"v{k}": (v[k], w[k]) for k in range(3)}})
    return Ob(f"periodic{n:+d}-{cfg}", fn, {"E": (-13, 13), **V(cfg)}, stubs=KeplerCut())


def central_from_orbit(withm):
    def fn(P, a, R, m):
        kw = dict(body_mass=m * ureg.M_sun) if withm else {}
        c = Central.from_orbital_properties(period=P * ureg.d, semimajor=a * ureg.R_sun, radius=R * ureg.R_sun, **kw)
        M = mag(c.mass, ureg.M_sun)
        mt = M + (m if withm else 0.0)
        rho = mag(c.density, ureg.M_sun / ureg.R_sun**3)
        o = OrbitalBody(c, Body(period=P * ureg.d, **(dict(mass=m * ureg.M_sun) if withm else {})))
        a2 = mag(o.semimajor, ureg.R_sun)
        return dict(assume=[M >= 0.01],
                    eq={"third law": (GRAV * mt * P * P / (4 * jnp.pi**2 * a**3), 1.0), "radius": (mag(c.radius, ureg.R_sun), R),
                        "density": (rho * 4 * jnp.pi * R**3 / (3 * M), 1.0), "round trip": ((a2 / a)**3, 1.0)})
    return Ob("central-from-orbit" + ("-m" if withm else ""), fn, {"P": (0.5, 30), "a": (5, 60), "R": (0.1, 3), "m": (0.001, 0.5)}, tol=1e-7)


def central_density(which):
    def fn(x, y):
        kw = {which[0]: x, which[1]: y}
        c = Central(**kw)
        M, R, rho = mag(c.mass, ureg.M_sun), mag(c.radius, ureg.R_sun), mag(c.density, ureg.M_sun / ureg.R_sun**3)
        got = {"mass": M, "radius": R, "density": rho}
        return dict(eq={"M = 4/3 pi R^3 rho": (4 * jnp.pi * R * R * R * rho / (3 * M), 1.0),
                        "first kept": (got[which[0]], x), "second kept": (got[which[1]], y)},
                    le={"positive": (0.0, got[({"mass", "radius", "density"} - set(which)).pop()])})
    return Ob("central-" + "-".join(which), fn, {"x": (0.1, 5), "y": (0.1, 5)})


def obligations(tier):
    cfgs = CONFIGS + MASSLESS if tier == "quick" else ALL
    obs = [third(c) for c in cfgs] + [ellipse(c) for c in cfgs] + [dynamics(c) for c in cfgs]
    obs += [periodic(c, n) for c in (CONFIGS + MASSLESS if tier == "thorough" else cfgs[::3]) for n in ((1,) if tier == "quick" else (-3, -1, 1, 2))]
    obs += [central_from_orbit(w) for w in (False, True)]
    obs += [central_density(w) for w in (("mass", "radius"), ("mass", "density"), ("radius", "density"))]
    return obs
