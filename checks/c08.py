"""Results do not depend on the units in which inputs are given."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from pint import DimensionalityError
from typing import Any

from checks.common import AU, DAY, GM_SUN, R_SUN, mag, mags
from jaxoplanet import units
from jaxoplanet.light_curves.limb_dark import light_curve
from jaxoplanet.light_curves.transforms import integrate, interpolate
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.orbits.ttv import TTVOrbit
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

BOUNDS = ("every magnitude in the stated ranges (up to +-100 in the given unit), for each listed unit of each dimension and each unit-carrying argument of the public "
          "constructors and functions, positional and keyword, scalar and array (length 3), nested containers up to depth 3")

G = 6.67430e-11
PI = np.pi
# dimension: default unit, {unit: size in the default unit}, from the IAU and SI definitions
TABLE = {
    "length": ("R_sun", {"m": 1 / R_SUN, "cm": 0.01 / R_SUN, "km": 1e3 / R_SUN, "AU": AU / R_SUN, "R_jupiter": 7.1492e7 / R_SUN,
                         "R_earth": 6.3781e6 / R_SUN, "pc": AU * 648000 / PI / R_SUN, "R_sun": 1.0, "au": AU / R_SUN, "R_jup": 7.1492e7 / R_SUN}),
    "time": ("day", {"s": 1 / DAY, "minute": 1 / 1440, "hour": 1 / 24, "year": 365.25, "week": 7.0, "ms": 1e-3 / DAY, "d": 1.0}),
    "mass": ("M_sun", {"kg": G / GM_SUN, "g": 1e-3 * G / GM_SUN, "M_jupiter": 1.2668653e17 / GM_SUN, "M_earth": 3.986004e14 / GM_SUN,
                       "M_jup": 1.2668653e17 / GM_SUN, "M_sun": 1.0}),
    "angle": ("radian", {"degree": PI / 180, "arcminute": PI / 180 / 60, "arcsec": PI / 180 / 3600, "turn": 2 * PI, "radian": 1.0}),
    "small angle": ("arcsec", {"degree": 3600.0, "radian": 648000 / PI, "mas": 1e-3, "arcsec": 1.0}),
    "number": ("dimensionless", {"percent": 0.01, "ppm": 1e-6, "dimensionless": 1.0}),
    "velocity": ("R_sun/day", {"m/s": DAY / R_SUN, "km/s": 1e3 * DAY / R_SUN, "AU/year": AU / R_SUN / 365.25}),
    "density": ("M_sun/R_sun**3", {"g/cm**3": 1e3 * G / GM_SUN * R_SUN**3, "kg/m**3": G / GM_SUN * R_SUN**3, "M_sun/R_sun**3": 1.0}),
    "rate": ("1/day", {"Hz": DAY, "1/hour": 24.0, "1/year": 1 / 365.25}),
}


def num(x):
    return x.magnitude if hasattr(x, "magnitude") else x


def factor(unit, default):
    """conversion factor used by the registry; its value is checked against TABLE by the `factors` obligations"""
    return float((1.0 * ureg(str(unit))).to(ureg(str(default)).units).magnitude)


def units_of(s):
    return ureg(s).units if isinstance(s, str) else s


def raises(f, exc=DimensionalityError):
    try:
        f()
    except exc:
        return jnp.asarray(True)
    return jnp.asarray(False)


def factors(dim):
    """the body of a decorated function and the fields of an object receive the converted value"""
    default, alt = TABLE[dim]
    d = units_of(default)

    class M(eqx.Module):
        x: Any = units.field(units=d)

    def fn(x, v):
        seen = []
        f = units.quantity_input(lambda a, b=None: seen.append((a, b)) or a, a=d, b=d)
        eq, true = {}, {}
        for u, k in alt.items():
            q = units_of(u)
            for how, r in (("positional", f(x * q)), ("keyword", f(a=x * q)), ("array", f(v * q)), ("field", M(x * q).x), ("second", (f(x, v * q), seen[-1][1])[1])):
                true[f"{u} {how} units"] = jnp.asarray(r.units == d)
                eq[f"{u} {how}"] = (r.magnitude / k, v if how in ("array", "second") else x)
        r = f(x)
        true["plain units"] = jnp.asarray(r.units == d)
        eq["plain"] = (r.magnitude, x)
        eq["plain field"] = (mag(M(x).x), x)
        true["none"] = jnp.asarray(seen[-1][1] is None and M(None).x is None)
        for other, (o, _) in TABLE.items():
            if units_of(o).dimensionality != d.dimensionality:
                true[f"{other} is not {dim}"] = raises(lambda: f(x * units_of(o)))
                true[f"{other} is not {dim} (keyword, second)"] = raises(lambda: f(x, b=x * units_of(o)))
                true[f"field {other} is not {dim}"] = raises(lambda: M(x * units_of(o)))
        return dict(eq=eq, true=true)
    return Ob(f"factors-{dim}", fn, {"x": (-100, 100), "v": ((3,), -100, 100)})


def signatures():
    """binding of arguments: defaults, order, keywords, variable arguments, strictness, containers"""
    def fn(x, y, z):
        m, s, cm, ms, km = ureg.m, ureg.s, ureg.cm, ureg.ms, ureg.km
        eq, true = {}, {}

        @units.quantity_input(a=m, c=s)
        def f(a, b, c=2.0, *args, d=None, **kw):
            return a, b, c, args, d, kw
        a, b, c, args, d, kw = f(x * km, y, z * ms, 7.0, y * cm, d=x * cm, e=z * cm)
        eq.update({"a": (mag(a, m), 1000 * x), "a magnitude": (a.magnitude, 1000 * x), "b": (b, y), "c": (c.magnitude, z / 1000),
                   "args": (args[0], 7.0), "args2": (args[1].magnitude, y), "d": (d.magnitude, x), "e": (kw["e"].magnitude, z)})
        true["units"] = jnp.asarray(a.units == m and c.units == s and args[1].units == cm and d.units == cm and kw["e"].units == cm)
        a, b, c, args, d, kw = f(c=z * s, b=y * cm, a=x)
        eq.update({"kw a": (a.magnitude, x), "kw b": (b.magnitude, y), "kw c": (c.magnitude, z)})
        true["kw units"] = jnp.asarray(a.units == m and b.units == cm and c.units == s and args == () and kw == {} and d is None)
        c = f(x, y)[2]
        eq["default"] = (mag(c, s), 2.0)
        true["default units"] = jnp.asarray(c.units == s)
        # string units, None units, a method and a class
        g = units.quantity_input(lambda p, q: (p, q), p="m", q=None)
        p, q = g(x * cm, y * cm)
        eq.update({"string": (p.magnitude, x / 100), "none unit": (q.magnitude, y)})

        class K:
            @units.quantity_input(t=s)
            def meth(self, t, *, k=1.0):
                return t * k

            @classmethod
            @units.quantity_input(t=s)
            def cl(cls, *, t):
                return t
        eq["method"] = (K().meth(x * ms, k=y).magnitude, x * y / 1000)
        eq["classmethod"] = (K.cl(t=x * ms).magnitude, x / 1000)
        # strict
        h = units.quantity_input(lambda p: p, p=m, _strict=True)
        eq["strict"] = (h(x * cm).magnitude, x / 100)
        true["strict plain"] = raises(lambda: h(x), ValueError)
        true["strict dimension"] = raises(lambda: h(x * s))
        # containers: leaf by leaf
        t = units.quantity_input(lambda par, o=1.0: par, par={"a": m, "b": (s, None, [m])})
        r = t({"a": x * cm, "b": (y * ms, z * cm, [x])})
        eq.update({"tree a": (r["a"].magnitude, x / 100), "tree b0": (r["b"][0].magnitude, y / 1000), "tree b1": (r["b"][1].magnitude, z),
                   "tree b2": (r["b"][2][0].magnitude, x)})
        true["tree units"] = jnp.asarray(r["a"].units == m and r["b"][0].units == s and r["b"][1].units == cm and r["b"][2][0].units == m)
        true["tree dimension"] = raises(lambda: t({"a": x * cm, "b": (y * m, z, [x])}))
        true["tree dimension deep"] = raises(lambda: t({"a": x, "b": (y, z, [x * s])}))

        class F(eqx.Module):
            par: Any = units.field(units={"a": m, "b": (s, None)})
            q: Any = units.field(default=None, units=m)
            w: Any = units.field(units=m, converter=lambda v: 2 * v, default=1.0)
            st: Any = units.field(units=m, strict=True, default=None)
        o = F(par={"a": x * cm, "b": (y * ms, z)}, w=x * cm)
        eq.update({"field a": (o.par["a"].magnitude, x / 100), "field b": (o.par["b"][0].magnitude, y / 1000), "field none": (o.par["b"][1], z),
                   "converter": (o.w.magnitude, x / 50)})
        eq["converter default"] = (mag(F(par={"a": x, "b": (y, z)}).w, m), 2.0)
        true["field default"] = jnp.asarray(o.q is None and o.st is None)
        true["field strict"] = raises(lambda: F(par={"a": x, "b": (y, z)}, st=x), ValueError)
        # under the transformations of JAX
        j = jax.jit(units.quantity_input(lambda p: p, p=m))(x * cm)
        eq["jit"] = (mag(j, m), x / 100)
        gr = jax.grad(lambda v: (units.quantity_input(lambda p: p * p, p=m)(v * cm)).magnitude)(x)
        eq["grad"] = (gr, 2 * x / 1e4)
        true["unknown name"] = raises(lambda: units.quantity_input(lambda p: p, zz=m), TypeError)
        true["variable arguments"] = raises(lambda: units.quantity_input(lambda *p: p, p=m), TypeError)
        return dict(eq=eq, true=true)
    return Ob("signatures", fn, {"x": (-100, 100), "y": (-100, 100), "z": (-100, 100)})


# -- the public interface: name of the argument -> dimension
def modes(names):
    """three ways of giving each argument: in the n-th alternative unit; as a quantity in the default unit; plain"""
    def alt(n):
        def conv(name, x):
            default, table = TABLE[names[name]]
            us = [u for u in table if table[u] != 1.0]
            k = factor(us[n % len(us)], default)
            x = x * (1 / k)
            return x * units_of(us[n % len(us)]), x * k
        return conv
    return alt


def compare(names, make, observe, values, n, one=None):
    """observe(make(alternative units)) = observe(make(plain numbers))"""
    conv = modes(names)(n)
    a, b, c = {}, {}, {}
    for k, x in values.items():
        q, p = conv(k, x)
        d = units_of(TABLE[names[k]][0])
        if one is not None and k != one:
            q = p
        a[k], b[k], c[k] = q, p, p * d
    eq = {}
    oa, ob, oc = (observe(make(v)) for v in (a, b, c))
    for k in ob:
        eq[k] = (oa[k], ob[k])
        eq[k + " (quantity)"] = (oc[k], ob[k])
    return eq


def wrong(names, make, values):
    true = {}
    for k in names:
        for other, (o, _) in TABLE.items():
            if units_of(o).dimensionality != units_of(TABLE[names[k]][0]).dimensionality:
                v = {n: x for n, x in values.items()}
                v[k] = v[k] * units_of(o)
                true[f"{k} as {other}"] = raises(lambda: make(v))
    return true


CENTRAL = {"mass": "mass", "radius": "length", "density": "density"}
BODY = {"time_transit": "time", "time_peri": "time", "period": "time", "semimajor": "length", "inclination": "angle", "impact_param": "number",
        "eccentricity": "number", "omega_peri": "angle", "sin_omega_peri": "number", "cos_omega_peri": "number", "asc_node": "angle",
        "sin_asc_node": "number", "cos_asc_node": "number", "mass": "mass", "radius": "length", "radial_velocity_semiamplitude": "velocity",
        "parallax": "small angle"}
BODIES = [("time_transit", "period", "inclination", "eccentricity", "omega_peri", "asc_node", "mass", "radius"),
          ("time_peri", "semimajor", "impact_param", "eccentricity", "sin_omega_peri", "cos_omega_peri", "sin_asc_node", "cos_asc_node", "mass"),
          ("time_transit", "period", "inclination", "radial_velocity_semiamplitude", "parallax", "mass")]


def central(keys, n):
    def fn(*p):
        v = dict(zip(keys, p))
        names = {k: CENTRAL[k] for k in keys}
        mk = lambda w: Central(**w)
        obs = lambda c: {"mass": mag(c.mass, ureg.M_sun), "radius": mag(c.radius, ureg.R_sun), "density": mag(c.density, ureg.M_sun / ureg.R_sun**3),
                         "stored mass": mag(c.mass), "stored radius": mag(c.radius), "stored density": mag(c.density)}
        return dict(eq=compare(names, mk, obs, v, n), true=wrong(names, mk, v))
    return Ob(f"central-{'-'.join(keys)}-{n}", fn, {k: (0.5, 2) for k in keys}, rtol=1e-6)


def orbital(n):
    keys = ("period", "semimajor", "radius", "body_mass")
    names = dict(zip(keys, ("time", "length", "length", "mass")))

    def fn(*p):
        v = dict(zip(keys, p))
        mk = lambda w: Central.from_orbital_properties(**w)
        obs = lambda c: {"mass": mag(c.mass, ureg.M_sun), "radius": mag(c.radius, ureg.R_sun), "density": mag(c.density, ureg.M_sun / ureg.R_sun**3)}
        return dict(eq=compare(names, mk, obs, v, n), true=wrong(names, mk, v))
    return Ob(f"from_orbital_properties-{n}", fn, {"period": (1, 2), "semimajor": (1, 2), "radius": (1, 2), "body_mass": (0, 0.01)}, rtol=1e-6)


def body(i, n):
    keys = BODIES[i]
    names = {k: BODY[k] for k in keys}

    def fn(t, *p):
        v = dict(zip(keys, p))
        mk = lambda w: Body(**w)
        units_b = {k: units_of(TABLE[BODY[k]][0]) for k in keys}

        def obs(b):
            o = {}
            for k in keys:
                o[k] = mag(getattr(b, k), units_b[k])
                o["stored " + k] = mag(getattr(b, k))
            return o
        eq = compare(names, mk, obs, v, n)
        return dict(eq=eq, true=wrong(names, mk, v))
    return Ob(f"body-{i}-{n}", fn, {"t": (-5, 5), **{k: (0.1, 0.9) for k in keys}}, rtol=1e-6)


def orbit(i):
    """the orbit computed from a body in other units, and the methods with arguments in other units"""
    keys = BODIES[i]
    names = {k: BODY[k] for k in keys}

    def fn(t, plx, K, *p):
        v = dict(zip(keys, p))
        L = ureg.R_sun
        mk = lambda w: OrbitalBody(Central(mass=1.1, radius=0.9), Body(**w))

        def obs(b):
            q = t * ureg.day
            ang = "parallax" in keys
            u = ureg.arcsec if ang else L
            uv = (u if "radial_velocity_semiamplitude" not in keys else L) / ureg.day
            o = {"period": mag(b.period, ureg.day), "semimajor": mag(b.semimajor, L), "time_ref": mag(b.time_ref, ureg.day)}
            for nm in ("position", "central_position", "relative_position"):
                for k, x in enumerate(mags(getattr(b, nm)(q), u)):
                    o[f"{nm} {k}"] = x
            for k, x in enumerate(mags(b.relative_velocity(q), uv)):
                o[f"velocity {k}"] = x
            o["rv"] = mag(b.radial_velocity(q), uv)
            return o
        eq = compare(names, mk, obs, v, 1)
        # arguments of the methods
        b = mk(v)
        th = t * factor("hour", "day")
        ua = ureg.arcsec
        pl, pm = plx * factor("mas", "arcsec"), plx * ureg.mas
        for nm in ("position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity"):
            f = getattr(b, nm)
            for k, (x, y, z) in enumerate(zip(f(th), f(t * ureg.hour), f(t=t * ureg.hour))):
                eq[f"{nm} {k} hours"] = (mag(y), mag(x))
                eq[f"{nm} {k} hours keyword"] = (mag(z), mag(x))
            if "velocity" in nm:
                continue
            for k, (x, y) in enumerate(zip(f(th, parallax=pl), f(th, parallax=pm))):
                eq[f"{nm} {k} parallax"] = (mag(y), mag(x))
        eq["rv hours"] = (mag(b.radial_velocity(t * ureg.hour)), mag(b.radial_velocity(th)))
        true = {"time": raises(lambda: b.relative_position(t * ureg.m)), "time rv": raises(lambda: b.radial_velocity(t * ureg.m)),
                "parallax": raises(lambda: b.position(t, parallax=plx * ureg.m))}
        if "radial_velocity_semiamplitude" not in keys:
            u = ureg.km / ureg.s
            x = b.radial_velocity(th, semiamplitude=K * u)
            y = b.radial_velocity(th, semiamplitude=(K * u).to(ureg.R_sun / ureg.day))
            eq["semiamplitude"] = (mag(x, ureg.R_sun / ureg.day), mag(y, ureg.R_sun / ureg.day))
        return dict(eq=eq, true=true)
    return Ob(f"orbit-{i}", fn, {"t": (-5, 5), "plx": (1, 100), "K": (0.1, 1), **{k: (5, 9) if k == "semimajor" else (0.1, 0.9) for k in keys}}, stubs=KeplerCut(), rtol=1e-6, tol=1e-8)


TRANSIT = {"period": "time", "duration": "time", "speed": "rate", "time_transit": "time", "impact_param": "number", "radius_ratio": "number"}


def transit(keys, n):
    names = {k: TRANSIT[k] for k in keys}

    def fn(t, u, *p):
        v = dict(zip(keys, p))
        mk = lambda w: TransitOrbit(**w)

        def obs(o):
            r = {k: mag(getattr(o, k), units_of(TABLE[TRANSIT[k]][0])) for k in TRANSIT}
            for k, x in enumerate(mags(o.relative_position(t * ureg.d), ureg.dimensionless)):
                r[f"position {k}"] = x
            return r
        eq = compare(names, mk, obs, v, n)
        o = mk(v)
        th = t * factor("hour", "day")
        for k, (x, y, z) in enumerate(zip(o.relative_position(th), o.relative_position(t * ureg.hour), o.relative_position(th * ureg.d))):
            eq[f"hours {k}"], eq[f"days {k}"] = (mag(y), mag(x)), (mag(z), mag(x))
        true = wrong(names, mk, v)
        true["time"] = raises(lambda: o.relative_position(t * ureg.m))
        if n == 0:
            lc = light_curve(o, u)
            eq["light curve"] = (lc(t * ureg.hour), lc(th))
            eq["light curve days"] = (lc(th * ureg.d), lc(th))
            true["light curve time"] = raises(lambda: lc(t * ureg.m))
        return dict(eq=eq, true=true)
    return Ob(f"transit-{'-'.join(k[0] for k in keys)}-{n}", fn, {"t": (-5, 5), "u": ((2,), 0, 0.5), **{k: (0.1, 0.9) for k in keys}}, rtol=1e-6)


def ttv(mode, n):
    # the transit times and residuals are listed as quantities or plain days
    keys = ("duration", "impact_param", "radius_ratio") + (("period", "time_transit") if mode == "ttvs" else ())
    names = {k: TRANSIT[k] for k in keys}

    def fn(t, x, *p):
        v = dict(zip(keys, p))
        k = factor("hour", "day")
        base = jnp.array([0.0, 24.0, 48.0]) + x
        arr = base if mode == "times" else x
        arg = "transit_times" if mode == "times" else "ttvs"

        def obs(o):
            r = {q: mag(getattr(o, q)) for q in ("duration", "speed", "time_transit", "period", "impact_param", "radius_ratio")}
            r["times"], r["ttvs"] = o.transit_times[0], o.ttvs[0]
            r["t0"], r["P"] = o.linear_t0, o.linear_period
            return r
        eq = compare(names, lambda w: TTVOrbit(**w, **{arg: (arr * k,)}), obs, v, n)
        hours = obs(TTVOrbit(**v, **{arg: (arr * ureg.hour,)}))
        days = obs(TTVOrbit(**v, **{arg: (arr * k * ureg.d,)}))
        plain = obs(TTVOrbit(**v, **{arg: (arr * k,)}))
        for q in plain:
            eq[q + " hours"] = (hours[q], plain[q])
            eq[q + " days"] = (days[q], plain[q])
        return dict(eq=eq)
    return Ob(f"ttv-{mode}-{n}", fn, {"t": (-3, 3), "x": ((3,), -0.5, 0.5), **{k: (0.1, 0.9) for k in keys}}, rtol=1e-6)


def transforms():
    def fn(t, e, P, t0, w, F):
        k = factor("hour", "day")
        lc = lambda time: jnp.sin(mag(time, ureg.d)) if time.units == ureg.d else jnp.nan
        ref = integrate(lc, exposure_time=e * k)(t * k)
        eq = {}
        for a in (e * ureg.hour, e * k * ureg.d, e * k):
            for b in (t * ureg.hour, t * k * ureg.d, t * k):
                eq[f"integrate {len(eq)}"] = (integrate(lc, exposure_time=a)(b), ref)
        f = lambda time: F + 0 * mag(time, ureg.d)
        seen = []

        def g(time):
            seen.append(time)
            return F
        a = dict(period=P * k, time_transit=t0 * k, duration=w * k, num_samples=3)
        ref = interpolate(g, **a)(t * k)
        grid = mag(seen[-1], ureg.d)
        for b in (dict(a, period=P * ureg.hour), dict(a, time_transit=t0 * ureg.hour), dict(a, duration=w * ureg.hour), dict(a, period=P * k * ureg.d, duration=w * k * ureg.d)):
            o = interpolate(g, **b)
            eq[f"interpolate grid {len(eq)}"] = (mag(seen[-1], ureg.d), grid)
            eq[f"interpolate {len(eq)}"] = (o(t * k), ref)
            eq[f"interpolate hours {len(eq)}"] = (o(t * ureg.hour), ref)
        true = {"exposure": raises(lambda: integrate(lc, exposure_time=e * ureg.m)), "time": raises(lambda: integrate(lc, exposure_time=e)(t * ureg.m)),
                "period": raises(lambda: interpolate(g, **dict(a, period=P * ureg.m))), "itime": raises(lambda: interpolate(g, **a)(t * ureg.m)),
                "duration": raises(lambda: interpolate(g, **dict(a, duration=P * ureg.m))),
                "time_transit": raises(lambda: interpolate(g, **dict(a, time_transit=P * ureg.m)))}
        return dict(eq=eq, true=true)
    return Ob("transforms", fn, {"t": (-50, 50), "e": (0.1, 5), "P": (24, 48), "t0": (-20, 20), "w": (2, 20), "F": ((3,), -1, 1)})


def system():
    """systems: bodies added in any unit"""
    def fn(t, P, m, i, r, t0):
        c = Central(mass=1.0, radius=1.0)
        k = lambda u, d: factor(u, d)
        a = System(c).add_body(period=P * k("week", "day"), mass=m * k("M_jupiter", "M_sun"), inclination=i * k("degree", "radian"), radius=r * k("R_jupiter", "R_sun"),
                               time_transit=t0 * k("hour", "day")).add_body(period=3.0, radius=0.1)
        b = System(c).add_body(period=P * ureg.week, mass=m * ureg.M_jupiter, inclination=i * ureg.degree, radius=r * ureg.R_jupiter,
                               time_transit=t0 * ureg.hour).add_body(period=3.0 * ureg.d, radius=0.1 * ureg.R_sun)
        th = t * k("hour", "day")
        eq = {"radius": (mag(b.radius, ureg.R_sun), mag(a.radius, ureg.R_sun))}
        for nm in ("position", "relative_position", "velocity"):
            for j, (x, y, z) in enumerate(zip(getattr(a, nm)(th), getattr(b, nm)(t * ureg.hour), getattr(b, nm)(th * ureg.d))):
                eq[f"{nm} {j}"] = (mag(y), mag(x))
                eq[f"{nm} {j} days"] = (mag(z), mag(x))
        return dict(eq=eq)
    return Ob("system", fn, {"t": (-100, 100), "P": (0.5, 5), "m": (0, 10), "i": (0, 180), "r": (0.1, 2), "t0": (-100, 100)}, rtol=1e-6)


def obligations(tier):
    obs = [factors(d) for d in TABLE] + [signatures(), transforms(), system()]
    ns = range(3) if tier == "quick" else range(10)
    for n in ns:
        obs += [central(k, n) for k in (("mass", "radius"), ("mass", "density"), ("radius", "density"))] + [orbital(n)]
        obs += [body(i, n) for i in range(len(BODIES))]
        obs += [transit(k, n) for k in (("period", "duration", "time_transit", "impact_param", "radius_ratio"), ("period", "speed", "time_transit", "impact_param", "radius_ratio"))]
        obs += [ttv(m, n) for m in ("times", "ttvs")]
    return obs + [orbit(i) for i in range(len(BODIES))]
