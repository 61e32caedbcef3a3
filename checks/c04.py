"""Transit and periastron ephemerides: where the body is at its reference times."""
import jax.numpy as jnp

from checks.common import mag, mags
from checks.orbits import CONFIGS, V, build
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

BOUNDS = "central mass/radius in [0.1,3], body mass in [0,0.5], period in [0.5,30] d or semi-major axis in [5,60] R_sun, eccentricity in [0,0.95], every angle of periastron/inclination/node, transit numbers -2..3"


def transit(cfg, n):
    def fn(*p):
        body, d = build(cfg, p)
        P = mag(body.period, ureg.d)
        t = mag(body.time_transit, ureg.d) + n * P
        X, Y, Z = mags(body.relative_position(t * ureg.d), ureg.R_sun)
        b = mag(body.impact_param) * d["r0"]
        if "O" in d:
            x, y = b * jnp.sin(d["O"]), -b * jnp.cos(d["O"])
        else:
            x, y = 0.0, -b
        out = dict(assume=[], eq={"X": (X, x), "Y": (Y, y)})
        e, sw = (d["e"], jnp.sin(d["w"])) if "e" in d else (0.0, 0.0)
        a = mag(body.semimajor, ureg.R_sun)
        if "i" in d:
            si, ci = jnp.sin(d["i"]), jnp.cos(d["i"])
            out["eq"]["cos i"] = (mag(body.cos_inclination), ci)
        elif "b" in d:
            ci = d["b"] * d["r0"] / a * (1 + e * sw) / (1 - e * e)
            out["assume"] = [ci * ci <= 0.999]
            out["eq"]["cos i"] = (mag(body.cos_inclination), ci)
            out["eq"]["b"] = (mag(body.impact_param), d["b"])
        else:
            si, ci = 1.0, 0.0
        # in front of the star, at the orbital distance
        r = a * (1 - e * e) / (1 + e * sw)
        if "b" in d:
            out["eq"]["Z"] = (Z * Z, r * r * (1 - ci * ci))
            out["le"] = {"in front": (0.0, Z)}
        else:
            out["eq"]["Z"] = (Z, r * si)
        if "t0" in d and "tp" not in cfg.split("-"):
            out["eq"]["t0"] = (mag(body.time_transit, ureg.d), d["t0"])
        return out
    return Ob(f"transit{n:+d}-{cfg}", fn, V(cfg), stubs=KeplerCut())


def peri(cfg, n):
    def fn(*p):
        body, d = build(cfg, p)
        P = mag(body.period, ureg.d)
        t = mag(body.time_peri, ureg.d) + n * P
        a = mag(body.semimajor, ureg.R_sun)
        X, Y, Z = mags(body.relative_position(t * ureg.d), ureg.R_sun)
        # direction of periastron from the angles alone
        w = d["w"]
        ci, si = mag(body.cos_inclination), mag(body.sin_inclination)
        q = a * (1 - d["e"])
        x, y, z = -q * jnp.cos(w), -q * jnp.sin(w) * ci, q * jnp.sin(w) * si
        if "O" in d:
            O = d["O"]
            x, y = x * jnp.cos(O) - y * jnp.sin(O), x * jnp.sin(O) + y * jnp.cos(O)
        assume = [ci * ci <= 0.999] if "b" in d else []
        eq = {"X": (X, x), "Y": (Y, y), "Z": (Z, z)}
        Xa, Ya, Za = mags(body.relative_position((t + 0.5 * P) * ureg.d), ureg.R_sun)
        s = -(1 + d["e"])
        eq.update({"Xap": (Xa * (1 - d["e"]), s * x), "Yap": (Ya * (1 - d["e"]), s * y), "Zap": (Za * (1 - d["e"]), s * z)})
        if "tp" in cfg.split("-"):
            eq["time_peri"] = (mag(body.time_peri, ureg.d), d["t0"])
        return dict(assume=assume, eq=eq)
    return Ob(f"peri{n:+d}-{cfg}", fn, V(cfg), stubs=KeplerCut())


def obligations(tier):
    ns = (0, 1) if tier == "quick" else (-2, -1, 0, 1, 2, 3)
    cfgs = list(CONFIGS) + ["eccm90-mass-inc-P"]
    return [transit(c, n) for c in cfgs for n in ns] + [
        peri(c, n) for c in CONFIGS if c.startswith("ecc") for n in ns]
