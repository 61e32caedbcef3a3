"""Builders for symbolic Keplerian orbits (all parametrisations of the public API)."""
import itertools

import jax.numpy as jnp

from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
from jaxoplanet.units import unit_registry as ureg

# circ|ecc|eccsc (sin/cos omega)   mass|massless   inc|b|edge   node|nodesc|''   P|a   tt|tp
CONFIGS = [
    "circ-mass-inc-P", "circ-mass-b-P", "circ-mass-edge-a",
    "ecc-mass-inc-node-P", "ecc-mass-b-P", "ecc-mass-inc-a", "ecc-mass-edge-P-tp",
    "eccsc-mass-inc-nodesc-P",
]

ALL = ["-".join(x for x in c if x) for c in itertools.product(
    ("circ", "ecc", "eccsc"), ("mass", ""), ("inc", "b", "edge"), ("", "node", "nodesc"), ("P", "a"), ("", "tp"))]
MASSLESS = ["ecc-inc-P", "circ-b-a", "ecc-edge-node-P-tp"]


def V(cfg, parallax=False):
    c = cfg.split("-")
    v = {"m0": (0.1, 3), "r0": (0.1, 3)}
    v["size"] = (0.5, 30) if "P" in c else (5, 60)
    v["t0"] = (-5, 5)
    if "mass" in c:
        v["m"] = (0.0, 0.5)
    if "ecc" in c:
        v["e"] = (0, 0.95)
        v["w"] = (-3.1, 3.1)
    if "eccsc" in c:
        v["e"] = (0, 0.95)
        v["w"] = (-3.1, 3.1)
    if "eccm90" in c:
        v["e"] = (0, 0.95)
    if "inc" in c:
        v["i"] = (0, 3.14)
    if "b" in c:
        v["b"] = (-1.2, 1.2)
    if "node" in c or "nodesc" in c:
        v["O"] = (-3.1, 3.1)
    if parallax:
        v["plx"] = (0.001, 0.5)
    return v


def build(cfg, p, parallax=False, **extra):
    c = cfg.split("-")
    d = dict(zip(V(cfg, parallax), p))
    kw = {}
    kw["period" if "P" in c else "semimajor"] = d["size"]
    kw["time_peri" if "tp" in c else "time_transit"] = d["t0"]
    if "mass" in c:
        kw["mass"] = d["m"]
    if "ecc" in c:
        kw["eccentricity"], kw["omega_peri"] = d["e"], d["w"]
    if "eccsc" in c:
        kw["eccentricity"] = d["e"]
        kw["sin_omega_peri"], kw["cos_omega_peri"] = jnp.sin(d["w"]), jnp.cos(d["w"])
    if "eccm90" in c:  # omega of exactly -90 degrees
        kw["eccentricity"] = d["e"]
        kw["sin_omega_peri"], kw["cos_omega_peri"] = -1.0, 0.0
        d["w"] = -0.5 * jnp.pi
    if "inc" in c:
        kw["inclination"] = d["i"]
    if "b" in c:
        kw["impact_param"] = d["b"]
    if "node" in c:
        kw["asc_node"] = d["O"]
    if "nodesc" in c:
        kw["sin_asc_node"], kw["cos_asc_node"] = jnp.sin(d["O"]), jnp.cos(d["O"])
    if parallax:
        kw["parallax"] = d["plx"]
    kw.update(extra)
    return OrbitalBody(Central(mass=d["m0"], radius=d["r0"]), Body(**kw)), d
