"""Velocities are the exact time derivatives of positions, in every frame."""
import jax
import jax.numpy as jnp

from checks.common import mag, mags
from checks.orbits import CONFIGS, build, V
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import KeplerCut
from jsym.ob import Ob

from checks.c04 import BOUNDS  # noqa: E402


def ob(cfg, frame, parallax=False):
    def fn(t, *p):
        body, _ = build(cfg, p, parallax)
        pos = getattr(body, {"body": "position", "central": "central_position", "relative": "relative_position"}[frame])
        vel = getattr(body, {"body": "velocity", "central": "central_velocity", "relative": "relative_velocity"}[frame])
        u = ureg.arcsec if parallax else ureg.R_sun
        f = lambda tt: mags(pos(tt * ureg.d), u)
        _, d = jax.jvp(f, (t,), (jnp.ones_like(t),))
        v = mags(vel(t * ureg.d), u / ureg.d)
        return dict(eq={"v%s" % "xyz"[k]: (v[k], d[k]) for k in range(3)})
    return Ob(f"{frame}-{cfg}" + ("-parallax" if parallax else ""), fn, {"t": (-5, 5), **V(cfg, parallax)}, stubs=KeplerCut())


def obligations(tier):
    return [ob(c, f) for c in CONFIGS for f in ("body", "central", "relative")] + [
        ob(c, f, True) for c in ("ecc-mass-inc-node-P", "circ-mass-b-P") for f in ("body", "central", "relative")]
