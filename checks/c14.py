"""Light curves: geometry and flux combined per body and per time."""
import jax
import jax.numpy as jnp

from checks.common import mag, mags
from jaxoplanet.core.limb_dark import light_curve as core_light_curve
from jaxoplanet.light_curves.emission import light_curve as emission_light_curve
from jaxoplanet.light_curves.limb_dark import light_curve
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
from jaxoplanet.starry.light_curves import light_curve as surface_system_light_curve, surface_light_curve
from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jaxoplanet.units import unit_registry as ureg
from jsym.cuts import Cuts, KeplerCut, LimbDarkCut, SolutionCut
from jsym.ob import Ob

BOUNDS = ("1 to 3 bodies (equal and different structure), scalar times and arrays of shape (2,) and (2,1), every limb-darkening vector of length 0..4, "
          "every orbit in the stated box, radii 0.01..3 times the stellar radius (either object may be the larger one), amplitudes in [0,5]; maps of degree <= 2; "
          "exact coincidence of the line-of-sight coordinate with 0 excluded")
ASSUMPTIONS = ["the flux functions of one occultor (core.limb_dark.light_curve, starry solution_vector) and the Kepler solver are uninterpreted functions here; they are decided by C09/C10/C21 and C01"]

CUT = lambda: Cuts(KeplerCut(), LimbDarkCut(), SolutionCut())
VK = {"P": (0.5, 30), "t0": (-5, 5), "inc": (0.1, 3), "r": (0.01, 3), "e": (0, 0.9), "w": (-3, 3), "M": (0.1, 3), "R": (0.1, 3)}


def flux(u, x, y, z, rs, rp, order=10):
    """the rule: limb-darkened flux change at the projected separation in stellar radii, in front only"""
    b = jnp.sqrt(x**2 + y**2) / rs
    return jnp.where(z > 0, core_light_curve(u, b, rp / rs, order=order), 0.0)


def us(u, n):
    return [u[i] for i in range(n)]


def transit(n, shape, order=None):
    def fn(P, D, t0, b, k, t, u):
        orbit = TransitOrbit(period=P, duration=D, time_transit=t0, impact_param=b, radius_ratio=k)
        kw = {} if order is None else {"order": order}
        args = () if n == 0 else (u[:n],)
        out = light_curve(orbit, *args, **kw)(t * ureg.d)
        eq = {"plain time": (light_curve(orbit, *args, **kw)(t), out)}
        if n > 1:
            eq["separate coefficients"] = (light_curve(orbit, *us(u, n), **kw)(t), out)
            eq["mixed coefficients"] = (light_curve(orbit, u[0], u[1:n], **kw)(t), out)
        tf, of = jnp.reshape(t, (-1,)), jnp.reshape(out, (-1,))
        assume = []
        for i in range(tf.shape[0]):
            x, y, z = mags(orbit.relative_position(tf[i] * ureg.d), ureg.dimensionless)
            eq[f"time {i}"] = (of[i], flux(u[:n], x, y, z, 1.0, k, order or 10))
        return dict(eq=eq, true={"shape": jnp.asarray(out.shape == t.shape)})
    return Ob(f"transit-u{n}-{'x'.join(map(str, shape)) or 'scalar'}{'' if order is None else '-o%d' % order}", fn,
              {"P": (1, 20), "D": (0.05, 0.5), "t0": (-3, 3), "b": (0, 1.2), "k": (0.01, 2), "t": (shape, -5, 5), "u": ((max(n, 1),), 0, 0.5)}, stubs=CUT())


def kepler(n, shape):
    def fn(t, u, *p):
        d = dict(zip(VK, p))
        orbit = OrbitalBody(Central(mass=d["M"], radius=d["R"]), Body(period=d["P"], time_transit=d["t0"], inclination=d["inc"], radius=d["r"], eccentricity=d["e"], omega_peri=d["w"]))
        out = light_curve(orbit, u[:n])(t)
        tf, of = jnp.reshape(t, (-1,)), jnp.reshape(out, (-1,))
        eq, assume = {}, []
        for i in range(tf.shape[0]):
            x, y, z = mags(orbit.relative_position(tf[i] * ureg.d), ureg.R_sun)
            assume.append(z != 0)
            eq[f"time {i}"] = (of[i], flux(u[:n], x, y, z, d["R"], d["r"]))
        return dict(assume=assume, eq=eq, true={"shape": jnp.asarray(out.shape == t.shape)})
    return Ob(f"kepler-u{n}-{'x'.join(map(str, shape)) or 'scalar'}", fn, {"t": (shape, -5, 5), "u": ((max(n, 1),), 0, 0.5), **VK}, stubs=CUT())


VS = {"P": ((3,), 0.5, 30), "t0": ((3,), -5, 5), "inc": ((3,), 0.1, 3), "r": ((3,), 0.01, 3), "M": (0.1, 3), "R": (0.1, 3)}


def bodies(nb, mixed, P, t0, inc, r):
    out = []
    for k in range(nb):
        kw = dict(period=P[k], time_transit=t0[k], inclination=inc[k], radius=r[k])
        if mixed and k == 1:
            kw.update(eccentricity=0.3, omega_peri=0.7)
        if mixed and k == 0:
            kw = dict(semimajor=5 * P[k], time_transit=t0[k], impact_param=0.3 * inc[k], radius=r[k], mass=0.01)
        out.append(Body(**kw))
    return out


def system(nb, mixed, shape):
    def fn(t, u, P, t0, inc, r, M, R):
        c = Central(mass=M, radius=R)
        bs = bodies(nb, mixed, P, t0, inc, r)
        s = System(c, bodies=bs)
        out = light_curve(s, u)(t)
        tf, of = jnp.reshape(t, (-1,)), jnp.reshape(out, (-1, nb))
        eq, assume = {}, []
        for k, b in enumerate(bs):
            o = OrbitalBody(c, b)
            for i in range(tf.shape[0]):
                x, y, z = mags(o.relative_position(tf[i] * ureg.d), ureg.R_sun)
                assume.append(z != 0)
                eq[f"body {k} time {i}"] = (of[i, k], flux(u, x, y, z, R, r[k]))
        return dict(assume=assume, eq=eq, true={"shape": jnp.asarray(out.shape == t.shape + (nb,))})
    return Ob(f"system-{nb}{'-mixed' if mixed else ''}-{'x'.join(map(str, shape)) or 'scalar'}", fn, {"t": (shape, -5, 5), "u": ((2,), 0, 0.5), **VS}, stubs=CUT())


def emission(nb, mixed, shape, dark=False, nu=(2, 2)):
    """star: 1 + changes by the bodies in front, times its amplitude; bodies: eclipsed by the star when behind it"""
    def fn(t, u, v, amp, P, t0, inc, r, M, R):
        c = Central(mass=M, radius=R)
        bs = bodies(nb, mixed, P, t0, inc, r)
        sur = [None if dark and k == 0 else Surface(u=us(v[k], nu[1]) if k != 1 else us(v[k], 1), amplitude=amp[k], normalize=False) for k in range(nb)]
        s = SurfaceSystem(c, Surface(u=us(u, nu[0]), amplitude=amp[3], normalize=False), bodies=list(zip(bs, sur)))
        out = emission_light_curve(s)(t)
        ref = surface_system_light_curve(s, order=10)(t)
        tf, of, rf = jnp.reshape(t, (-1,)), jnp.reshape(out, (-1, nb + 1)), jnp.reshape(ref, (-1, nb + 1))
        eq, assume = {}, []
        for i in range(tf.shape[0]):
            star = 1.0
            for k, b in enumerate(bs):
                o = OrbitalBody(c, b)
                x, y, z = mags(o.relative_position(tf[i] * ureg.d), ureg.R_sun)
                assume.append(z != 0)
                star = star + flux(u[:nu[0]], x, y, z, R, r[k])
                if sur[k] is None:
                    body = 0.0
                else:
                    body = amp[k] * (1 + flux(v[k][:nu[1]] if k != 1 else v[k][:1], -x, -y, -z, r[k], R))
                eq[f"body {k} time {i}"] = (of[i, k + 1], body)
            eq[f"star time {i}"] = (of[i, 0], amp[3] * star)
        return dict(assume=assume, eq=eq, true={"shape": jnp.asarray(out.shape == t.shape + (nb + 1,) == ref.shape)})
    return Ob(f"emission-{nb}{'-mixed' if mixed else ''}{'-dark' if dark else ''}{'' if nu == (2, 2) else '-u%d%d' % nu}-{'x'.join(map(str, shape)) or 'scalar'}", fn,
              {"t": (shape, -5, 5), "u": ((2,), 0, 0.5), "v": ((3, 2), 0, 0.5), "amp": ((4,), 0, 5), **VS}, stubs=CUT())


def map_of(y, deg):
    return Ylm.from_dense(y[: (deg + 1) ** 2], normalize=False)


def surfaces(nb, mixed, kinds, shape=(), cdeg=0):
    """surface systems: the star and each body have the surface light curve with the other objects as occultors"""
    def fn(t, u, y, amp, P, t0, inc, r, M, R, prot, phase):
        c = Central(mass=M, radius=R)
        bs = bodies(nb, mixed, P, t0, inc, r)

        def surf(kind, k, uu=()):
            if kind is None:
                return None
            kw = dict(u=us(uu, len(uu)), amplitude=amp[k], normalize=False, period=prot[k], phase=phase[k])
            if kind > 0:
                kw["y"] = map_of(y[k], kind)
                kw.update(inc=0.4 + 0.2 * k, obl=0.3 - 0.1 * k)
            return Surface(**kw)
        sur = [surf(kd, k, u[k][:1]) for k, kd in enumerate(kinds)]
        cs = surf(cdeg, 3, u[3])
        s = SurfaceSystem(c, cs, bodies=list(zip(bs, sur)))
        out = surface_system_light_curve(s, order=7)(t)
        tf, of = jnp.reshape(t, (-1,)), jnp.reshape(out, (-1, nb + 1))
        eq, assume = {}, []
        for i in range(tf.shape[0]):
            th = 2 * jnp.pi * tf[i] / prot + phase
            free = surface_light_curve(cs, theta=th[3])
            star = free
            for k, b in enumerate(bs):
                o = OrbitalBody(c, b)
                x, y_, z = mags(o.relative_position(tf[i] * ureg.d), ureg.R_sun)
                assume.append(z != 0)
                star = star + (surface_light_curve(cs, r[k] / R, x / R, y_ / R, z / R, th[3], order=7) - free)
                body = 0.0 if sur[k] is None else surface_light_curve(sur[k], R / r[k], -x / r[k], -y_ / r[k], -z / r[k], th[k], order=7)
                eq[f"body {k} time {i}"] = (of[i, k + 1], body)
            eq[f"star time {i}"] = (of[i, 0], star)
        return dict(assume=assume, eq=eq, true={"shape": jnp.asarray(out.shape == t.shape + (nb + 1,))})
    v = {"t": (shape, -5, 5), "u": ((4, 2), 0, 0.5), "y": ((4, 9), -0.3, 1), "amp": ((4,), 0, 5), **VS, "prot": ((4,), 0.5, 30), "phase": ((4,), -3, 3)}
    return Ob(f"surfaces-{nb}{'-mixed' if mixed else ''}-{'_'.join(map(str, kinds))}-star{cdeg}-{'x'.join(map(str, shape)) or 'scalar'}", fn, v, stubs=CUT())


def alone():
    """a surface system without bodies has the phase curve of the star"""
    def fn(t, u, y, prot, phase, amp):
        s = Surface(y=map_of(y, 1), u=us(u, 2), inc=1.1, obl=0.2, period=prot, phase=phase, amplitude=amp, normalize=False)
        out = surface_system_light_curve(SurfaceSystem(Central(), s))(t)
        eq = {f"{i}": (out[i, 0], surface_light_curve(s, theta=2 * jnp.pi * t[i] / prot + phase)) for i in range(2)}
        return dict(eq=eq, true={"shape": jnp.asarray(out.shape == (2, 1))})
    return Ob("alone", fn, {"t": ((2,), -5, 5), "u": ((2,), 0, 0.5), "y": ((4,), -0.3, 1), "prot": (0.5, 30), "phase": (-3, 3), "amp": (0, 5)}, stubs=CUT())


def gate(deg, nu):
    """the rule of surface_light_curve: occulted in front and overlapping, phase curve otherwise"""
    def fn(r, x, y_, z, th, u, y, amp):
        s = Surface(y=map_of(y, deg), u=us(u, nu), inc=1.1, obl=0.2, amplitude=amp, normalize=False) if deg else Surface(u=us(u, nu), amplitude=amp, normalize=False)
        out = surface_light_curve(s, r, x, y_, z, th)
        free = surface_light_curve(s, theta=th)
        b = jnp.sqrt(x * x + y_ * y_)
        eq = {"behind": (jnp.where(z <= 0, out, free), free), "no overlap": (jnp.where(b >= 1 + r, out, free), free)}
        if deg == 0:
            c = amp * (1 + core_light_curve(jnp.stack(us(u, nu)) if nu else jnp.array([]), b, r, order=20))
            occ = (z > 0) & (b < 1 + r)
            eq["front"] = (jnp.where(occ, out, 0.0), jnp.where(occ, c, 0.0))
        eq["front does not depend on the distance"] = (jnp.where(z > 0, out, 0.0), jnp.where(z > 0, surface_light_curve(s, r, x, y_, 1.0, th), 0.0))
        eq["default position"] = (surface_light_curve(s, r, y=y_, z=z, theta=th), surface_light_curve(s, r, 0.0, y_, z, th))
        eq["default distance"] = (surface_light_curve(s, r, x, y_, theta=th), free)
        return dict(eq=eq)
    return Ob(f"gate-deg{deg}-u{nu}", fn, {"r": (0.01, 3), "x": (-4, 4), "y_": (-4, 4), "z": (-5, 5), "th": (-6, 6), "u": ((2,), 0, 0.5), "y": ((9,), -0.3, 1), "amp": (0, 5)}, stubs=CUT())


def obligations(tier):
    th = tier != "quick"
    obs = [transit(n, s) for n in (0, 1, 2, 4) for s in ((), (2,))] + [transit(2, (2, 1)), transit(2, (), 5)]
    obs += [kepler(n, s) for n, s in ((0, ()), (2, (2,)), (3, (1, 2)))]
    obs += [system(nb, m, s) for nb, m in ((1, False), (2, False), (2, True), (3, True)) for s in ((), (2,))]
    obs += [emission(nb, m, s) for nb, m in ((1, False), (2, False), (2, True), (3, True)) for s in ((), (2,)) if th or (nb, s) != (3, (2,))] + [emission(2, True, (), True), emission(1, False, (), True), emission(1, False, (), nu=(0, 0)), emission(2, False, (), nu=(1, 0)), emission(2, True, (), nu=(0, 1))]
    obs += [surfaces(1, False, (0,)), surfaces(1, False, (1,)), surfaces(1, False, (None,)), surfaces(2, False, (0, 0)), surfaces(2, False, (0, None)), surfaces(1, False, (0,), (2,)), surfaces(2, True, (0, 0)),
            surfaces(1, False, (0,), (), 1), surfaces(2, False, (None, None), (), 1)]
    if th:
        obs += [surfaces(2, True, (0, 0), (2,)), surfaces(2, True, (1, None)), surfaces(3, False, (0, 1, None)), surfaces(2, False, (1, 1), (2,)), surfaces(2, False, (None, 1), (), 2)]
    obs += [alone()] + [gate(d, n) for d in (0, 1) for n in (0, 2)] + ([gate(2, 1)] if th else [])
    return obs
