"""Transit timing variations: every transit happens at its stated time; the linear ephemeris is the least-squares line."""
import jax.numpy as jnp

from checks.common import mag
from jaxoplanet.orbits import TransitOrbit
from jaxoplanet.orbits.ttv import TTVOrbit
from jaxoplanet.units import unit_registry as ureg
from jsym.ob import Ob

BOUNDS = ("1 or 2 planets, 2 to 4 transits each (5 in the thorough tier), consecutive or gapped transit numbers; linear period in [1,20] d, "
          "reference times in [-50,50] d, timing offsets up to 0.2 of the period, duration in [0.01,0.3] d, every query time within one "
          "period before the first and after the last transit; explicit period, reference time and delta_log_period options")

INDS = {"3": [0, 1, 2], "2": [0, 1], "4": [0, 1, 2, 3], "gap": [0, 2, 3], "off": [5, 7, 8], "neg": [-1, 0, 2], "5": [0, 1, 2, 3, 4], "rev": [3, 1, 0]}


def mean(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s / len(xs)


def make(mode, key, P, t0, dev, dur, b, k, extra=()):
    """returns the orbit, spec transit times (list), spec reference time of the base orbit, base period"""
    idx = INDS[key]
    n = len(idx)
    kw = dict(duration=dur * ureg.d, impact_param=b, radius_ratio=k)
    if key not in ("2", "3", "4", "5") or "inds" in extra:
        kw["transit_inds"] = (jnp.array(idx),)
    if mode == "ttvs":
        ttv = [dev[i] * P for i in range(n)]
        m = mean(ttv)
        tt = [t0 + P * j + x - m for j, x in zip(idx, ttv)]
        kw.update(period=P * ureg.d, ttvs=(jnp.stack(ttv) * ureg.d,))
        if "not0" in extra:
            tt = [x - t0 for x in tt]
        else:
            kw["time_transit"] = t0 * ureg.d
    else:
        tt = [t0 + P * (j + dev[i]) for i, j in enumerate(idx)]
        kw["transit_times"] = ((jnp.stack(tt) * ureg.d) if "quantity" in extra else jnp.stack(tt),)
    if "period" in extra:
        kw["period"] = 1.1 * P * ureg.d
    if "t0" in extra:
        kw["time_transit"] = (t0 + 0.3) * ureg.d
    if "dlp" in extra:
        kw["delta_log_period"] = dev[0]
    return TTVOrbit(**kw), tt, idx


def V(key):
    n = len(INDS[key])
    return {"P": (1, 20), "t0": (-50, 50), "dev": ((n,), -0.2, 0.2), "dur": (0.01, 0.3), "b": (0, 0.9), "k": (0, 0.3)}


def ephemeris(mode, key, extra=()):
    """least squares / linear ephemeris"""
    def fn(P, t0, dev, dur, b, k):
        o, tt, idx = make(mode, key, P, t0, dev, dur, b, k, extra)
        T0, PP, r, T = o.linear_t0[0], o.linear_period[0], o.ttvs[0], o.transit_times[0]
        n = len(idx)
        eq = {}
        for i in range(n):
            eq[f"time {i}"] = (T[i], tt[i])
            eq[f"residual {i}"] = (r[i], tt[i] - (T0 + PP * idx[i]))
        if mode == "ttvs":
            # the residuals are the given ones minus their mean
            eq["period"], eq["t0"] = (PP, P), (T0, 0.0 * t0 if "not0" in extra else t0)
        else:
            # normal equations of the least-squares line
            eq["sum"] = (sum(r[i] for i in range(n)), 0.0)
            eq["slope"] = (sum(r[i] * idx[i] for i in range(n)), 0.0)
        if "dlp" in extra:
            eq["period of the orbit"] = (mag(o.period, ureg.d).reshape(()), PP * jnp.exp(dev[0]))
        elif "period" in extra:
            eq["period of the orbit"] = (mag(o.period, ureg.d).reshape(()), 1.1 * P)
        else:
            eq["period of the orbit"] = (mag(o.period, ureg.d).reshape(()), PP)
        eq["duration"] = (mag(o.duration, ureg.d).reshape(()), dur)
        return dict(eq=eq)
    return Ob("ephemeris-" + "-".join((mode, key) + tuple(extra)), fn, V(key))


def transits(mode, key, extra=()):
    """at each listed time the body is at mid-transit"""
    def fn(P, t0, dev, dur, b, k):
        o, tt, idx = make(mode, key, P, t0, dev, dur, b, k, extra)
        eq = {}
        for i in range(len(idx)):
            x, y, z = o.relative_position(tt[i] * ureg.d)
            eq[f"x{i}"], eq[f"y{i}"], eq[f"z{i}"] = (mag(x), 0.0), (mag(y), b), (mag(z), 1.0)
        return dict(eq=eq)
    return Ob("transits-" + "-".join((mode, key) + tuple(extra)), fn, V(key))


def nearby(mode, key, i, extra=()):
    """times closest to transit i move rigidly with it"""
    def fn(P, t0, dev, dur, b, k, s):
        o, tt, idx = make(mode, key, P, t0, dev, dur, b, k, extra)
        n = len(idx)
        # time within the half-way points to the neighbours (one period beyond the ends)
        lo = 0.5 * (tt[i] - tt[i - 1]) if i > 0 else P
        hi = 0.5 * (tt[i + 1] - tt[i]) if i + 1 < n else P
        d = jnp.where(s < 0, s * lo, s * hi)
        x, y, z = o.relative_position((tt[i] + d) * ureg.d)
        base = TransitOrbit(period=o.period.magnitude.reshape(()) * ureg.d, duration=dur * ureg.d, time_transit=0.0, impact_param=b, radius_ratio=k)
        X, Y, Z = base.relative_position(d * ureg.d)
        return dict(eq={"x": (mag(x), mag(X)), "y": (mag(y), mag(Y)), "z": (mag(z), mag(Z))})
    return Ob(f"nearby{i}-" + "-".join((mode, key) + tuple(extra)), fn, {**V(key), "s": (-0.999, 0.999)})


def two(mode):
    """two planets with different numbers of transits are treated independently"""
    def fn(P, t0, d1, d2, dur, b, k, s):
        kw = dict(duration=dur * ureg.d, impact_param=b, radius_ratio=k)
        tt = [[t0[0] + P[0] * (j + d1[j]) for j in range(3)], [t0[1] + P[1] * (j + d2[j]) for j in range(2)]]
        t = tt[0][1] + s * P[0]
        if mode == "times":
            o = TTVOrbit(transit_times=tuple(jnp.stack(x) for x in tt), **kw)
            one = [TTVOrbit(transit_times=(jnp.stack(tt[i]),), duration=dur[i] * ureg.d, impact_param=b[i], radius_ratio=k[i]) for i in range(2)]
        else:
            ds = (d1 * P[0], d2 * P[1])
            share = {} if mode == "ttvs" else ({"time_transit": t0[0] * ureg.d} if mode == "ttvs-shared" else {})
            if mode == "ttvs":
                share = {"time_transit": t0 * ureg.d}
            o = TTVOrbit(period=P * ureg.d, ttvs=ds, **share, **kw)
            one = []
            for i in range(2):
                sh = {} if not share else {"time_transit": (t0[i] if mode == "ttvs" else t0[0]) * ureg.d}
                one.append(TTVOrbit(period=P[i] * ureg.d, ttvs=(ds[i],), duration=dur[i] * ureg.d, impact_param=b[i], radius_ratio=k[i], **sh))
        x, y, z = o.relative_position(t * ureg.d)
        eq = {}
        for i in range(2):
            X, Y, Z = one[i].relative_position(t * ureg.d)
            eq[f"x{i}"], eq[f"y{i}"], eq[f"z{i}"] = (mag(x)[i], mag(X)), (mag(y)[i], mag(Y)), (mag(z)[i], mag(Z))
            for j in range(3 - i):
                eq[f"tt{i}{j}"] = (o.transit_times[i][j], one[i].transit_times[0][j])
        return dict(eq=eq)
    return Ob(f"two-planets-{mode}", fn, {"P": ((2,), 1, 20), "t0": ((2,), -50, 50), "d1": ((3,), -0.2, 0.2), "d2": ((2,), -0.2, 0.2),
                                          "dur": ((2,), 0.01, 0.3), "b": ((2,), 0, 0.9), "k": ((2,), 0, 0.3), "s": (-1.2, 1.2)})


def obligations(tier):
    keys = ["2", "3", "gap", "off", "neg"] + (["4", "5"] if tier == "thorough" else [])
    obs = []
    for key in keys:
        for mode in ("ttvs", "times"):
            obs += [ephemeris(mode, key), transits(mode, key)]
            if tier == "thorough" or mode == "ttvs" or key in ("2", "3"):
                obs += [nearby(mode, key, i) for i in range(len(INDS[key]))]
    obs += [ephemeris("ttvs", "3", ("not0",)), transits("ttvs", "3", ("not0",))]
    for ex in (("quantity",), ("inds",), ("period",), ("t0",), ("dlp",), ("period", "t0")):
        obs += [ephemeris("times", "3", ex), transits("times", "3", ex)]
        if ex != ("dlp",):
            obs.append(nearby("times", "3", 1, ex))
    obs += [two(m) for m in ("times", "ttvs", "ttvs-shared", "ttvs-none")]
    return obs
