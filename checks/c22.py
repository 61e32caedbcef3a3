"""Spherical-harmonic containers: storage, order, normalisation, arithmetic."""
import jax
import jax.numpy as jnp
import numpy as np

from checks.maps import lms, sh
from jaxoplanet.starry.core.polynomials import Pijk
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jsym.ob import Ob

BOUNDS = ("maps of degree 0..8 with every coefficient vector in [-1,1] (coefficient of degree 0 in [0.1,2] where it is a divisor), sparse maps with any listed set of orders in any order of insertion, "
          "dense vectors of any length 1..30, products of degrees (0..3)x(0..3) (thorough up to (4,4)), every point of the sphere")
ASSUMPTIONS = []


def dense(n):
    """dense vector -> container -> dense vector; index and item access"""
    deg = int(np.ceil(np.sqrt(n))) - 1
    size = (deg + 1) ** 2

    def fn(y):
        m = Ylm.from_dense(y, normalize=False)
        d, s = m.todense(), m.tosparse()
        eq = {"dense": (d[:n], y), "rest": (d[n:], jnp.zeros(size - n)), "sparse": (s.todense(), d)}
        ok = m.deg == deg and m.shape == (size,) and d.shape == (size,) and sorted(m.indices) == sorted(lms(deg)[:n])
        for i, lm in enumerate(lms(deg)):
            ok = ok and int(Ylm.index(*lm)) == i
            if i < n:
                eq[f"item {lm}"] = (m[lm], y[i])
                eq[f"data {lm}"] = (m.data[lm], y[i])
        again = Ylm.from_dense(d, normalize=False)
        eq["again"] = (again.todense(), d)
        return dict(eq=eq, true={"layout": jnp.asarray(bool(ok))})
    return Ob(f"dense-{n}", fn, {"y": ((n,), -1, 1)})


def normalise(deg):
    def fn(y):
        n = Ylm.from_dense(y)
        k = Ylm.from_dense(y, normalize=False)
        s = Surface(y=k, amplitude=7.0)
        t = Surface(y=k, amplitude=7.0, normalize=False)
        eq = {"from_dense": (n.todense() * y[0], y), "unit": (n[(0, 0)], 1.0), "normalize": (k.normalize().todense() * y[0], y), "unchanged": (k.todense(), y),
              "surface": (s.y.todense() * y[0], y), "surface amplitude": (s.amplitude, y[0]), "kept": (t.y.todense(), y), "kept amplitude": (jnp.asarray(t.amplitude), 7.0)}
        return dict(eq=eq)
    return Ob(f"normalise-{deg}", fn, {"y": (((deg + 1) ** 2,), [0.1] + [-1] * ((deg + 1) ** 2 - 1), [2] + [1] * ((deg + 1) ** 2 - 1))})


def listed(terms, name):
    """maps given as a dictionary, in any order and with gaps"""
    deg = max(l for l, _ in terms)

    def fn(c, k):
        m = Ylm({t: c[i] for i, t in enumerate(terms)})
        d = m.todense()
        ref = [0.0] * (deg + 1) ** 2
        for i, (l, o) in enumerate(terms):
            ref[l * l + l + o] = c[i]
        ref = jnp.stack([jnp.asarray(v, float) for v in ref])
        eq = {"dense": (d, ref), "scaled": ((m * k).todense(), ref * k), "scaled from the left": ((k * m).todense(), ref * k), "jit": (jax.jit(lambda m: m.todense())(m), ref)}
        leaves, tree = jax.tree_util.tree_flatten(m)
        eq["rebuilt"] = (jax.tree_util.tree_unflatten(tree, leaves).todense(), ref)
        for t, v in zip(terms, c):
            eq[f"item {t}"] = (m[t], v)
        ok = m.deg == deg and set(m.indices) == set(terms) and m.diagonal == all(o == 0 for _, o in terms)
        return dict(eq=eq, true={"layout": jnp.asarray(bool(ok))})
    return Ob(f"listed-{name}", fn, {"c": ((len(terms),), -1, 1), "k": (-3, 3)})


def many(deg):
    """a stack of maps mapped over"""
    def fn(y, k):
        n = (deg + 1) ** 2
        ms = Ylm({lm: y[:, i] for i, lm in enumerate(lms(deg))})
        out = jax.vmap(lambda m: (m * k).todense())(ms)
        return dict(eq={"mapped": (out, y * k)}, true={"shape": jnp.asarray(out.shape == (2, n))})
    return Ob(f"many-{deg}", fn, {"y": ((2, (deg + 1) ** 2), -1, 1), "k": (-3, 3)})


def value(c, deg, x, y, z):
    return sum(c[n] * sh(l, m, x, y, z) for n, (l, m) in enumerate(lms(deg)))


def product(d1, d2):
    """product of two maps: the product of the functions they stand for (orthonormal harmonics)"""
    def fn(x, y, a, b):
        z = jnp.sqrt(1 - x * x - y * y)
        f, g = Ylm.from_dense(a, normalize=False), Ylm.from_dense(b, normalize=False)
        h = f * g
        eq = {"pointwise": (value(h.todense(), d1 + d2, x, y, z), value(a, d1, x, y, z) * value(b, d2, x, y, z)),
              "other side": (value(h.todense(), d1 + d2, x, y, -z), value(a, d1, x, y, -z) * value(b, d2, x, y, -z)),
              "commutes": ((g * f).todense(), h.todense())}
        return dict(assume=[x * x + y * y <= 1], eq=eq, true={"degree": jnp.asarray(h.deg == d1 + d2)})
    return Ob(f"product-{d1}-{d2}", fn, {"x": (-1, 1), "y": (-1, 1), "a": (((d1 + 1) ** 2,), -1, 1), "b": (((d2 + 1) ** 2,), -1, 1)})


def sparse_product(t1, t2, name):
    """product of two maps given by few orders"""
    d1, d2 = max(l for l, _ in t1), max(l for l, _ in t2)

    def fn(x, y, a, b):
        z = jnp.sqrt(1 - x * x - y * y)
        f, g = Ylm({t: a[i] for i, t in enumerate(t1)}), Ylm({t: b[i] for i, t in enumerate(t2)})
        h = f * g
        ref = sum(a[i] * sh(*t, x, y, z) for i, t in enumerate(t1)) * sum(b[i] * sh(*t, x, y, z) for i, t in enumerate(t2))
        return dict(assume=[x * x + y * y <= 1], eq={"pointwise": (value(h.todense(), h.deg, x, y, z), ref)})
    return Ob(f"product-terms-{name}", fn, {"x": (-1, 1), "y": (-1, 1), "a": ((len(t1),), -1, 1), "b": ((len(t2),), -1, 1)})


def obligations(tier):
    th = tier != "quick"
    obs = [dense(n) for n in list(range(1, 31)) + ([49, 81, 64, 36] if th else [49, 81])]
    obs += [normalise(d) for d in (0, 1, 2, 4)] + [many(d) for d in (0, 1, 3)]
    obs += [listed(t, n) for t, n in (([(0, 0)], "constant"), ([(2, -1), (0, 0), (1, 1)], "mixed"), ([(3, 0), (0, 0), (1, 0)], "zonal"), ([(1, -1)], "single"), ([(5, 5), (4, -4), (2, 0)], "high"), ([(0, 0), (3, 3), (4, -4)], "low"))]
    m = 5 if th else 4
    obs += [product(a, b) for a in range(m) for b in range(m)]
    obs += [sparse_product([(1, 0)], [(1, 0)], "zonal"), sparse_product([(2, -1), (0, 0)], [(1, 1)], "mixed"), sparse_product([(1, 1), (3, -2)], [(2, 2), (0, 0)], "b")]
    return obs
