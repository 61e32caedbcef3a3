"""Basis changes preserve the function on the visible disk; polynomial products are pointwise products."""
import jax
import jax.numpy as jnp
import numpy as np
import scipy.sparse.linalg

from checks.maps import green, ijk, intensity_of, limb_dark, lms, poly_dict, poly_of, sh
from jaxoplanet.starry.core import basis
from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix
from jaxoplanet.starry.core.solution import rT
from jaxoplanet.starry.ylm import Ylm
from jsym.cuts import Cuts, NumpyShim
from jsym.ob import Ob

BOUNDS = ("maps of degree 0..8 (thorough: 0..12) with every coefficient vector in [-1,1], limb-darkening vectors of length 0..6, products of all polynomials of degrees up to "
          "(3,3) (thorough (5,4)); every point of the visible disk; agreement to 1e-9 (double-precision matrices)")
ASSUMPTIONS = ["numpy.array applied to a traced value is modelled by jax.numpy.array (spherical-harmonic expansion of limb darkening)"]
DISK = {"x": (-1, 1), "y": (-1, 1)}


def inside(x, y):
    return [x * x + y * y <= 1], jnp.sqrt(1 - x * x - y * y)


def dense(m):
    return m.todense() if hasattr(m, "todense") else m


def harmonics(deg):
    """the polynomial expansion of a map has the intensity of its spherical harmonics"""
    def fn(x, y, c):
        a, z = inside(x, y)
        p = jnp.asarray(np.asarray(dense(basis.A1(deg)))) @ c
        got = basis.poly_basis(deg)(x, y, z) @ p
        return dict(assume=a, eq={"intensity": (got, intensity_of(c, deg, x, y, z))})
    return Ob(f"harmonics-{deg}", fn, {**DISK, "c": (((deg + 1) ** 2,), -1, 1)})


def each_harmonic(deg):
    """every single harmonic separately"""
    def fn(x, y):
        a, z = inside(x, y)
        A = np.asarray(dense(basis.A1(deg)))
        b = basis.poly_basis(deg)(x, y, z)
        eq = {f"{lm}": (b @ A[:, n], sh(*lm, x, y, z) * 2 / np.sqrt(np.pi)) for n, lm in enumerate(lms(deg))}
        return dict(assume=a, eq=eq)
    return Ob(f"each-harmonic-{deg}", fn, DISK)


def powers(deg):
    """the polynomial basis: term of index l^2 + l + m is x^i y^j z^k, k in (0, 1)"""
    def fn(x, y, z, p):
        b = basis.poly_basis(deg)(x, y, z)
        ok = True
        for n, (l, m) in enumerate(lms(deg)):
            t = ijk(l, m)
            ok &= basis.ptilde(n) == t and Pijk.n2ijk(n) == t and Pijk.lm2ijk(l, m) == t and Pijk.ijk2lm(*t) == (l, m) and Pijk.lm2n(l, m) == n and Pijk.n2lm(n) == (l, m)
        return dict(eq={"value": (b @ p, poly_of(p, deg, x, y, z))}, true={"index": jnp.asarray(ok), "shape": jnp.asarray(b.shape == ((deg + 1) ** 2,))})
    return Ob(f"powers-{deg}", fn, {**DISK, "z": (0, 1), "p": (((deg + 1) ** 2,), -1, 1)})


def vectors(deg):
    """the basis evaluated at arrays of points"""
    def fn(x, y, z):
        f = basis.poly_basis(deg)
        b = f(x, y, z)
        return dict(eq={f"{i}": (b[i], f(x[i], y[i], z[i])) for i in np.ndindex(2, 2)}, true={"shape": jnp.asarray(b.shape == (2, 2, (deg + 1) ** 2))})
    return Ob(f"vectors-{deg}", fn, {"x": ((2, 2), -1, 1), "y": ((2, 2), -1, 1), "z": ((2, 2), 0, 1)})


def greens(deg):
    """Green's basis: terms are the curls whose line integrals give the occulted flux; conversions preserve the function"""
    def fn(x, y, c, p):
        a, z = inside(x, y)
        g = [poly_dict(green(n), x, y, z) for n in range((deg + 1) ** 2)]
        with jax.ensure_compile_time_eval():
            full = np.asarray(dense(basis.basis(deg)))
        full = full @ c
        inv = np.asarray(dense(basis.A2_inv(deg)))
        if deg > 0:
            A2 = jax.experimental.sparse.BCOO.from_scipy_sparse(scipy.sparse.linalg.inv(basis.A2_inv(deg)))
        else:
            A2 = jnp.array([[1.0]])
        t1, t2, t3 = 0.0, 0.0, 0.0
        row = p @ A2
        for n in range(len(g)):
            t1 = t1 + g[n] * full[n]
            t2 = t2 + g[n] * p[n]
        eq = {"harmonics to green": (t1, intensity_of(c, deg, x, y, z)), "green to polynomial": (basis.poly_basis(deg)(x, y, z) @ (jnp.asarray(inv) @ p), t2)}
        # functionals: s A2 p = functional with values s_n on g_n, of the function p
        eq["functional"] = (row @ (jnp.asarray(inv) @ c), jnp.dot(p, c))
        return dict(assume=a, eq=eq)
    n = (deg + 1) ** 2
    return Ob(f"green-{deg}", fn, {**DISK, "c": ((n,), -1, 1), "p": ((n,), -1, 1)})


def limb(n):
    """limb darkening in the polynomial basis: 1 - sum u_n (1 - z)^n"""
    def fn(x, y, u):
        a, z = inside(x, y)
        p = jnp.array([1, *[u[i] for i in range(n)]]) @ basis.U(n)
        return dict(assume=a, eq={"profile": (basis.poly_basis(n)(x, y, z) @ p, limb_dark([u[i] for i in range(n)], z))})
    return Ob(f"limb-{n}", fn, {**DISK, "u": ((max(n, 1),), -1, 1)})


def limb_harmonics(n):
    """limb darkening as spherical harmonics: the profile divided by its integral over the disk"""
    def fn(x, y, u):
        a, z = inside(x, y)
        us = [u[i] for i in range(n)]
        ylm = Ylm.from_limb_darkening(us)
        got = intensity_of(ylm.todense(), n, x, y, z)
        total = np.pi
        for k, c in enumerate(us):
            total = total - c * (2 * np.pi / ((k + 2) * (k + 3)))
        return dict(assume=a + [total >= 0.3], eq={"profile": (got * total, limb_dark(us, z))})
    return Ob(f"limb-harmonics-{n}", fn, {**DISK, "u": ((n,), 0, 0.9 / n)}, stubs=Cuts(NumpyShim()), eager=True)


def product(d1, d2):
    def fn(x, y, p, q):
        a, z = inside(x, y)
        P, Q = Pijk.from_dense(p), Pijk.from_dense(q)
        fp, fq = poly_of(p, d1, x, y, z), poly_of(q, d2, x, y, z)
        R = P * Q
        M = polynomial_product_matrix(p, d2) @ q
        b = basis.poly_basis(d1 + d2)(x, y, z)
        eq = {"product": (b @ R.todense(), fp * fq), "matrix": (b @ M, fp * fq),
              "sparse": (b @ R.tosparse().todense(), fp * fq),
              "sum": (basis.poly_basis(max(d1, d2))(x, y, z) @ (P + Q).todense(), fp + fq),
              "scaled": (basis.poly_basis(d1)(x, y, z) @ (P * 2.5).todense(), fp * 2.5), "scaled from the left": (basis.poly_basis(d1)(x, y, z) @ (2.5 * P).todense(), fp * 2.5)}
        return dict(assume=a, eq=eq, true={"degree": jnp.asarray(R.degree == d1 + d2)})
    return Ob(f"product-{d1}-{d2}", fn, {**DISK, "p": (((d1 + 1) ** 2,), -1, 1), "q": (((d2 + 1) ** 2,), -1, 1)})


def sparse_product(t1, t2, name):
    """polynomials given by few terms"""
    def fn(x, y, p, q):
        a, z = inside(x, y)
        P, Q = Pijk({k: p[i] for i, k in enumerate(t1)}), Pijk({k: q[i] for i, k in enumerate(t2)})
        fp = poly_dict({k: 1.0 for k in ()}, x, y, z) + sum(p[i] * poly_dict({k: 1.0}, x, y, z) for i, k in enumerate(t1))
        fq = sum(q[i] * poly_dict({k: 1.0}, x, y, z) for i, k in enumerate(t2))
        R, S = P * Q, P + Q
        eq = {"product": (basis.poly_basis(R.degree)(x, y, z) @ R.todense(), fp * fq), "sum": (basis.poly_basis(S.degree)(x, y, z) @ S.todense(), fp + fq),
              "dense": (basis.poly_basis(P.degree)(x, y, z) @ P.todense(), fp)}
        for i, k in enumerate(t1):
            eq[f"term {k}"] = (P[k], p[i])
        return dict(assume=a, eq=eq)
    return Ob(f"terms-{name}", fn, {**DISK, "p": ((len(t1),), -1, 1), "q": ((len(t2),), -1, 1)})


def from_dense(deg, degree):
    def fn(p):
        P = Pijk.from_dense(p, degree=degree)
        n = ((degree if degree is not None else deg) + 1) ** 2
        d = P.todense()
        eq = {"same": (d[: p.shape[0]], p), "rest": (d[p.shape[0]:], jnp.zeros(n - p.shape[0]))}
        return dict(eq=eq, true={"shape": jnp.asarray(d.shape == (n,))})
    return Ob(f"dense-{deg}-{degree}", fn, {"p": (((deg + 1) ** 2,), -1, 1)})


def obligations(tier):
    th = tier != "quick"
    obs = [harmonics(d) for d in range(0, 13 if th else 9)] + [each_harmonic(d) for d in ((3, 6, 10) if th else (3, 6))]
    obs += [powers(d) for d in range(0, 11 if th else 8)] + [vectors(d) for d in (0, 2, 3)] + [greens(d) for d in range(0, 11 if th else 8)]
    obs += [limb(n) for n in range(0, 9 if th else 7)] + [limb_harmonics(n) for n in range(1, 5 if th else 4)]
    obs += [product(a, b) for a in range(0, 6 if th else 4) for b in range(0, 5 if th else 4)]
    obs += [sparse_product([(0, 0, 1), (2, 0, 0)], [(1, 1, 1), (0, 3, 0)], "a"), sparse_product([(0, 0, 0)], [(0, 1, 1), (3, 0, 1), (0, 0, 0)], "b"),
            sparse_product([(1, 0, 1), (0, 1, 0), (4, 0, 0)], [(0, 1, 1)], "c")]
    obs += [from_dense(d, k) for d, k in ((0, None), (2, None), (2, 3), (1, 4), (3, 3))]
    return obs
