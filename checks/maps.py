"""Independent formulas of the surface-map bases, shared by the checks."""
import math
from collections import defaultdict

import jax.numpy as jnp
import numpy as np
from numpy.polynomial import legendre, polynomial


def lms(deg):
    return [(l, m) for l in range(deg + 1) for m in range(-l, l + 1)]


def sh_norm(l, m):
    m = abs(m)
    return math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m) * (1 if m == 0 else 2))


def trig(m, x, y):
    """real and imaginary part of (x + iy)^m"""
    c, s = 1.0, 0.0
    for _ in range(m):
        c, s = c * x - s * y, c * y + s * x
    return c, s


def plm(l, m):
    """coefficients in z of the m-th derivative of the Legendre polynomial of degree l"""
    p = legendre.leg2poly([0] * l + [1])
    return polynomial.polyder(p, m) if m else p


def sh(l, m, x, y, z):
    """orthonormal real spherical harmonic (sine for m < 0), without Condon-Shortley phase"""
    a = abs(m)
    c, s = trig(a, x, y)
    v = 0.0
    for k in plm(l, a)[::-1]:
        v = v * z + float(k)
    return sh_norm(l, m) * v * (s if m < 0 else c)


def intensity_of(y, deg, x, yy, z):
    """intensity of the map with coefficients y: harmonics normalised so that a unit Y00 has flux 1"""
    t = 0.0
    for n, (l, m) in enumerate(lms(deg)):
        t = t + y[n] * (sh(l, m, x, yy, z) * (2 / math.sqrt(math.pi)))
    return t


def ijk(l, m):
    """powers of the term of degree l and order m of the polynomial basis (Luger et al. 2019, eq. 7)"""
    mu, nu = l - m, l + m
    return (mu // 2, nu // 2, 0) if nu % 2 == 0 else ((mu - 1) // 2, (nu - 1) // 2, 1)


def ipow(x, n):
    v = 1.0
    for _ in range(n):
        v = v * x
    return v


def poly_of(p, deg, x, y, z):
    t = 0.0
    for n, (l, m) in enumerate(lms(deg)):
        i, j, k = ijk(l, m)
        t = t + p[n] * (ipow(x, i) * ipow(y, j) * ipow(z, k))
    return t


def limb_dark(u, z):
    v = 1.0
    for n, c in enumerate(u):
        v = v - c * ipow(1 - z, n + 1)
    return v


def green_vector(l, m):
    """G_n as {(i, j, k): c} for the x and the y component; (1, 0) is special (None)"""
    mu, nu = l - m, l + m
    if nu % 2 == 0:
        return {}, {((mu + 2) // 2, nu // 2, 0): 1.0}
    if (l, m) == (1, 0):
        return None
    if mu == 1 and l % 2 == 0:
        return {(l - 2, 0, 3): 1.0}, {}
    if mu == 1:
        return {(l - 3, 1, 3): 1.0}, {}
    return {}, {((mu - 3) // 2, (nu - 1) // 2, 3): 1.0}


def d_dx(p, axis):
    """derivative on the disk of a polynomial in x, y, z with z^2 = 1 - x^2 - y^2 (k odd: z^k)"""
    out = defaultdict(float)
    for (i, j, k), c in p.items():
        e = (i, j)[axis]
        if e:
            out[(i - (axis == 0), j - (axis == 1), k)] += c * e
        if k:
            # d z^k = k z^(k-1) * (-x/z) = -k x z^(k-2)
            out[(i + (axis == 0), j + (axis == 1), k - 2)] -= c * k
    return out


def green(n):
    """g_n = dGy/dx - dGx/dy"""
    l = math.isqrt(n)
    G = green_vector(l, n - l * l - l)
    if G is None:
        return {(0, 0, 1): 1.0}
    out = defaultdict(float)
    for k, c in d_dx(G[1], 0).items():
        out[k] += c
    for k, c in d_dx(G[0], 1).items():
        out[k] -= c
    return out


def poly_dict(p, x, y, z):
    t = 0.0
    for (i, j, k), c in p.items():
        if c:
            t = t + c * (ipow(x, i) * ipow(y, j) * ipow(z, k))
    return t


def disk_nodes(deg):
    """cubature over the unit disk, exact for polynomials in x, y, z of total degree deg"""
    n = deg // 2 + 2
    t, w = legendre.leggauss(n)
    z, wz = (t + 1) / 2, w / 2
    k = deg + 1
    out = []
    for zi, wi in zip(z, wz):
        rho = math.sqrt(1 - zi * zi)
        for a in range(k):
            ph = 2 * math.pi * (a + 0.5) / k
            # dA = rho drho dphi = z dz dphi
            out.append((rho * math.cos(ph), rho * math.sin(ph), zi, zi * wi * 2 * math.pi / k))
    return out


def pmul(a, b):
    """product of polynomials {(i, j, k): c} with z^2 = 1 - x^2 - y^2"""
    out = defaultdict(float)
    for (i, j, k), c in a.items():
        for (p, q, r), d in b.items():
            e = c * d
            if k + r == 2:
                out[(i + p, j + q, 0)] += e
                out[(i + p + 2, j + q, 0)] -= e
                out[(i + p, j + q + 2, 0)] -= e
            else:
                out[(i + p, j + q, k + r)] += e
    return out


def lm_of(i, j, k):
    mu, nu = (2 * i, 2 * j) if k == 0 else (2 * i + 1, 2 * j + 1)
    return (nu + mu) // 2, (nu - mu) // 2
