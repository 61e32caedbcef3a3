"""Rotations of surface maps: coefficients, frames, projections."""
import jax
import jax.numpy as jnp
import numpy as np
from jax.scipy.spatial.transform import Rotation

from checks.maps import intensity_of, limb_dark, lms
from jaxoplanet.starry.core.rotation import dot_rotation_matrix, dot_rz, fast_direct_left_project, full_rotation_axis_angle, left_project, right_project, sky_projection_axis_angle
from jaxoplanet.starry.surface import Surface
from jaxoplanet.starry.ylm import Ylm
from jsym.cuts import Cuts, MatrixCut, RotationCut, rodrigues, rotated_block
from jsym.ob import Ob

BOUNDS = ("every coefficient vector; rotations about any axis (not of unit length) and by any angle, degrees 0..3 (thorough 0..5), about the line of sight degrees 0..6; "
          "projections for every inclination, obliquity, phase and angle of the occultor (each possibly None), degrees 0..2; every latitude and longitude")
ASSUMPTIONS = ["jax.scipy's conversion of a rotation vector to zyz Euler angles (JAX library code) returns angles a, b, g with Rz(g) Ry(b) Rz(a) equal to the rotation of the vector",
               "in the projections, rotations about a general axis are replaced by independent matrices (the obligations axis-* decide that the code's are these)"]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def transpose(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def rz(c, s):
    return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]


def ry(c, s):
    return [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]


def rotated(deg, y, M):
    out = []
    for l in range(deg + 1):
        out += rotated_block(l, y[l * l:(l + 1) ** 2], M)
    return jnp.stack([jnp.asarray(v, float) for v in out])


def euler_matrix(v):
    a, b, g = Rotation.from_rotvec(v).as_euler("zyz")
    return matmul(rz(jnp.cos(g), jnp.sin(g)), matmul(ry(jnp.cos(b), jnp.sin(b)), rz(jnp.cos(a), jnp.sin(a))))


def norms(a, b, deg):
    return {f"norm {l}": (sum(a[k] ** 2 for k in range(l * l, (l + 1) ** 2)), sum(b[k] ** 2 for k in range(l * l, (l + 1) ** 2))) for l in range(1, min(deg, 2) + 1)}


def axis(deg, name, lo, hi, fixed=None):
    """about any axis: the rotated map at p is the map at R p"""
    def fn(x, y, z, th, c):
        if fixed:
            x, y, z = fixed
        r = dot_rotation_matrix(deg, x, y, z, th)(c)
        X, Y, Z = (0.0 if k is None else k for k in (x, y, z))
        n = jnp.sqrt(X * X + Y * Y + Z * Z)
        M = euler_matrix(jnp.stack([jnp.asarray(k, float) for k in (X / n * th, Y / n * th, Z / n * th)]))
        return dict(eq={"rotated": (r, rotated(deg, c, M)), **norms(r, c, deg)})
    return Ob(f"axis-{deg}-{name}", fn, {"x": (0.1, 2), "y": (-2, 2), "z": (-2, 2), "th": (lo, hi), "c": (((deg + 1) ** 2,), -1, 1)}, stubs=Cuts(RotationCut()))


def zero(deg):
    def fn(x, y, z, c):
        eq = {"angle zero": (dot_rotation_matrix(deg, x, y, z, 0.0)(c), c), "none": (dot_rotation_matrix(deg, x, y, z, None)(c), c)}
        return dict(eq=eq)
    return Ob(f"zero-{deg}", fn, {"x": (0.1, 2), "y": (-2, 2), "z": (-2, 2), "c": (((deg + 1) ** 2,), -1, 1)}, stubs=Cuts(RotationCut()))


def many(deg):
    """a stack of maps, each rotated"""
    def fn(x, y, z, th, c):
        f = dot_rotation_matrix(deg, x, y, z, th)
        g = dot_rz(deg, th)
        eq = {"axis": (f(c), jnp.stack([f(c[0]), f(c[1])])), "z": (g(c), jnp.stack([g(c[0]), g(c[1])]))}
        return dict(eq=eq)
    return Ob(f"many-{deg}", fn, {"x": (0.1, 2), "y": (-2, 2), "z": (-2, 2), "th": (0.1, 6), "c": ((2, (deg + 1) ** 2), -1, 1)}, stubs=Cuts(RotationCut()))


def about_z(deg):
    """about the line of sight, at every point of the sphere"""
    def fn(th, c, x, y):
        z = jnp.sqrt(1 - x * x - y * y)
        r = dot_rz(deg, th)(c)
        s = dot_rotation_matrix(deg, None, None, 1.0, th)(c)
        co, si = jnp.cos(th), jnp.sin(th)
        eq = {"rotated": (intensity_of(r, deg, x, y, z), intensity_of(c, deg, x * co - y * si, x * si + y * co, z)), "same": (s, r),
              "back": (dot_rz(deg, -th)(r), c)}
        return dict(eq=eq, assume=[x * x + y * y <= 1])
    return Ob(f"z-{deg}", fn, {"th": (-7, 7), "c": (((deg + 1) ** 2,), -1, 1), "x": (-1, 1), "y": (-1, 1)})


def frame(inc, obl, th, tz):
    """rows: the axes of the map (right, pole, front) on the sky whose y axis points at the occultor"""
    si, ci, so, co = jnp.sin(inc), jnp.cos(inc), jnp.sin(obl), jnp.cos(obl)
    n = [-so * si, co * si, ci]
    e = [co, so, 0.0]
    f = [so * ci, -co * ci, si]
    st, ct = jnp.sin(th), jnp.cos(th)
    E = [ct * a - st * b for a, b in zip(e, f)]
    F = [ct * b + st * a for a, b in zip(e, f)]
    s, c = jnp.sin(tz), jnp.cos(tz)
    return [[c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]] for v in (E, n, F)]


NAMES = ("inc", "obl", "th", "tz")
A = {"inc": (0.05, 3.1), "obl": (-3, 3), "th": (-6, 6), "tz": (-3.1, 3.1)}


def given(mask, vals):
    return [v if m == "1" else None if m == "0" else 0.0 for m, v in zip(mask, vals)], [v if m == "1" else 0.0 for m, v in zip(mask, vals)]


def project(deg, mask, box="", obl=None):
    """left_project: the map on the sky; right_project: back"""
    def fn(inc, obl, th, tz, c):
        a, full = given(mask, (inc, obl, th, tz))
        M = frame(*full)
        eq = {"left": (left_project(deg, *a, c), rotated(deg, c, M)), "right": (right_project(deg, *a, c), rotated(deg, c, transpose(M)))}
        return dict(eq=eq)
    B = dict(A)
    if obl:
        B["obl"] = obl
    return Ob(f"project-{deg}-{mask}{box}", fn, {**B, "c": (((deg + 1) ** 2,), -1, 1)}, stubs=Cuts(MatrixCut()))


def half_cosine(inc, obl, th, tz):
    """cosine of half the angle of the rotation"""
    return jnp.sqrt(0.5) * (jnp.sin(inc / 2) * jnp.cos(0.5 * (obl - th + tz)) + jnp.cos(inc / 2) * jnp.cos(0.5 * (obl + th + tz)))


SUMS = {"inc": A["inc"], "s": (-6, 6), "d": (-6, 6), "obl": (-3, 3)}


def from_sums(mask, inc, s, d, obl):
    """every triple of angles, in terms of the half sums the rotation depends on"""
    if mask[2:] == "00":
        return inc, 2 * s, 0.0, 0.0
    if mask[2] != "1":
        return inc, obl, 0.0, 2 * s - obl
    return inc, obl, s - d, s + d - obl


def angle_axis(mask, box="", **kw):
    """full_rotation_axis_angle: axis of unit length and the angle of the whole rotation"""
    def fn(inc, s, d, obl):
        a, full = given(mask, from_sums(mask, inc, s, d, obl))
        M = frame(*full)
        x, y, z, t = full_rotation_axis_angle(*a)
        R = rodrigues([x, y, z], t)
        half = half_cosine(*full)
        eq = {f"{i}{j}": (R[i][j], M[j][i]) for i in range(3) for j in range(3)}
        return dict(eq=eq, assume=[half <= 1 - 1e-9, half >= -1 + 1e-9])
    return Ob(f"full-{mask}{box}", fn, {**SUMS, **kw}, roots=True)


def direct(deg, mask):
    """fast_direct_left_project: the same with one rotation (axis and angle of full_rotation_axis_angle)"""
    def fn(inc, s, d, obl, c):
        a, full = given(mask, from_sums(mask, inc, s, d, obl))
        x, y, z, t = full_rotation_axis_angle(*a)
        r = fast_direct_left_project(deg, *a, c)
        n = jnp.sqrt(x * x + y * y + z * z)
        v = jnp.stack([x / n * t, y / n * t, -z / n * t])
        D = euler_matrix(v)  # seen in a mirror: the rotation about (x, y, z) by minus the angle
        sg = [1.0, 1.0, -1.0]
        M = [[sg[i] * sg[j] * D[i][j] for j in range(3)] for i in range(3)]
        half = half_cosine(*full)
        return dict(eq={"rotated": (r, rotated(deg, c, M))}, assume=[half <= 1 - 1e-9, half >= -1 + 1e-9])
    return Ob(f"direct-{deg}-{mask}", fn, {**SUMS, "c": (((deg + 1) ** 2,), -1, 1)}, stubs=Cuts(RotationCut()), roots=True)


def body_frame(deg, nu, kind):
    """Surface.intensity(lat, lon): the intensity of the map at a place fixed on the surface, however it is seen"""
    def fn(inc, obl, lat, lon, c, u, amp):
        kw = {"both": dict(inc=inc, obl=obl), "inc": dict(inc=inc), "default": {}, "pole": dict(inc=None), "pole-obl": dict(inc=None, obl=obl)}[kind]
        us = tuple(u[k] for k in range(nu))
        s = Surface(y=Ylm.from_dense(c, normalize=False), normalize=False, amplitude=amp, u=us, **kw)
        p = (jnp.cos(lat) * jnp.sin(lon), jnp.sin(lat), jnp.cos(lat) * jnp.cos(lon))
        half = half_cosine((0.0 if "pole" in kind else 0.5 * jnp.pi if kind == "default" else inc) + 0.5 * jnp.pi, obl if kind in ("both", "pole-obl") else 0.0, 0.0, 0.0)
        return dict(eq={"intensity": (s.intensity(lat, lon), amp * intensity_of(c, deg, *p))}, assume=[] if kind in ("pole", "default") else [half <= 1 - 1e-9, half >= -1 + 1e-9])
    return Ob(f"place-{deg}-{kind}", fn, {"inc": (0.05, 3.1), "obl": (-3, 3), "lat": (-1.57, 1.57), "lon": (-6, 6), "c": (((deg + 1) ** 2,), -1, 1), "u": ((max(nu, 1),), 0, 0.4), "amp": (0.1, 5)},
              stubs=Cuts(MatrixCut(), RotationCut()), roots=True)


def obligations(tier):
    th = tier != "quick"
    top = 6 if th else 4
    obs = [axis(d, n, lo, hi) for d in range(top) for n, lo, hi in (("pos", 0.05, 7), ("neg", -7, -0.05)) if d < 3 or n == "pos"]
    obs += [axis(2, "x", -7, -0.05, (1.0, None, None)), axis(2, "y", 0.05, 7, (0.0, 1.0, 0.0)), axis(2, "xy", 0.05, 7, (0.6, -0.8, None)), axis(2, "minus", 0.05, 7, (-2.0, 0.0, 0.0))]
    obs += [zero(d) for d in (0, 1, 3)] + [many(1), many(2)]
    obs += [about_z(d) for d in range(7 if th else 5)]
    obs += [project(d, m) for d in (0, 1, 2) for m in ("1111", "1110", "1100")]
    obs += [project(1, m) for m in ("1011", "0111", "0011", "0000", "1z11", "1001", "1101", "zz11", "11z1", "111z")] + [project(1, "z111", *b) for b in (("+", (0.02, 3)), ("-", (-3, -0.02)))] + [project(2, "1011"), project(2, "0111")]
    obs += [angle_axis(m) for m in ("1111", "1100", "1000", "1101", "0111")]
    obs += [direct(d, m) for d in (1, 2) for m in ("1111", "1100")]
    obs += [body_frame(d, 0, k) for d, k in ((0, "both"), (0, "inc"), (0, "pole-obl"), (1, "both"), (1, "default"), (1, "pole"), (2, "default"), (2, "pole"), (3, "default"))]
    return obs
