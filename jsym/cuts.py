"""Cuts: real functions replaced by their (separately verified) contracts.

`KeplerCut` replaces every reference to the public Kepler solver inside the
jaxoplanet modules by a primitive whose meaning is the contract checked by C01
and C02: (sin f, cos f) of the true anomaly f(M, e), with the exact derivative.
"""

import functools
import importlib
import math
import pkgutil
import sys

import jax
import jax.numpy as jnp
import numpy as np
from gmpy2 import mpq
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

from . import interp, terms as tm
from .poly import NF, TooBig, Undefined

kepler_p = Primitive("kepler_contract")
kepler_p.multiple_results = True


@kepler_p.def_abstract_eval
def _abs(M, e):
    shape = jnp.broadcast_shapes(M.shape, e.shape)
    a = jax.core.ShapedArray(shape, jnp.float64)
    return [a, a]


def _jvp(primals, tangents):
    M, e = primals
    dM, de = tangents
    s, c = kepler_p.bind(M, e)
    f = jnp.zeros_like(s)
    if type(dM) is not ad.Zero:
        f = f + dM * (1 + e * c) ** 2 / ((1 - e**2) * jnp.sqrt(1 - e**2))
    if type(de) is not ad.Zero:
        f = f + de * (2 + e * c) * s / (1 - e**2)
    return [s, c], [c * f, -s * f]


ad.primitive_jvps[kepler_p] = _jvp


def _batch(args, dims):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    args = [batching.bdim_at_front(a, d, size) for a, d in zip(args, dims)]
    nd = max(a.ndim for a in args)
    args = [a.reshape(a.shape[:1] + (1,) * (nd - a.ndim) + a.shape[1:]) for a in args]
    return kepler_p.bind(*args), [0, 0]


batching.primitive_batchers[kepler_p] = _batch


def stub(M, ecc):
    return tuple(kepler_p.bind(jnp.asarray(M, float), jnp.asarray(ecc, float)))


def _eccentric(M, e):
    """E with M = E - e sin E (mod 2 pi), recognised from the normal form"""
    cands = [t for t in tm.topo([M]) if t.op in ("var", "atan2")]
    tries = [tm.ZERO, tm.PI]
    for t in sorted(cands, key=lambda t: (t.op == "var", t.id)):
        tries += [t, tm.mul(tm.const(2), t)]
    if True:
        for E in tries:
            nf = NF([M, tm.sin(E)], sign=SIGN.get("f"), pbound=SIGN.get("p"))
            try:
                res = nf.nf(tm.sub(M, tm.sub(E, tm.mul(e, tm.sin(E)))))
            except (TooBig, Undefined):
                continue
            if not res.d and all(len(k) == 1 and k[0] == (tm.PI.id, 1) for k in res.n):
                k = sum(res.n.values()) / 2 if res.n else mpq(0)
                if k.denominator == 1:
                    return E
    return None


SIGN = {}


def _interp(it, invals, params):
    M, e = [interp.to_obj(x) for x in invals]
    shape = np.broadcast_shapes(M.shape, e.shape)
    M, e = np.broadcast_to(M, shape), np.broadcast_to(e, shape)
    s, c = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        E = _eccentric(M[ix], e[ix])
        if E is not None:
            ee = e[ix]
            den = tm.sub(tm.ONE, tm.mul(ee, tm.cos(E)))
            s[ix] = tm.div(tm.mul(tm.sqrt(tm.sub(tm.ONE, tm.mul(ee, ee))), tm.sin(E)), den)
            c[ix] = tm.div(tm.sub(tm.cos(E), ee), den)
        else:
            F = tm.fn("kepler_f", (M[ix], e[ix]))
            s[ix], c[ix] = tm.sin(F), tm.cos(F)
    return [s, c]


interp.STUBS["kepler_contract"] = _interp


def true_anomaly(M, e):
    E = M
    M = M % (2 * math.pi)
    E = math.pi
    for _ in range(200):
        d = (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
        E -= d
        if abs(d) < 1e-15:
            break
    return math.atan2(math.sqrt(1 - e * e) * math.sin(E), math.cos(E) - e)


FNS = {"kepler_f": true_anomaly}


class Cut:
    """replaces every reference to a public function inside the jaxoplanet modules"""
    module = attr = None
    fns = {}

    def stub(self):
        raise NotImplementedError

    def __enter__(self):
        import jaxoplanet

        for m in pkgutil.walk_packages(jaxoplanet.__path__, "jaxoplanet."):
            if m.name not in sys.modules and ("orbits" in m.name or "core" in m.name or "light_curves" in m.name):
                try:
                    importlib.import_module(m.name)
                except Exception:
                    pass
        target = getattr(importlib.import_module(self.module), self.attr)
        new = self.stub()
        self.saved = []
        for name, m in list(sys.modules.items()):
            if (name.startswith("jaxoplanet") or name.startswith("checks.")) and m is not None:
                for k, v in list(vars(m).items()):
                    if v is target:
                        self.saved.append((m, k, v))
                        setattr(m, k, new)
        jax.clear_caches()
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        jax.clear_caches()


class KeplerCut(Cut):
    module, attr, fns = "jaxoplanet.core.kepler", "kepler", FNS

    def stub(self):
        return stub


class Cuts:
    """several cuts together"""

    def __init__(self, *cuts):
        self.cuts = cuts
        self.fns = FnTable([c.fns if callable(c.fns) else c.fns.get for c in cuts])
        self.fnb = FnBounds([c.bound for c in cuts if hasattr(c, "bound")])

    def __enter__(self):
        for c in self.cuts:
            c.__enter__()
        return self

    def __exit__(self, *a):
        for c in reversed(self.cuts):
            c.__exit__(*a)


# -- uninterpreted functions (congruence only), applied element by element
def elementwise(name, nout):
    p = Primitive(name)
    p.multiple_results = True

    def _abs(*args, **kw):
        shape = jnp.broadcast_shapes(*[a.shape for a in args])
        return [jax.core.ShapedArray(shape, jnp.float64)] * nout(kw)

    def _batch(args, dims, **kw):
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
        args = [batching.bdim_at_front(a, d, size) for a, d in zip(args, dims)]
        nd = max(a.ndim for a in args)
        args = [a.reshape(a.shape[:1] + (1,) * (nd - a.ndim) + a.shape[1:]) for a in args]
        return p.bind(*args, **kw), [0] * nout(kw)

    def _interp(it, invals, params):
        xs = [interp.to_obj(x) for x in invals]
        shape = np.broadcast_shapes(*[x.shape for x in xs])
        xs = [np.broadcast_to(x, shape) for x in xs]
        outs = []
        for k in range(nout(params)):
            o = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                o[ix] = tm.fn(fname(name, params, len(xs), k), tuple(x[ix] for x in xs))
            outs.append(o)
        return outs

    p.def_abstract_eval(_abs)
    batching.primitive_batchers[p] = _batch
    interp.STUBS[name] = _interp
    return p


def fname(name, params, n, k):
    return f"{name}_o{params['order']}_a{n}_k{k}"


ld_p = elementwise("limb_dark", lambda kw: 1)
sT_p = elementwise("solution_vector", lambda kw: kw["n"])


def _vector_entry(cut, key, i, f):
    """entry i of a real vector-valued function; one compilation and one call for all the entries"""
    fs = cut.__dict__.setdefault("_vec", {})
    if key not in fs:
        fs[key] = (jax.jit(f), {})
    g, memo = fs[key]

    def entry(*a):
        a = tuple(float(x) for x in a)
        if a not in memo:
            if len(memo) > 500:
                memo.clear()
            memo[a] = np.asarray(g(jnp.asarray(a)))
        return float(memo[a][i])
    return entry


class FnBounds:
    """enclosures of the values of uninterpreted functions"""

    def __init__(self, fs):
        self.fs = fs

    def get(self, k, d=None):
        for f in self.fs:
            b = f(k)
            if b is not None:
                return b
        return d


class FnTable:
    """name -> callable, created on first use"""

    def __init__(self, tables):
        self.tables = tables
        self.cache = {}

    def __getitem__(self, k):
        if k not in self.cache:
            for t in self.tables:
                f = t(k)
                if f is not None:
                    self.cache[k] = f
                    break
            else:
                raise KeyError(k)
        return self.cache[k]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return self.get(k) is not None


def _parse(k):
    import re

    m = re.fullmatch(r"(.*)_o(\d+)_a(\d+)_k(\d+)", k)
    return (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4))) if m else (None,) * 4


class LimbDarkCut(Cut):
    """the limb-darkened flux of one occultor (decided by C09, C10) as an uninterpreted function"""
    module, attr = "jaxoplanet.core.limb_dark", "light_curve"

    def stub(self):
        def light_curve(u, b, r, *, order=10):
            u = jnp.asarray(u, float)
            b, r = jnp.asarray(b, float), jnp.asarray(r, float)
            return ld_p.bind(*[u[..., i] for i in range(u.shape[-1])], b, r, order=int(order))[0]
        return light_curve

    @property
    def fns(self):
        def make(k):
            name, order, n, _ = _parse(k)
            if name != "limb_dark":
                return None
            real = getattr(importlib.import_module(self.module), self.attr)
            if getattr(self, "saved", None):
                real = self.saved[0][2]
            f = jax.jit(lambda a: real(a[:-2], a[-2], a[-1], order=order))
            return lambda *a: float(f(jnp.asarray([float(x) for x in a])))
        return make


class SolutionCut(Cut):
    """the occultation integrals of the starry basis (decided by C21) as uninterpreted functions"""
    module, attr = "jaxoplanet.starry.core.solution", "solution_vector"

    def stub(self):
        def solution_vector(l_max, order=20):
            n = (l_max + 1) ** 2

            def impl(b, r):
                return jnp.stack(sT_p.bind(jnp.asarray(b, float), jnp.asarray(r, float), order=int(order), n=n), -1)
            return impl
        return solution_vector

    def bound(self, k):
        """integrals of polynomials that are at most sum |c| on the disk, over a part of the disk (C21)"""
        from checks.maps import green

        name, _, _, i = _parse(k)
        if name != "solution_vector":
            return None
        b = 1.0001 * math.pi * sum(abs(c) for c in green(i).values())
        return (-b, b)

    @property
    def fns(self):
        def make(k):
            name, order, _, i = _parse(k)
            if name != "solution_vector":
                return None
            real = getattr(importlib.import_module(self.module), self.attr)
            if getattr(self, "saved", None):
                real = self.saved[0][2]
            import math as m

            l = max(int(m.isqrt(i)), 1)
            return _vector_entry(self, (l, order), i, lambda a: real(l, order=order)(a[0], a[1]))
        return make


def _opaque_impl(*a, order=0):
    shape = jnp.broadcast_shapes(*[x.shape for x in a])
    return [jnp.broadcast_to(sum(jnp.sin((k + 1.3 * j + 1) * x + j) for j, x in enumerate(a)) * (k + 1), shape) for k in range(3)]


opaque_p = elementwise("opaque", lambda kw: 3)
opaque_p.def_impl(lambda *a, **kw: jax.jit(functools.partial(_opaque_impl, **kw))(*a))
mlir.register_lowering(opaque_p, mlir.lower_fun(_opaque_impl, multiple_results=True))


class OpaqueFns:
    """numeric meaning (replay, translator validation) of the uninterpreted test function `opaque`"""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def fns(self, k):
        name, _, n, i = _parse(k)
        if name != "opaque":
            return None
        return lambda *a: float(_opaque_impl(*[jnp.asarray(float(x)) for x in a])[i])


class NumpyShim:
    """`numpy` as seen by a module, with `array` accepting traced values"""
    fns = {}

    def __init__(self, *modules):
        self.names = modules or ("jaxoplanet.starry.ylm",)

    def __enter__(self):
        class Proxy:
            def __getattr__(self, k):
                return getattr(np, k)

            @staticmethod
            def array(a, *args, **kw):
                leaves = jax.tree_util.tree_leaves(a)
                if any(isinstance(x, jax.core.Tracer) for x in leaves):
                    return jnp.array(a, *args, **kw)
                return np.array(a, *args, **kw)
            asarray = array
        self.saved = []
        for n in self.names:
            m = importlib.import_module(n)
            for k, v in list(vars(m).items()):
                if v is np:
                    self.saved.append((m, k))
                    setattr(m, k, Proxy())

    def __exit__(self, *a):
        for m, k in self.saved:
            setattr(m, k, np)


class ProjectCut(Cut):
    """rotation of a map into the sky frame (decided by C19) as uninterpreted functions of its arguments"""
    module, attr = "jaxoplanet.starry.core.rotation", "left_project"
    prim = elementwise("left_project", lambda kw: kw["n"])

    def __init__(self, size=1.0, split=False):
        self.size = size
        self.split = split

    @staticmethod
    def spin(y, th):
        """rotation of the map about the line of sight that takes (sin th, cos th) to (0, 1)"""
        deg = math.isqrt(y.shape[0]) - 1
        c, s = [1.0, jnp.cos(th)], [0.0, -jnp.sin(th)]
        for _ in range(2, deg + 1):
            c, s = c + [c[-1] * c[1] - s[-1] * s[1]], s + [c[-1] * s[1] + s[-1] * c[1]]
        out = []
        for l in range(deg + 1):
            for m in range(-l, l + 1):
                n = l * l + l
                a = abs(m)
                out.append(y[n + a] * c[a] + y[n - a] * s[a] if m > 0 else y[n - a] * c[a] - y[n + a] * s[a] if m < 0 else y[n])
        return jnp.stack(out)

    def bound(self, k):
        """rotations preserve the norm of every degree (C19)"""
        name, _, _, i = _parse(k)
        if name != "left_project":
            return None
        b = math.sqrt(2 * math.isqrt(i) + 1) * self.size * 1.0001
        return (-b, b)

    def stub(self):
        def left_project(ydeg, inc, obl, theta, theta_z, y):
            n = (ydeg + 1) ** 2
            if ydeg == 0:
                return jnp.asarray(y, float)  # a single coefficient, unchanged by rotation
            y = jnp.asarray(y, float)
            if self.split and theta_z is not None:
                if isinstance(theta_z, (int, float)) and theta_z == 0:
                    return left_project(ydeg, inc, obl, theta, None, y)
                return self.spin(left_project(ydeg, inc, obl, theta, None, y), theta_z)
            a = [jnp.asarray(0.0 if v is None else v, float) for v in (inc, obl, theta, theta_z)]
            return jnp.stack([y[0]] + self.prim.bind(*a, *[y[i] for i in range(n)], order=int(ydeg), n=n)[1:], -1)  # degree 0 is unchanged
        return left_project

    @property
    def fns(self):
        def make(k):
            name, deg, _, i = _parse(k)
            if name != "left_project":
                return None
            real = self.saved[0][2] if getattr(self, "saved", None) else getattr(importlib.import_module(self.module), self.attr)
            return _vector_entry(self, deg, i, lambda a: real(deg, a[0], a[1], a[2], a[3], a[4:]))
        return make


# -- rotations
def rodrigues(axis, angle):
    """rotation matrix (acting on column vectors) about a unit axis"""
    x, y, z = axis
    c, s = jnp.cos(angle), jnp.sin(angle)
    v = 1 - c
    return [[c + x * x * v, x * y * v - z * s, x * z * v + y * s],
            [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
            [z * x * v - y * s, z * y * v + x * s, c + z * z * v]]


euler_p = elementwise("euler", lambda kw: 3)


class RotationCut(Cut):
    """`jax.scipy.spatial.transform.Rotation`, as jaxoplanet uses it: from a rotation vector to Euler angles
    (uninterpreted functions of the vector) or applied to points (Rodrigues' formula)"""
    module, attr = "jax.scipy.spatial.transform", "Rotation"
    SEQ = ["zyz", "ZYZ", "zxz", "ZXZ", "xyz", "zyx"]

    def stub(self):
        class Rotation:
            def __init__(self, v):
                self.v = v

            @classmethod
            def from_rotvec(cls, v):
                return cls(v)

            def as_euler(self, seq):
                return jnp.stack(euler_p.bind(*[jnp.asarray(self.v[k], float) for k in range(3)], order=RotationCut.SEQ.index(seq)))

            def as_matrix(self):
                n = jnp.sqrt(self.v[0] ** 2 + self.v[1] ** 2 + self.v[2] ** 2)
                one = jnp.where(n == 0, 1.0, n)
                return jnp.stack([jnp.stack(r) for r in rodrigues([self.v[k] / one for k in range(3)], n)])

            def apply(self, p):
                return p @ self.as_matrix().T
        return Rotation

    @property
    def fns(self):
        def make(k):
            name, order, _, i = _parse(k)
            if name != "euler":
                return None
            from jax.scipy.spatial.transform import Rotation

            return _vector_entry(self, order, i, lambda a: Rotation.from_rotvec(a).as_euler(self.SEQ[order]))
        return make


def sphere_points(n):
    """n points in general position"""
    k = np.arange(n)
    z = 1 - (2 * k + 1) / n * 0.97
    t = 2.399963 * k + 0.3
    return np.stack([np.sqrt(1 - z * z) * np.cos(t), np.sqrt(1 - z * z) * np.sin(t), z], -1)


def rotated_block(l, y, M):
    """the coefficients of degree l of the function p -> f(M p), f given by the coefficients y (independent of the code)"""
    from checks.maps import sh

    pts = sphere_points(2 * l + 1)
    inv = np.linalg.inv(np.array([[sh(l, m, *p) for m in range(-l, l + 1)] for p in pts], float))
    vals = []
    for p in pts:
        q = [sum(M[i][j] * float(p[j]) for j in range(3)) for i in range(3)]
        vals.append(sum(y[m + l] * sh(l, m, *q) for m in range(-l, l + 1)))
    return [sum(float(inv[i, j]) * vals[j] for j in range(2 * l + 1)) for i in range(2 * l + 1)]


class MatrixCut(Cut):
    """the rotation matrices of `dot_rotation_matrix` (decided by the obligations `axis-*` of C19), given independently"""
    module, attr = "jaxoplanet.starry.core.s2fft_rotation", "compute_rotation_matrices"

    def stub(self):
        def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
            if homogeneous:
                raise NotImplementedError
            if not isinstance(theta, jax.core.Tracer) and np.shape(theta) == () and float(theta) == 0.0:
                return [jnp.eye(2 * l + 1) for l in range(deg + 1)]
            n = jnp.sqrt(x * x + y * y + z * z)
            M = rodrigues([x / n, y / n, z / n], theta)
            out = []
            for l in range(deg + 1):
                rows = [rotated_block(l, [1.0 if k == m else 0.0 for k in range(2 * l + 1)], M) for m in range(2 * l + 1)]
                out.append(jnp.stack([jnp.stack([jnp.asarray(v, float) for v in r]) for r in rows]))
            return out
        return compute_rotation_matrices


class ProfileCut(Cut):
    """the radial profile of a spot (decided by the obligations `profile` of C24) as an uninterpreted function"""
    module, attr = "jaxoplanet.starry.ylm", "spot_profile"
    prim = elementwise("spot_profile", lambda kw: 1)

    def bound(self, k):
        return (-1.0, 0.0) if _parse(k)[0] == "spot_profile" else None

    def stub(self):
        def spot_profile(theta, radius, spot_fac=300):
            return self.prim.bind(*[jnp.asarray(v, float) for v in (theta, radius, spot_fac)], order=0)[0]
        return spot_profile

    @property
    def fns(self):
        def make(k):
            if _parse(k)[0] != "spot_profile":
                return None
            return lambda t, r, f: -1 / (1 + math.exp(min(max(f * (t - r), -700), 700)))
        return make
