"""Symbolic execution of jaxprs (the IR JAX lowers the real code to).

Arrays are either concrete numpy arrays or numpy object arrays of terms
(`terms.T`) / complex pairs (`C`).
"""

import functools

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore

from . import terms as tm
from .terms import T, lift


class Unsupported(Exception):
    pass


class C:
    """complex scalar"""

    __slots__ = ("re", "im")

    def __init__(self, re, im=tm.ZERO):
        self.re, self.im = re, im


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def to_obj(x):
    x = np.asarray(x)
    if x.dtype == object:
        return x
    out = np.empty(x.shape, dtype=object)
    flat = out.reshape(-1)
    if np.iscomplexobj(x):
        for i, v in enumerate(x.reshape(-1)):
            flat[i] = C(lift(v.real), lift(v.imag))
    else:
        for i, v in enumerate(x.reshape(-1).tolist()):
            flat[i] = lift(v)
    return out


def obj_map(f, *xs):
    xs = [to_obj(x) for x in xs]
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, shape) for x in xs]
    out = np.empty(shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[x[()] for x in xs])
        return out
    of = out.reshape(-1)
    its = [x.reshape(-1) for x in xs]
    for i in range(of.size):
        of[i] = f(*[y[i] for y in its])
    return out


# ---- scalar ops with complex support ----
def c_(x):
    return x if isinstance(x, C) else C(x)


def s_add(a, b):
    if isinstance(a, C) or isinstance(b, C):
        a, b = c_(a), c_(b)
        return C(tm.add(a.re, b.re), tm.add(a.im, b.im))
    if a.isbool:
        return tm.or_(a, b)
    return tm.add(a, b)


def s_neg(a):
    if isinstance(a, C):
        return C(tm.neg(a.re), tm.neg(a.im))
    return tm.neg(a)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def m0(a, b):
    """product of parts of complex numbers: the parts that are zero by construction stay zero"""
    return tm.ZERO if a is tm.ZERO or b is tm.ZERO else tm.mul(a, b)


def s_mul(a, b):
    if isinstance(a, C) or isinstance(b, C):
        a, b = c_(a), c_(b)
        return C(
            tm.sub(m0(a.re, b.re), m0(a.im, b.im)),
            tm.add(m0(a.re, b.im), m0(a.im, b.re)),
        )
    if a.isbool and b.isbool:
        return tm.and_(a, b)
    return tm.mul(num(a), num(b))


def num(a):
    return tm.ite(a, tm.ONE, tm.ZERO) if a.isbool else a


def s_div(a, b):
    if isinstance(a, C) or isinstance(b, C):
        a, b = c_(a), c_(b)
        if b.im is tm.ZERO:
            return C(tm.div(a.re, b.re), tm.div(a.im, b.re))
        d = tm.add(tm.mul(b.re, b.re), tm.mul(b.im, b.im))
        n = s_mul(a, C(b.re, tm.neg(b.im)))
        return C(tm.div(n.re, d), tm.div(n.im, d))
    return tm.div(a, b)


def s_abs(a):
    if isinstance(a, C):
        return tm.sqrt(tm.add(tm.mul(a.re, a.re), tm.mul(a.im, a.im)))
    if a.op == "const":
        return tm.const(abs(a.val))
    return tm.ite(tm.le(tm.ZERO, a), a, tm.neg(a))


def ordered(a, b):
    """the minimum and the maximum of two numbers ask the same question"""
    return (b, a) if (b.op == "const", b.id) < (a.op == "const", a.id) else (a, b)


def s_max(a, b):
    if a.isbool:
        return tm.or_(a, b)
    a, b = ordered(a, b)
    return tm.ite(tm.le(b, a), a, b)


def s_min(a, b):
    if a.isbool:
        return tm.and_(a, b)
    a, b = ordered(a, b)
    return tm.ite(tm.le(b, a), b, a)


def s_sign(a):
    return tm.ite(tm.lt(tm.ZERO, a), tm.ONE, tm.ite(tm.lt(a, tm.ZERO), tm.const(-1), tm.ZERO))


def trunc(a):
    if a.op == "const":
        return tm.const(int(a.val))
    return tm.ite(tm.le(tm.ZERO, a), tm.floor(a), tm.neg(tm.floor(tm.neg(a))))


def s_rem(x, y, isint=False):
    if x.op == "const" and y.op == "const" and y.val != 0:
        q = int(x.val / y.val)
        return tm.const(x.val - q * y.val)
    return tm.sub(x, tm.mul(y, trunc(tm.div(x, y))))


def s_exp(a):
    if isinstance(a, C):
        m = tm.exp(a.re)
        return C(tm.mul(m, tm.cos(a.im)), tm.mul(m, tm.sin(a.im)))
    return tm.exp(a)


def s_round(a):
    # round half to even is irrelevant off the half-integers
    return tm.floor(tm.add(a, tm.HALF))


def s_ipow(a, n):
    if isinstance(a, C):
        r = C(tm.ONE)
        for _ in range(abs(n)):
            r = s_mul(r, a)
        return r if n >= 0 else s_div(C(tm.ONE), r)
    return tm.ipow(a, n)


def s_pow(a, b):
    if isinstance(a, C) or isinstance(b, C):
        raise Unsupported("complex pow")
    if b.op == "ite" and b.args[1].op == "const":
        return tm.ite(b.args[0], s_pow(a, b.args[1]), s_pow(a, b.args[2]))
    return tm.power(a, b)


def s_asin(a):
    return tm.atan2(a, tm.sqrt(tm.sub(tm.ONE, tm.mul(a, a))))


def s_acos(a):
    return tm.atan2(tm.sqrt(tm.sub(tm.ONE, tm.mul(a, a))), a)


def cmp_(f):
    def g(a, b):
        if isinstance(a, C) or isinstance(b, C):
            raise Unsupported("complex compare")
        return f(a, b)

    return g


def s_eq(a, b):
    if isinstance(a, C) or isinstance(b, C):
        a, b = c_(a), c_(b)
        return tm.and_(tm.eq(a.re, b.re), tm.eq(a.im, b.im))
    return tm.eq(a, b)


ELEMENTWISE = {
    "add": s_add, "add_any": s_add, "sub": s_sub, "mul": s_mul, "div": s_div, "neg": s_neg,
    "abs": s_abs, "sign": s_sign, "max": s_max, "min": s_min,
    "sqrt": tm.sqrt, "rsqrt": lambda a: tm.div(tm.ONE, tm.sqrt(a)),
    "cbrt": lambda a: tm.root(a, 3), "square": lambda a: s_mul(a, a),
    "exp": s_exp, "log": tm.log, "log1p": lambda a: tm.log(tm.add(tm.ONE, a)),
    "expm1": lambda a: tm.sub(tm.exp(a), tm.ONE),
    "sin": tm.sin, "cos": tm.cos, "tan": tm.tan, "atan2": tm.atan2,
    "asin": s_asin, "acos": s_acos, "atan": lambda a: tm.atan2(a, tm.ONE),
    "floor": tm.floor, "ceil": lambda a: tm.neg(tm.floor(tm.neg(a))),
    "eq": s_eq, "ne": lambda a, b: tm.not_(s_eq(a, b)),
    "lt": tm.lt, "le": tm.le, "gt": lambda a, b: tm.lt(b, a), "ge": lambda a, b: tm.le(b, a), "le_to": tm.le, "lt_to": tm.lt,
    "and": tm.and_, "or": tm.or_, "not": tm.not_,
    "xor": lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b)),
    "real": lambda a: c_(a).re, "imag": lambda a: c_(a).im,
    "conj": lambda a: C(c_(a).re, tm.neg(c_(a).im)),
    "complex": lambda a, b: C(a, b),
    "is_finite": lambda a: tm.TRUE,
    "stop_gradient": lambda a: a, "copy": lambda a: a, "copy_p": lambda a: a,
    "round": s_round, "nextafter": lambda a, b: a, "pow": s_pow, "rem": s_rem,
}

MOVE = {
    "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "slice",
    "concatenate", "rev", "pad", "gather", "dynamic_slice", "dynamic_update_slice", "split",
    "scatter", "reduce_precision",
}


def tree_has_sym(xs):
    return any(is_sym(x) for x in xs)


def bind_concrete(eqn, invals):
    with jax.ensure_compile_time_eval():
        out = eqn.primitive.bind(*[jnp.asarray(x) for x in invals], **eqn.params)
    if eqn.primitive.multiple_results:
        return [np.asarray(o) for o in out]
    return [np.asarray(out)]


def move(eqn, invals):
    """Data movement: run the real primitive on integer positions."""
    table = [None]
    ids = []
    symbolic_index = False
    n_data = {"gather": 1, "dynamic_slice": 1, "dynamic_update_slice": 2}.get(eqn.primitive.name)
    name = eqn.primitive.name
    data_pos = range(len(invals))
    if name in ("gather", "dynamic_slice"):
        data_pos = [0]
    elif name == "dynamic_update_slice":
        data_pos = [0, 1]
    elif name == "scatter":
        data_pos = [0, 2]
    args = []
    for i, x in enumerate(invals):
        if i in data_pos:
            o = to_obj(x)
            idx = np.empty(o.shape, dtype=np.int64)
            flat = idx.reshape(-1)
            for k, v in enumerate(o.reshape(-1)):
                flat[k] = len(table)
                table.append(v)
            args.append(idx)
        else:
            if is_sym(x):
                symbolic_index = True
            args.append(x)
    if symbolic_index:
        return symbolic_move(eqn, invals)
    params = dict(eqn.params)
    if name == "gather" and params.get("fill_value", None) is not None:
        fv = float(params["fill_value"])
        table[0] = tm.NAN if fv != fv else tm.const(fv)
        params["fill_value"] = 0
    with jax.ensure_compile_time_eval():
        out = eqn.primitive.bind(*[jnp.asarray(a) for a in args], **params)
    outs = out if eqn.primitive.multiple_results else [out]
    res = []
    for o in outs:
        o = np.asarray(o)
        r = np.empty(o.shape, dtype=object)
        rf = r.reshape(-1)
        for k, j in enumerate(o.reshape(-1)):
            if j <= 0 or j >= len(table):
                # out-of-bounds fill produced by gather(mode=fill): NaN
                rf[k] = tm.NAN if table[0] is None else table[0]
            else:
                rf[k] = table[j]
        res.append(r)
    return res


def symbolic_move(eqn, invals):
    """gather / dynamic_slice with symbolic indices: ite over every concrete index."""
    name = eqn.primitive.name
    if name == "dynamic_slice":
        op, starts = invals[0], invals[1:]
        op = to_obj(op)
        sizes = eqn.params["slice_sizes"]
        ranges = []
        for s, d, z in zip(starts, op.shape, sizes):
            ranges.append(range(d - z + 1))
        out = None

        def pick(k, sl):
            if k == len(starts):
                return op[tuple(sl)]
            s = starts[k]
            z = sizes[k]
            if not is_sym(s):
                v = int(np.clip(int(s), 0, op.shape[k] - z))
                return pick(k + 1, sl + [slice(v, v + z)])
            s = s[()] if s.ndim == 0 else s.reshape(-1)[0]
            hi = op.shape[k] - z
            cur = pick(k + 1, sl + [slice(hi, hi + z)])
            for v in range(hi - 1, -1, -1):
                other = pick(k + 1, sl + [slice(v, v + z)])
                cond = tm.le(s, tm.const(v))
                cur = obj_map(lambda a, b: s_ite(cond, a, b), other, cur)
            return cur

        return [pick(0, [])]
    if name == "gather":
        return [symbolic_gather(eqn, invals)]
    raise Unsupported(f"symbolic index in {name}")


def symbolic_gather(eqn, invals):
    op, idx = to_obj(invals[0]), to_obj(invals[1])
    dn = eqn.params["dimension_numbers"]
    sizes = eqn.params["slice_sizes"]
    # Enumerate each row of indices: fork on concrete index values
    batch_shape = idx.shape[:-1]
    k = idx.shape[-1]
    sim = dn.start_index_map
    if dn.operand_batching_dims:
        raise Unsupported("batched gather with symbolic index")
    # evaluate gather for one concrete full index array at a time, per batch element
    offset_dims = dn.offset_dims

    def slice_at(starts):
        sl = []
        for d in range(op.ndim):
            if d in sim:
                v = starts[sim.index(d)]
                v = max(0, min(v, op.shape[d] - sizes[d]))
            else:
                v = 0
            sl.append(slice(v, v + sizes[d]))
        r = op[tuple(sl)]
        keep = [d for d in range(op.ndim) if d not in dn.collapsed_slice_dims]
        return r.reshape([sizes[d] for d in keep])

    def row(ix):
        def pick(j, acc):
            if j == k:
                return slice_at(acc)
            s = ix[j]
            d = sim[j]
            hi = op.shape[d] - sizes[d]
            if s.op == "const":
                return pick(j + 1, acc + [int(s.val)])
            cur = pick(j + 1, acc + [hi])
            for v in range(hi - 1, -1, -1):
                other = pick(j + 1, acc + [v])
                cond = tm.le(s, tm.const(v))
                cur = obj_map(lambda a, b: s_ite(cond, a, b), other, cur)
            return cur

        return pick(0, [])

    rows = [row(ix) for ix in idx.reshape(-1, k)]
    inner = rows[0].shape
    arr = np.empty((len(rows),) + inner, dtype=object)
    for i, r in enumerate(rows):
        arr[i] = r
    arr = arr.reshape(batch_shape + inner)
    # place offset dims
    out_ndim = len(batch_shape) + len(inner)
    perm = [None] * out_ndim
    bi = 0
    ii = 0
    for d in range(out_ndim):
        if d in offset_dims:
            perm[d] = len(batch_shape) + ii
            ii += 1
        else:
            perm[d] = bi
            bi += 1
    return arr.transpose(perm)


def s_ite(c, a, b):
    if isinstance(a, C) or isinstance(b, C):
        a, b = c_(a), c_(b)
        return C(tm.ite(c, a.re, b.re), tm.ite(c, a.im, b.im))
    return tm.ite(c, a, b)


def select_n(eqn, invals):
    w, cases = invals[0], invals[1:]
    if not is_sym(w):
        cases = [np.broadcast_to(to_obj(c), np.shape(c)) for c in cases]
        w = np.asarray(w)
        wi = w.astype(int)
        if wi.ndim == 0:
            return [cases[int(wi)]]
        out = np.empty(cases[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = cases[wi[ix]][ix]
        return [out]
    assert len(cases) == 2
    if w.ndim == 0 and np.ndim(cases[0]) > 0:
        w = np.broadcast_to(w, np.shape(cases[0]))
    return [obj_map(lambda c, f, t: s_ite(c, t, f), w, cases[0], cases[1])]


def reduce_axes(x, axes, f, init=None):
    x = to_obj(x)
    axes = tuple(axes)
    keep = [d for d in range(x.ndim) if d not in axes]
    y = x.transpose(keep + list(axes)).reshape([x.shape[d] for d in keep] + [int(np.prod([x.shape[d] for d in axes], dtype=int))])
    out = np.empty(y.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        v = y[ix]
        if len(v) == 0:
            out[ix] = init
            continue
        r = v[0]
        for w in v[1:]:
            r = f(r, w)
        out[ix] = r
    return out


def dot_general(eqn, invals):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    a, b = to_obj(invals[0]), to_obj(invals[1])
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    A = a.transpose(list(lb) + lf + list(lc))
    B = b.transpose(list(rb) + rf + list(rc))
    bs = A.shape[: len(lb)]
    ls = A.shape[len(lb): len(lb) + len(lf)]
    rs = B.shape[len(rb): len(rb) + len(rf)]
    K = int(np.prod([a.shape[d] for d in lc], dtype=int))
    A = A.reshape(int(np.prod(bs, dtype=int)), int(np.prod(ls, dtype=int)), K)
    B = B.reshape(int(np.prod(bs, dtype=int)), int(np.prod(rs, dtype=int)), K)
    out = np.empty((A.shape[0], A.shape[1], B.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            for k in range(out.shape[2]):
                s = tm.ZERO
                for p, q in zip(A[i, j], B[i, k]):
                    s = s_add(s, s_mul(p, q))
                out[i, j, k] = s
    return [out.reshape(bs + ls + rs)]


def densify(data, idx, shape):
    """dense array of a BCOO matrix with concrete indices"""
    if is_sym(idx):
        raise Unsupported("sparse matrix with symbolic indices")
    data, idx = to_obj(data), np.asarray(idx)
    nb, ns = idx.ndim - 2, idx.shape[-1]
    out = np.empty(shape, dtype=object)
    out.fill(tm.ZERO)
    for b in np.ndindex(*shape[:nb]):
        ib = tuple(min(i, n - 1) for i, n in zip(b, idx.shape[:nb]))
        db = tuple(min(i, n - 1) for i, n in zip(b, data.shape[:nb]))
        for k in range(idx.shape[nb]):
            ix = tuple(int(i) for i in idx[ib + (k,)])
            if any(i >= n for i, n in zip(ix, shape[nb:nb + ns])):
                continue
            v = data[db + (min(k, data.shape[nb] - 1),)]
            at = b + ix
            if isinstance(v, np.ndarray):
                for d in np.ndindex(*v.shape):
                    out[at + d] = s_add(out[at + d], v[d])
            else:
                out[at] = s_add(out[at], v)
    return out


def scatter_op(eqn, invals, f):
    """scatter-add/mul with concrete indices: one update element at a time."""
    operand, idx, upd = to_obj(invals[0]).copy(), invals[1], to_obj(invals[2])
    if is_sym(idx):
        raise Unsupported("scatter with symbolic indices")
    p = dict(eqn.params)
    # positions hit by each update element: scatter unique ids one at a time through
    # the real `scatter` primitive
    pos = np.zeros(operand.shape, dtype=np.int64)
    n = upd.size
    ids = np.arange(1, n + 1).reshape(upd.shape)
    dn = p["dimension_numbers"]
    for e in range(n):
        u = np.zeros(upd.shape, dtype=np.int64)
        u.reshape(-1)[e] = e + 1
        with jax.ensure_compile_time_eval():
            r = np.asarray(
                jax.lax.scatter_add(
                    jnp.asarray(pos), jnp.asarray(idx), jnp.asarray(u), dn,
                    indices_are_sorted=False, unique_indices=False, mode=p["mode"],
                )
            )
        hit = np.argwhere(r == e + 1)
        for h in hit:
            h = tuple(h)
            operand[h] = f(operand[h], upd.reshape(-1)[e])
    return [operand]


def sort_net(keys, vals_list, num_keys):
    """stable insertion network along the last axis; keys/vals: list of 1-d lists"""
    n = len(keys[0])
    arrs = [list(k) for k in keys] + [list(v) for v in vals_list]
    for i in range(1, n):
        for j in range(i, 0, -1):
            # swap if arr[j] < arr[j-1] (lexicographic)
            c = tm.FALSE
            for k in range(num_keys - 1, -1, -1):
                a, b = arrs[k][j], arrs[k][j - 1]
                c = tm.or_(tm.lt(a, b), tm.and_(tm.eq(a, b), c))
            if c is tm.FALSE:
                break
            for r in arrs:
                x, y = r[j - 1], r[j]
                r[j - 1] = s_ite(c, y, x)
                r[j] = s_ite(c, x, y)
    return arrs


STUBS = {}  # primitive name -> python callable(list of object arrays, params) -> list


class Interp:
    def __init__(self, unroll=64):
        self.unroll = unroll
        self.side = []  # side constraints (terms) introduced (fresh variables)
        self.fresh = 0
        self.functions = set()

    def freshvar(self, hint):
        self.fresh += 1
        return tm.var(f"_{hint}{self.fresh}")

    def run(self, closed, args):
        return self.eval(closed.jaxpr, [np.asarray(c) for c in closed.consts], args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return np.asarray(v.val)
            return env[v]

        def write(v, x):
            env[v] = x

        for v, c in zip(jaxpr.constvars, consts):
            write(v, c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            write(v, a)
        for eqn in jaxpr.eqns:
            invals = [read(v) for v in eqn.invars]
            try:
                outs = self.eqn(eqn, invals)
            except Unsupported:
                raise
            except Exception as e:
                raise type(e)(f"in {eqn.primitive.name}: {e}") from e
            for v, o in zip(eqn.outvars, outs):
                if not isinstance(o, np.ndarray):
                    o = np.asarray(o)
                assert o.shape == tuple(v.aval.shape), (eqn.primitive.name, o.shape, v.aval.shape)
                write(v, o)
        return [read(v) for v in jaxpr.outvars]

    def note(self, eqn):
        si = getattr(eqn, "source_info", None)
        try:
            tb = si.traceback
            if tb is None:
                return
            for fr in tb.frames:
                if "/src/jaxoplanet/" in fr.file_name:
                    self.functions.add(
                        fr.file_name.split("/src/")[1] + ":" + fr.function_name
                    )
        except Exception:
            pass

    def eqn(self, eqn, invals):
        p = eqn.primitive
        name = p.name
        params = eqn.params
        self.note(eqn)
        if name in STUBS:
            return STUBS[name](self, invals, params)
        if name in ("pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "custom_lin"):
            cj = params.get("jaxpr") or params.get("call_jaxpr")
            if hasattr(cj, "jaxpr"):
                return self.eval(cj.jaxpr, [np.asarray(c) for c in cj.consts], invals)
            return self.eval(cj, [], invals)
        if name == "custom_jvp_call":
            cj = params["call_jaxpr"]
            return self.eval(cj.jaxpr, [np.asarray(c) for c in cj.consts], invals)
        if name in ("custom_vjp_call", "custom_vjp_call_jaxpr"):
            cj = params.get("call_jaxpr") or params.get("fun_jaxpr")
            return self.eval(cj.jaxpr, [np.asarray(c) for c in cj.consts], invals)
        if not tree_has_sym(invals) and name not in ("while", "scan", "cond", "custom_linear_solve"):
            return bind_concrete(eqn, invals)
        if name == "while":
            return self.do_while(eqn, invals)
        if name == "scan":
            return self.do_scan(eqn, invals)
        if name == "cond":
            return self.do_cond(eqn, invals)
        if name == "custom_linear_solve":
            return self.do_solve(eqn, invals)
        if name in MOVE:
            return move(eqn, invals)
        if name == "integer_pow":
            return [obj_map(lambda a: s_ipow(a, params["y"]), invals[0])]
        if name == "pow":
            return [obj_map(s_pow, *invals)]
        if name == "select_n":
            return select_n(eqn, invals)
        if name == "convert_element_type":
            return [self.convert(invals[0], eqn.invars[0].aval.dtype, params["new_dtype"])]
        if name == "clamp":
            lo, x, hi = invals
            return [obj_map(lambda l, a, h: s_min(s_max(a, l), h), lo, x, hi)]
        if name == "reduce_sum":
            return [reduce_axes(invals[0], params["axes"], s_add, tm.ZERO)]
        if name == "reduce_prod":
            return [reduce_axes(invals[0], params["axes"], s_mul, tm.ONE)]
        if name == "reduce_max":
            return [reduce_axes(invals[0], params["axes"], s_max)]
        if name == "reduce_min":
            return [reduce_axes(invals[0], params["axes"], s_min)]
        if name == "reduce_and":
            return [reduce_axes(invals[0], params["axes"], tm.and_, tm.TRUE)]
        if name == "reduce_or":
            return [reduce_axes(invals[0], params["axes"], tm.or_, tm.FALSE)]
        if name in ("argmax", "argmin"):
            return [self.argm(invals[0], params, name)]
        if name in ("cumsum", "cumprod", "cummax", "cummin"):
            f = {"cumsum": s_add, "cumprod": s_mul, "cummax": s_max, "cummin": s_min}[name]
            x = to_obj(invals[0]).copy()
            ax = params["axis"]
            x = np.moveaxis(x, ax, 0).copy()
            if params.get("reverse"):
                x = x[::-1].copy()
            for i in range(1, x.shape[0]):
                for ix in np.ndindex(*x.shape[1:]):
                    x[(i,) + ix] = f(x[(i - 1,) + ix], x[(i,) + ix])
            if params.get("reverse"):
                x = x[::-1]
            return [np.moveaxis(x, 0, ax)]
        if name == "dot_general":
            return dot_general(eqn, invals)
        if name == "scatter-add":
            return scatter_op(eqn, invals, s_add)
        if name in ("scatter_mul", "scatter-mul"):
            return scatter_op(eqn, invals, s_mul)
        if name == "sort":
            nk = params["num_keys"]
            dim = params["dimension"]
            xs = [np.moveaxis(to_obj(x), dim, -1) for x in invals]
            outs = [np.empty(x.shape, dtype=object) for x in xs]
            for ix in np.ndindex(*xs[0].shape[:-1]):
                r = sort_net([x[ix] for x in xs[:nk]], [x[ix] for x in xs[nk:]], nk)
                for o, v in zip(outs, r):
                    for k, w in enumerate(v):
                        o[ix + (k,)] = w
            return [np.moveaxis(o, -1, dim) for o in outs]
        if name in ("atan2", "rem") or name in ELEMENTWISE:
            f = ELEMENTWISE[name]
            if name in ("and", "or", "not", "xor") and eqn.invars[0].aval.dtype != np.bool_:
                raise Unsupported(f"bitwise {name} on integers")
            if name == "div" and np.issubdtype(eqn.outvars[0].aval.dtype, np.integer):
                return [obj_map(lambda a, b: trunc(tm.div(a, b)), *invals)]
            if name == "is_finite":
                return [obj_map(self.isfin, invals[0])]
            return [obj_map(f, *invals)]
        if name == "bcoo_todense":
            return [densify(*invals, params["spinfo"].shape)]
        if name == "bcoo_dot_general":
            return dot_general(eqn, [densify(*invals[:2], params["lhs_spinfo"].shape), invals[2]])
        if name == "bcoo_rdot_general":
            return dot_general(eqn, [invals[0], densify(*invals[1:], params["rhs_spinfo"].shape)])
        if name.startswith("bcoo_") or name.startswith("coo_"):
            return self.by_impl(eqn, invals)
        if name == "split":
            return move(eqn, invals)
        raise Unsupported(f"primitive {name}")

    def isfin(self, a):
        if a.op in ("inf", "neg_inf", "nan"):
            return tm.FALSE
        return tm.TRUE

    def by_impl(self, eqn, invals):
        avals = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
        f = functools.partial(eqn.primitive.impl, **eqn.params)
        cj = jax.make_jaxpr(lambda *a: f(*a))(*avals)
        return self.eval(cj.jaxpr, [np.asarray(c) for c in cj.consts], invals)

    def convert(self, x, old, new):
        new = np.dtype(new)
        old = np.dtype(old)

        def f(a):
            if isinstance(a, C):
                return a if np.issubdtype(new, np.complexfloating) else a.re
            if new == np.bool_:
                return a if a.isbool else tm.not_(tm.eq(a, tm.ZERO))
            if a.isbool:
                a = tm.ite(a, tm.ONE, tm.ZERO)
            if np.issubdtype(new, np.complexfloating):
                return C(a)
            if np.issubdtype(new, np.integer) and np.issubdtype(old, np.floating):
                return trunc(a)
            return a

        return obj_map(f, x)

    def argm(self, x, params, name):
        (ax,) = params["axes"]
        x = np.moveaxis(to_obj(x), ax, -1)
        out = np.empty(x.shape[:-1], dtype=object)
        for ix in np.ndindex(*out.shape):
            v = x[ix]
            best, bi = v[0], tm.ZERO
            for k in range(1, len(v)):
                c = tm.lt(best, v[k]) if name == "argmax" else tm.lt(v[k], best)
                best = tm.ite(c, v[k], best)
                bi = tm.ite(c, tm.const(k), bi)
            out[ix] = bi
        return out

    def do_cond(self, eqn, invals):
        branches = eqn.params["branches"]
        idx, ops = invals[0], invals[1:]
        if not is_sym(idx):
            b = branches[int(np.clip(int(idx), 0, len(branches) - 1))]
            return self.run(b, ops)
        i = idx[()] if idx.ndim == 0 else idx
        if i.isbool:
            i = tm.ite(i, tm.ONE, tm.ZERO)
        outs = self.run(branches[-1], ops)
        for k in range(len(branches) - 2, -1, -1):
            o2 = self.run(branches[k], ops)
            c = tm.le(i, tm.const(k))
            outs = [obj_map(lambda a, b: s_ite(c, a, b), x, y) for x, y in zip(o2, outs)]
        return outs

    def do_while(self, eqn, invals):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, carry = invals[:cn], invals[cn: cn + bn], list(invals[cn + bn:])
        for it in range(self.unroll):
            (c,) = self.run(p["cond_jaxpr"], list(cc) + carry)
            c = to_obj(c)[()]
            if c is tm.FALSE:
                return carry
            new = self.run(p["body_jaxpr"], list(bc) + carry)
            if c is tm.TRUE:
                carry = new
            else:
                carry = [obj_map(lambda a, b: s_ite(c, a, b), x, y) for x, y in zip(new, carry)]
        (c,) = self.run(p["cond_jaxpr"], list(cc) + carry)
        c = to_obj(c)[()]
        if c is not tm.FALSE:
            # unwinding assertion
            self.side.append(("unwind", tm.not_(c)))
        return carry

    def do_scan(self, eqn, invals):
        p = eqn.params
        nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = invals[:nc], list(invals[nc: nc + nk]), invals[nc + nk:]
        ys = None
        rng = range(p["length"])
        if p["reverse"]:
            rng = reversed(rng)
        rows = []
        for i in rng:
            outs = self.run(p["jaxpr"], list(consts) + carry + [x[i] if isinstance(x[i], np.ndarray) else np.array(x[i], dtype=x.dtype) for x in xs])
            carry = outs[:nk]
            rows.append(outs[nk:])
        if p["reverse"]:
            rows = rows[::-1]
        ny = len(eqn.outvars) - nk
        ys = []
        for j in range(ny):
            if p["length"] == 0:
                ys.append(np.zeros(eqn.outvars[nk + j].aval.shape))
                continue
            items = [r[j] for r in rows]
            if any(is_sym(x) for x in items):
                items = [to_obj(x) for x in items]
                arr = np.empty((len(items),) + items[0].shape, dtype=object)
                for k, x in enumerate(items):
                    arr[k] = x
                ys.append(arr)
            else:
                ys.append(np.stack([np.asarray(x) for x in items]))
        return list(carry) + ys

    def do_solve(self, eqn, invals):
        """A x = b, through the matvec jaxpr: Cramer for the (small) dense system."""
        p = eqn.params
        cl, jl = p["const_lengths"], p["jaxprs"]
        mv_consts = invals[: cl.matvec]
        b = invals[sum(cl):]
        assert len(b) == 1
        b = to_obj(b[0])
        n = b.shape[0]
        shape = b.shape
        # columns of A by applying matvec to unit vectors
        cols = []
        trailing = shape[1:]
        if trailing and int(np.prod(trailing)) != 1:
            raise Unsupported("matrix solve")
        for i in range(n):
            e = np.zeros(shape)
            e[i] = 1.0
            (c,) = self.run(jl.matvec, list(mv_consts) + [e])
            cols.append([to_obj(c).reshape(-1)[k] for k in range(n)])
        A = [[cols[j][i] for j in range(n)] for i in range(n)]
        bb = list(b.reshape(-1))

        def det(M):
            if len(M) == 1:
                return M[0][0]
            r = tm.ZERO
            for j in range(len(M)):
                m = [row[:j] + row[j + 1:] for row in M[1:]]
                t = tm.mul(M[0][j], det(m))
                r = tm.add(r, t) if j % 2 == 0 else tm.sub(r, t)
            return r

        D = det(A)
        out = np.empty(n, dtype=object)
        for j in range(n):
            Mj = [row[:j] + [bb[i]] + row[j + 1:] for i, row in enumerate(A)]
            out[j] = tm.div(det(Mj), D)
        return [out.reshape(shape)]


def symbolic_args(spec):
    """spec: list of (name, shape). returns object arrays of variables"""
    out = []
    for name, shape in spec:
        a = np.empty(shape, dtype=object)
        if shape == ():
            a[()] = tm.var(name)
        else:
            for ix in np.ndindex(*shape):
                a[ix] = tm.var(name + "_" + "_".join(map(str, ix)))
        out.append(a)
    return out


def trace(fn, spec, unroll=64):
    """Trace fn(*arrays) and execute it symbolically.

    returns (outputs pytree of object arrays, interp)
    """
    args = [jax.ShapeDtypeStruct(s, jnp.float64) for _, s in spec]
    cj, out_shape = jax.make_jaxpr(fn, return_shape=True)(*args)
    it = Interp(unroll)
    outs = it.run(cj, symbolic_args(spec))
    outs = [to_obj(o) for o in outs]
    tree = jax.tree_util.tree_structure(out_shape)
    it.neqns = count_eqns(cj.jaxpr)
    return jax.tree_util.tree_unflatten(tree, outs), it


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for s in v if isinstance(v, (tuple, list)) else (v,):
                if hasattr(s, "jaxpr"):
                    n += count_eqns(s.jaxpr)
                elif hasattr(s, "eqns"):
                    n += count_eqns(s)
    return n
