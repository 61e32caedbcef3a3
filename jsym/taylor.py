"""Taylor models: enclosures of terms over many small boxes ("cells") at once.

A term is enclosed on every cell by a polynomial of order N in the scaled inputs
t in [-1,1]^d plus a remainder ball.  All rounding errors of the enclosure's own
arithmetic go into the remainder.  A goal |lhs - rhs| <= tol on a cell becomes a
linear query over the bounded monomials and the remainder, decided by Z3; cells
that cannot be decided are bisected.
"""

import itertools
import math
import sys
import time

import numpy as np

from . import terms as tm

U = 1.2e-16  # unit roundoff, with a margin
TINY = 1e-300


class Split(Exception):
    """the cells of a batch need different decisions"""

    def __init__(self, key, options):
        self.key, self.options = key, options


class Basis:
    def __init__(self, d, N):
        self.d, self.N = d, N
        mons = [m for m in itertools.product(range(N + 1), repeat=d) if sum(m) <= N]
        mons.sort(key=lambda m: (sum(m), m))
        self.mons = mons
        self.K = len(mons)
        ix = {m: i for i, m in enumerate(mons)}
        self.deg = np.array([sum(m) for m in mons])
        self.start = [int(np.searchsorted(self.deg, k)) for k in range(N + 2)]
        self.tab = []
        for i, a in enumerate(mons):
            js = [j for j, b in enumerate(mons) if sum(a) + sum(b) <= N]
            ks = [ix[tuple(x + y for x, y in zip(a, mons[j]))] for j in js]
            assert js == list(range(len(js)))  # sorted by degree: a prefix
            self.tab.append((len(js), np.array(ks)))
        I, J, T = zip(*[(i, j, k) for i, (n, ks) in enumerate(self.tab) for j, k in zip(range(n), ks)])
        o = np.argsort(np.array(T), kind="stable")
        self.I, self.J, T = np.array(I)[o], np.array(J)[o], np.array(T)[o]
        self.at = np.searchsorted(T, np.arange(self.K))
        self.lin = [ix[tuple(1 if i == j else 0 for j in range(d))] for i in range(d)]


class TM:
    """c: [B, K] coefficients, r: [B] remainder; k: powers of denominators that are or come close to zero (kept apart, they may cancel)"""
    __slots__ = ("c", "r", "k")

    def __init__(self, c, r, k=()):
        self.c, self.r, self.k = c, r, dict(k)


def merge(a, b):
    k = dict(a)
    for i, n in b.items():
        k[i] = k.get(i, 0) + n
    return {i: n for i, n in k.items() if n}


class Eval:
    near = 0.03
    def __init__(self, basis, boxes, names, decisions, kinds, parent=None, rows=None):
        """boxes: [B, d, 2]"""
        self.b = basis
        self.boxes = boxes
        self.B = boxes.shape[0]
        self.names = {n: i for i, n in enumerate(names)}
        self.dec = decisions
        self.kinds = kinds
        self.memo = {}
        self.base = {}  # term id -> TM
        self.parent, self.rows = parent, rows  # what was enclosed before the cells were told apart
        if parent is not None:
            self.base = {i: TM(t.c[rows], t.r[rows], t.k) for i, t in parent.base.items()}
        self.err = np.seterr(all="ignore")

    # -- arithmetic
    def const(self, v, err=0.0):
        c = np.zeros((self.B, self.b.K))
        c[:, 0] = v
        return TM(c, np.full(self.B, abs(v) * U + err + TINY))

    def var(self, i):
        lo, hi = self.boxes[:, i, 0], self.boxes[:, i, 1]
        c = np.zeros((self.B, self.b.K))
        c[:, 0] = 0.5 * (lo + hi)
        c[:, self.b.lin[i]] = 0.5 * (hi - lo)
        return TM(c, 2 * U * (abs(lo) + abs(hi)))

    @staticmethod
    def norm(a):
        return np.abs(a.c).sum(1)

    def range(self, a):
        a = self.plain(a)
        n = self.norm(a) - np.abs(a.c[:, 0]) + a.r
        n = n * (1 + 1e-13)
        m = a.c[:, 0]
        return m - n - np.abs(m) * U, m + n + np.abs(m) * U

    def add(self, a, b):
        a, b = self.align(a, b)
        c = a.c + b.c
        return TM(c, (a.r + b.r) * (1 + 4 * U) + U * np.abs(c).sum(1), a.k)

    def scale(self, a, s):
        c = a.c * s
        return TM(c, a.r * abs(s) * (1 + 4 * U) + 2 * U * np.abs(c).sum(1), a.k)

    def mul(self, a, b):
        k = merge(a.k, b.k)
        B, K = a.c.shape
        out = np.add.reduceat(a.c[:, self.b.I] * b.c[:, self.b.J], self.b.at, axis=1)
        A, C = np.abs(a.c), np.abs(b.c)
        st = self.b.start
        da = [A[:, st[k_]:st[k_ + 1]].sum(1) for k_ in range(self.b.N + 1)]
        db = [C[:, st[k_]:st[k_ + 1]].sum(1) for k_ in range(self.b.N + 1)]
        cut = np.zeros(B)
        N = self.b.N
        tail = np.zeros(B)
        for i in range(1, N + 1):
            tail = tail + db[N + 1 - i]
            cut = cut + da[i] * tail
        na, nb = sum(da), sum(db)
        r = cut + na * b.r + nb * a.r + a.r * b.r + (K + 4) * U * na * nb
        return TM(out, r * (1 + 1e-14) + TINY, k)

    def power(self, a, n):
        r = None
        for _ in range(n):
            r = a if r is None else self.mul(r, a)
        return r if r is not None else self.const(1.0)

    # -- poles
    def align(self, a, b):
        if a.k == b.k:
            return a, b
        k = {i: min(a.k.get(i, 0), b.k.get(i, 0)) for i in {*a.k, *b.k}}
        return self.lower(a, k), self.lower(b, k)

    def lower(self, a, k):
        c = TM(a.c, a.r)
        for i, n in a.k.items():
            for _ in range(n - k.get(i, 0)):
                c = self.mul(c, self.base[i])
        for i, n in k.items():
            if i not in a.k:
                for _ in range(-n):
                    c = self.mul(c, self.base[i])
        return TM(c.c, c.r, {i: n for i, n in k.items() if n})

    def plain(self, a):
        if not a.k:
            return a
        a = self.lower(a, {i: min(n, 0) for i, n in a.k.items()})
        c = TM(a.c, a.r)
        for i, n in a.k.items():
            inv = self.binomial(self.base[i], -1)
            for _ in range(-n):
                c = self.mul(c, inv)
        return c

    # -- composition: sum_k coef_k u^k + ball
    def compose(self, u, coefs, rem):
        """Horner; u has zero constant part by construction"""
        acc = None
        for c in coefs[::-1]:
            t = np.zeros((self.B, self.b.K))
            t[:, 0] = c
            t = TM(t, np.abs(c) * 4 * U + TINY)
            acc = t if acc is None else self.add(self.mul(acc, u), t)
        return TM(acc.c, acc.r + rem)

    def centred(self, a):
        assert not a.k
        u = TM(a.c.copy(), a.r.copy())
        c0 = u.c[:, 0].copy()
        u.c[:, 0] = 0.0
        return c0, u

    def sincos(self, a, f):
        a = self.plain(a)
        c0, u = self.centred(a)
        N = self.b.N
        rho = self.norm(u) + u.r
        s, c = np.sin(c0), np.cos(c0)
        cyc = [s, c, -s, -c] if f == "sin" else [c, -s, -c, s]
        coefs = [cyc[k % 4] / math.factorial(k) for k in range(N + 1)]
        rem = rho ** (N + 1) / math.factorial(N + 1)
        return self.compose(u, coefs, rem * (1 + 1e-12) + 4 * U * np.exp(np.minimum(rho, 50)))

    def exp(self, a):
        a = self.plain(a)
        c0, u = self.centred(a)
        N = self.b.N
        rho = self.norm(u) + u.r
        e = np.exp(c0)
        coefs = [e / math.factorial(k) for k in range(N + 1)]
        rem = e * np.exp(rho) * rho ** (N + 1) / math.factorial(N + 1)
        return self.compose(u, coefs, rem * (1 + 1e-12) + 8 * U * e * np.exp(np.minimum(rho, 50)))

    def atan2(self, ty, tx):
        ty = self.resolve(ty)
        if ty.op == "const" and ty.val == 0:
            return self.const(math.pi if self.cond(tm.lt(tx, tm.ZERO)) else 0.0)
        y, x = self.plain(self.get(ty)), self.plain(self.get(tx))
        ylo, yhi = self.range(y)
        xlo, _ = self.range(x)
        s, c = y.c[:, 0], x.c[:, 0]
        h = np.hypot(s, c)
        bad = (h == 0) | ~np.isfinite(h) | ((xlo <= 0) & (ylo < 0) & (yhi >= 0))
        h = np.where(bad, 1.0, h)
        s, c = np.where(bad, 0.0, s / h), np.where(bad, 1.0, c / h)

        def by(a, k):  # per-cell factor
            v = a.c * k[:, None]
            return TM(v, a.r * np.abs(k) * (1 + 4 * U) + 2 * U * np.abs(v).sum(1))
        X, Y = self.add(by(x, c), by(y, s)), self.add(by(y, c), by(x, -s))
        lo, _ = self.range(X)
        bad |= ~(lo > 0)
        q = self.mul(Y, self.binomial(X, -1))
        rho = (self.norm(q) + q.r) * (1 + 1e-13)
        bad |= ~(rho < 0.99)
        N = self.b.N
        coefs = [np.full(self.B, 0.0 if k % 2 == 0 else (-1) ** (k // 2) / k) for k in range(N + 1)]
        M = N + 1 if N % 2 == 0 else N + 2
        rh = np.where(bad, 0.5, rho)
        out = self.compose(q, coefs, rh ** M / M * (1 + 1e-12) + 16 * U / (1 - rh))
        a0 = np.arctan2(s, c)
        out.c[:, 0] += a0
        out.r = np.where(bad, np.inf, out.r + 16 * U * (1 + np.abs(a0)))
        return out

    def binomial(self, a, p):
        """a ** p for a > 0 (or any a away from zero when p is -1), remainder infinite elsewhere"""
        N = self.b.N
        c0 = a.c[:, 0]
        bad = (c0 <= 0) if p != -1 else (c0 == 0)
        s0 = np.where(bad, 1.0, c0)
        u = TM(a.c / s0[:, None], a.r / np.abs(s0))
        u.r = u.r * (1 + 4 * U) + 2 * U * self.norm(u)
        u.c[:, 0] = 0.0
        rho = (self.norm(u) + u.r) * (1 + 1e-13)
        bad |= ~(rho < 0.999)
        q, b = [1.0], 1.0
        for k in range(N + 1):
            b = b * (p - k) / (k + 1)
            q.append(b)
        f0 = np.sign(s0) * np.abs(s0) ** p if p == -1 else s0 ** p
        coefs = [np.full(self.B, q[k]) for k in range(N + 1)]
        rh = np.where(bad, 0.5, rho)
        rem = abs(q[N + 1]) * rh ** (N + 1) * (1 - rh) ** min(p - N - 1, 0.0)
        rem = np.where(bad, np.inf, rem * (1 + 1e-12))
        g = self.compose(u, coefs, rem + 16 * U * (1 - rh) ** (-1.0))
        out = TM(g.c * f0[:, None], g.r * np.abs(f0))
        out.r = out.r * (1 + 8 * U) + 16 * U * np.abs(out.c).sum(1)
        return out

    def div(self, t, a, b):
        if b.k:
            n = TM(b.c, b.r)
            q = self.mul(TM(a.c, a.r), self.binomial(n, -1))
            return TM(q.c, q.r, merge(a.k, {i: -n for i, n in b.k.items()}))
        lo, hi = self.range(b)
        zero = (lo <= self.near) & (hi >= -self.near)  # or so small that the quotient loses digits
        if zero.any() and not zero.all():
            raise Split(("pole", t.args[1].id), [(bool(z),) for z in zero])
        if zero.any():
            self.base[t.args[1].id] = b
            return TM(a.c, a.r, merge(a.k, {t.args[1].id: -1}))
        q = self.mul(TM(a.c, a.r), self.binomial(b, -1))
        return TM(q.c, q.r, a.k)

    # -- conditions
    def cond(self, c):
        """True or False for the whole batch, or Split"""
        if ("c", c.id) in self.dec:
            return self.dec[("c", c.id)]
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.cond(c.args[0])
        if op == "and":
            return all(self.cond(x) for x in c.args)
        if op == "or":
            return any(self.cond(x) for x in c.args)
        if op in ("lt", "le", "eq"):
            return self.compare(op, *c.args)
        raise NotImplementedError(op)

    def resolve(self, t):
        while t.op == "ite":
            t = t.args[1] if self.cond(t.args[0]) else t.args[2]
        return t

    def compare(self, op, p, q):
        p, q = self.resolve(p), self.resolve(q)
        if p is q:
            return op != "lt"
        x, y = (p, q) if p.id < q.id else (q, p)
        key = ("o", x.id, y.id)
        # how the comparison turns out for x = y: as for x < y, for x > y, or as for neither
        self.kinds.setdefault(key, set()).add("eq" if op == "eq" else -1 if (op == "le") == (p is x) else 1)
        v = self.dec.get(key)
        if v is None:
            lo, hi = self.range(self.add(self.get(x), self.scale(self.get(y), -1.0)))
            T, F = hi < 0, lo > 0
            if T.all():
                v = -1
            elif F.all():
                v = 1
            else:
                raise Split(key, [(-1,) if a else (1,) if b else (-1, 1) for a, b in zip(T, F)])
        if v == 0:
            return op != "lt"
        if op == "eq":
            return False
        return v == (-1 if p is x else 1)

    # -- terms
    def get(self, t):
        m = self.memo.get(t.id)
        if m is None:
            m = self.memo[t.id] = self.inherit(t) or self._get(t)
        return m

    def inherit(self, t):
        p, chain = self, []
        while p is not None:
            m = p.memo.get(t.id)
            if m is not None:
                for rows in reversed(chain):
                    m = TM(m.c[rows], m.r[rows], m.k)
                return m
            chain.append(p.rows)
            p = p.parent
        return None

    def _get(self, t):
        op = t.op
        if op == "const":
            v = float(t.val)
            return self.const(v)
        if op == "pi":
            return self.const(math.pi)
        if op == "var":
            return self.var(self.names[t.val])
        if op == "add":
            return self.add(self.get(t.args[0]), self.get(t.args[1]))
        if op == "mul":
            a, b = t.args
            if a.op == "const" and self.fits(a):
                return self.scale(self.get(b), float(a.val))
            if a is b:
                x = self.get(a)
                return self.mul(x, x)
            return self.mul(self.get(a), self.get(b))
        if op == "div":
            return self.div(t, self.get(t.args[0]), self.get(t.args[1]))
        if op in ("sqrt", "cbrt", "root"):
            k = {"sqrt": 2, "cbrt": 3}.get(op) or t.val
            return self.binomial(self.plain(self.get(t.args[0])), 1.0 / k)
        if op in ("sin", "cos"):
            return self.sincos(self.get(t.args[0]), op)
        if op == "exp":
            return self.exp(self.get(t.args[0]))
        if op == "atan2":
            return self.atan2(*t.args)
        if op == "floor":
            return self.const(self.floor(t))
        if op == "ite":
            return self.get(t.args[1] if self.cond(t.args[0]) else t.args[2])
        raise NotImplementedError(f"no enclosure of {op}")

    @staticmethod
    def fits(a):
        return True

    def floor(self, t):
        key = ("f", t.id)
        if key in self.dec:
            return float(self.dec[key])
        lo, hi = self.range(self.get(t.args[0]))
        fl, fh = np.floor(lo), np.floor(hi)
        if (fl == fh).all() and (fl == fl[0]).all():
            return float(fl[0])
        opts = []
        for a, b in zip(fl, fh):
            if not (np.isfinite(a) and np.isfinite(b)) or b - a > 3:
                raise NotImplementedError("floor of a wide range")
            opts.append(tuple(range(int(a), int(b) + 1)))
        raise Split(key, opts)


def bound(ev, goal):
    """per cell: bound of |lhs - rhs| (eq), lhs - rhs (le); and the model of the difference"""
    d = ev.plain(ev.add(ev.get(goal.lhs), ev.scale(ev.get(goal.rhs), -1.0)))
    if goal.kind == "eq":
        return ev.norm(d) + d.r, d
    return ev.range(d)[1], d


class Decider:
    def __init__(self, ob, assumptions, goals, names, order):
        self.ob, self.assumptions, self.goals, self.names = ob, assumptions, goals, names
        self.basis = Basis(len(names), order)
        self.groups = 0
        self.forks = 99
        self.kinds = {}

    def run(self, boxes, decisions, ix, bad, bits, forks=0, parent=None, rows=None):
        """bad[i] |= cell i not decided; bits collects (model, goal) to hand to the solver"""
        ev = Eval(self.basis, boxes[ix], self.names, decisions, self.kinds, parent, rows)
        try:
            keep = np.ones(len(ix), bool)
            ev.near = self.ob.tmopts.get("near", Eval.near)
            for a in self.assumptions:
                if not ev.cond(a):
                    return
            for g in self.goals:
                v, d = bound(ev, g)
                ok = v <= 0.9 * g.tol
                bad[ix[~ok]] = True
                bits.append((g, d, ix, ok))
            self.groups += 1
        except Split as s:
            groups = {}
            for i, o in enumerate(s.options):
                groups.setdefault(o, []).append(i)
            for o, rows in groups.items():
                rows = np.array(rows)
                idx = ix[rows]
                if len(o) == 1 and s.key[0] != "pole":
                    # the decision follows from the range of these cells alone
                    self.run(boxes, {**decisions, s.key: o[0]}, idx, bad, bits, forks, ev, rows)
                elif s.key[0] == "pole":
                    self.run(boxes, decisions, idx, bad, bits, forks, ev, rows)
                elif forks >= self.forks:
                    bad[idx] = True  # smaller cells first
                else:
                    for v in o:
                        self.run(boxes, {**decisions, s.key: v}, idx, bad, bits, forks + 1, ev, rows)
                    if s.key[0] == "o" and len(self.kinds.get(s.key, ())) + ("eq" in self.kinds.get(s.key, ())) > 1:
                        # both sides of x = y behave differently from the points on it
                        self.run(boxes, {**decisions, s.key: 0}, idx, bad, bits, forks + 1, ev, rows)


def query(bits, stats, chunk=40):
    """the verdict: no point of any decided cell breaks the goal (linear in the bounded monomials)"""
    import z3

    from . import smt

    for g, d, ix, ok in bits:
        rows = np.flatnonzero(ok)
        for k in range(0, len(rows), chunk):
            s = z3.SolverFor("QF_LRA")
            cases = []
            sel = rows[k:k + chunk]
            top = np.argsort(-np.abs(d.c[sel]).max(0))[:4]
            vs = [z3.Real(f"m{j}") for j in range(len(top))]
            rest = z3.Real("rest")
            for v in vs:
                s.add(v >= -1, v <= 1)
            s.add(rest >= -1, rest <= 1)
            # coefficients in units of tol / 1000, what is cut off goes into the rest
            unit = g.tol / 1000
            n = np.rint(d.c[sel] / unit)
            over = (np.abs(d.c[sel] - n * unit).sum(1) + d.r[sel]) * (1 + 1e-9)
            for row, i in enumerate(sel):
                c = n[row]
                small = int(np.abs(np.delete(c, np.append(top, 0))).sum()) + int(math.ceil(over[row] / unit * (1 + 1e-9))) + 1
                e = z3.RealVal(int(c[0])) + small * rest
                for v, j in zip(vs, top):
                    if j and c[j]:
                        e = e + int(c[j]) * v
                cases.append(z3.Or(e > 1000, e < -1000) if g.kind == "eq" else e > 1000)
            s.add(z3.Or(cases))
            t0 = time.time()
            r = s.check()
            smt.STATS.time += time.time() - t0
            smt.STATS.queries += 1
            if r == z3.unsat:
                smt.STATS.unsat += 1
            else:
                smt.STATS.sat += 1
                return False
    return True


def numbers(roots, env):
    """the terms at many inputs at once (floating point; finds candidates, decides nothing)"""
    memo = {}
    for t in tm.topo(roots):
        a = [memo[x.id] for x in t.args]
        op = t.op
        if op == "const":
            v = float(t.val)
        elif op == "pi":
            v = math.pi
        elif op in ("var", "bvar"):
            v = env[t.val]
        elif op in ("true", "false"):
            v = op == "true"
        elif op in ("inf", "neg_inf", "nan"):
            v = {"inf": math.inf, "neg_inf": -math.inf, "nan": math.nan}[op]
        elif op == "add":
            v = a[0] + a[1]
        elif op == "mul":
            v = a[0] * a[1]
        elif op == "div":
            v = np.divide(a[0], a[1])
        elif op == "root":
            v = np.power(a[0], 1 / t.val)
        elif op in ("sqrt", "cbrt", "sin", "cos", "exp", "log", "floor"):
            v = getattr(np, op)(a[0])
        elif op == "atan2":
            v = np.arctan2(a[0], a[1])
        elif op == "lt":
            v = a[0] < a[1]
        elif op == "le":
            v = a[0] <= a[1]
        elif op == "eq":
            v = a[0] == a[1]
        elif op == "and":
            v = np.logical_and(a[0], a[1])
        elif op == "or":
            v = np.logical_or(a[0], a[1])
        elif op == "not":
            v = np.logical_not(a[0])
        elif op == "ite":
            v = np.where(a[0], a[1], a[2])
        else:
            raise NotImplementedError(op)
        memo[t.id] = v
    return [memo[x.id] for x in roots]


def candidates(gs, assumptions, names, left, seed, n=20000, steps=6):
    """inputs in the undecided cells where the two sides differ most"""
    g = np.random.default_rng(seed)
    ix = g.integers(0, len(left), n)
    pts = left[ix, :, 0] + (left[ix, :, 1] - left[ix, :, 0]) * g.beta(0.4, 0.4, (n, len(names)))
    width = (left[ix, :, 1] - left[ix, :, 0])
    lo, hi = left[:, :, 0].min(0), left[:, :, 1].max(0)

    def gap(p):
        env = {m: p[:, j] for j, m in enumerate(names)}
        vals = numbers([x for q in gs for x in (q.lhs, q.rhs)] + list(assumptions), env)
        worst = np.full(len(p), -np.inf)
        for j, q in enumerate(gs):
            d = np.broadcast_to(vals[2 * j] - vals[2 * j + 1], (len(p),))
            d = np.where(np.isfinite(d), d, np.inf)
            worst = np.maximum(worst, (np.abs(d) if q.kind == "eq" else d) / (q.tol or 1e-9))
        for v in vals[2 * len(gs):]:
            worst = np.where(v, worst, -np.inf)
        return worst

    val = gap(pts)
    for k in range(steps):
        top = np.argsort(-val)[:n // 20]
        p = np.repeat(pts[top], 20, 0)
        p = np.clip(p + np.repeat(width[top], 20, 0) * 0.5 ** k * g.normal(size=p.shape), lo, hi)
        v = gap(p)
        pts, val, width = np.concatenate([pts[top], p]), np.concatenate([val[top], v]), np.concatenate([width[top], np.repeat(width[top], 20, 0)])
    top = np.argsort(-val)[:12]
    return pts[top], val[top]


def decide(ob, assumptions, goals, replay, r, rng):
    from . import smt

    sys.setrecursionlimit(20000)
    o = dict(order=8, depth=7, batch=400, cells=None, seconds=600, forks=None)
    o.update(ob.tmopts)
    bounds = ob.bounds()
    names = sorted({t.val for g in goals for t in tm.topo([x for x in (g.lhs, g.rhs) if x is not None]) if t.op == "var"})
    gs = []
    for g in goals:
        if g.kind == "true":
            if g.lhs is tm.TRUE:
                continue
            if g.lhs.op not in ("le", "lt"):
                raise NotImplementedError("boolean goals of Taylor models")
            g = smt.Goal(g.label, "le", g.lhs.args[0], g.lhs.args[1])
        if g.kind == "le":
            g.tol = g.tol or ob.tol
        if g.kind == "eq" and g.tol is None:
            g.tol = ob.tol
        gs.append(g)
    grid = o["cells"] or {}
    edges = []
    for n in names:
        k = grid.get(n, 8)
        e = np.linspace(bounds[n][0], bounds[n][1], k + 1) if isinstance(k, int) else np.asarray(k, float)
        edges.append([(e[i], e[i + 1]) for i in range(len(e) - 1)])
    cells = np.array(list(itertools.product(*edges)))
    D = Decider(ob, assumptions, gs, names, o["order"])
    # a few inputs of the real code first
    for _ in range(o.get("probe", 60)):
        from .ob import sample_env

        env = sample_env(ob, rng)
        v = replay(env, "probe")
        if v is not None:
            r.status, r.label, r.model, r.detail = "violated", v.split(":")[0], env, v
            return
    total, t0, depth = 0, time.time(), 0
    todo = cells
    while len(todo):
        D.forks = 99 if o["forks"] is None else max(0, depth - o["forks"])
        nxt = []
        for k in range(0, len(todo), o["batch"]):
            boxes = todo[k:k + o["batch"]]
            bad = np.zeros(len(boxes), bool)
            bits = []
            D.run(boxes, {}, np.arange(len(boxes)), bad, bits)
            bits = [(g, d, ix, ok & ~bad[ix]) for g, d, ix, ok in bits]
            if not query(bits, r):
                r.status, r.detail = "unknown", "the solver does not confirm an enclosure"
                return
            total += int((~bad).sum())
            nxt.append(boxes[bad])
            if time.time() - t0 > o["seconds"]:
                break
        left = np.concatenate(nxt) if nxt else np.zeros((0, len(names), 2))
        smt.STATS.__dict__["cells"] = total
        if not len(left):
            break
        # inputs of undecided cells, given to the real code
        try:
            pts, val = candidates(gs, assumptions, names, left, rng.randrange(1 << 30))
        except NotImplementedError:
            pts, val = np.zeros((0, len(names))), np.zeros(0)
        r.worst = float(val[0]) if len(val) else None
        for p, w in zip(pts, val):
            if w <= 1:
                break
            env = {n: 0.5 * (bounds[n][0] + bounds[n][1]) for n in bounds}
            env.update({n: float(v) for n, v in zip(names, p)})
            v = replay(env, "cell")
            if v is not None:
                r.status, r.label, r.model, r.detail = "violated", v.split(":")[0], env, v
                return
        for i in rng.sample(range(len(left)), min(len(left), 40)):
            env = {n: bounds[n][0] + (bounds[n][1] - bounds[n][0]) * rng.random() for n in bounds}
            for j, n in enumerate(names):
                env[n] = left[i, j, 0] + (left[i, j, 1] - left[i, j, 0]) * rng.random()
            v = replay(env, "cell")
            if v is not None:
                r.status, r.label, r.model, r.detail = "violated", v.split(":")[0], env, v
                return
        if o.get("trace"):
            print(ob.name, depth, len(todo), len(left), round(time.time() - t0, 1), left[0].tolist(), flush=True)
        depth += 1
        if depth > o["depth"] or time.time() - t0 > o["seconds"]:
            r.status, r.detail = "unknown", f"{len(left)} cells undecided (largest difference seen: {r.worst} of the tolerance), e.g. {dict(zip(names, left[0].tolist()))}"
            return
        mid = 0.5 * (left[:, :, 0] + left[:, :, 1])
        parts = [left]
        for j in range(len(names)):
            new = []
            for p in parts:
                m = 0.5 * (p[:, j, 0] + p[:, j, 1])
                a, b = p.copy(), p.copy()
                a[:, j, 1], b[:, j, 0] = m, m
                new += [a, b]
            parts = new
        todo = np.concatenate(parts)
    r.paths = D.groups
    r.stats = {"cells": total}
    r.status = "ok"
