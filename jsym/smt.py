"""Z3 encodings and the path-splitting decision procedure."""

import math
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from gmpy2 import mpq  # noqa: E402

from . import terms as tm  # noqa: E402
from .ival import Ival  # noqa: E402
from .poly import NF, Rat, TooBig, Undefined, p_key  # noqa: E402
from .terms import T  # noqa: E402

z3.set_param("memory_max_size", 6000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.cells = 0

    def dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in vars(self).items()}


STATS = Stats()


def zq(c):
    return z3.RealVal(f"{int(c.numerator)}/{int(c.denominator)}" if c.denominator != 1 else str(int(c.numerator)))


def solver_check(s):
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


class Enc:
    """Terms -> Z3, atoms shared through the NF context."""

    def __init__(self, nf, bounds):
        self.nf = nf
        self.bounds = bounds
        self.memo = {}
        self.axioms = []
        self.vars = {}
        self.atoms = {}
        self.seen_axiom = set()

    def real(self, name):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = v
            b = self.bounds.get(name)
            if b:
                lo, hi = b
                if lo > -math.inf:
                    self.axioms.append(v >= zq(mpq(lo)))
                if hi < math.inf:
                    self.axioms.append(v <= zq(mpq(hi)))
        return v

    def atomvar(self, a):
        """z3 expression of an NF atom"""
        if a in self.atoms:
            return self.atoms[a]
        t = self.nf.atom_term.get(a)
        if isinstance(t, T):
            e = self.term(t)
            self.atoms[a] = e
            return e
        v = z3.Real(f"!a{a if a >= 0 else 'm%d' % -a}")
        self.atoms[a] = v
        if t is None:
            return v
        if t[0] in ("sin", "cos"):
            self.axioms.append(z3.And(v >= -1, v <= 1))
            if t[0] == "cos":
                k, rel = self.nf.rel[a]
                self.axioms.append(v * v == self.rat(rel))
        elif t[0] == "root":
            k, rel = self.nf.rel[a]
            p = v
            for _ in range(k - 1):
                p = p * v
            num, den = self.ratparts(rel)
            if den is None:
                self.axioms.append(p == num)
            else:
                self.axioms.append(p * den == num)
            if k % 2 == 0 or (t[2] is not None and t[2].op == "root"):
                self.axioms.append(v >= 0)
            elif t[2] is not None and t[2].op == "cbrt":
                pass
        return v

    def poly(self, p):
        out = []
        for m, c in p.items():
            fs = []
            inv = []
            for a, e in m:
                v = self.atomvar(a)
                (fs if e > 0 else inv).extend([v] * abs(e))
            t = zq(c)
            if fs:
                t = t * fs[0] if c != 1 else fs[0]
                for f in fs[1:]:
                    t = t * f
            for f in inv:
                t = t / f
            out.append(t)
        if not out:
            return z3.RealVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def ratparts(self, r):
        n = self.poly(r.n)
        if not r.d:
            return n, None
        den = None
        for k, e in r.d.items():
            f = self.poly(dict(k))
            for _ in range(e):
                den = f if den is None else den * f
        return n, den

    def rat(self, r):
        n, d = self.ratparts(r)
        return n if d is None else n / d

    def term(self, t):
        m = self.memo.get(t.id)
        if m is not None:
            return m
        for u in tm.topo([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self._term(u)
        return self.memo[t.id]

    def _term(self, t):
        op = t.op
        a = [self.memo[x.id] for x in t.args]
        if op == "const":
            return zq(t.val)
        if op == "pi":
            v = self.vars.get("!pi")
            if v is None:
                v = z3.Real("!pi")
                self.vars["!pi"] = v
                self.axioms += [v > z3.RealVal("3.14159265358979323846"), v < z3.RealVal("3.14159265358979323847")]
            return v
        if op == "var":
            return self.real(t.val)
        if op == "bvar":
            return z3.Bool(t.val)
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "not":
            return z3.Not(a[0])
        if op == "ite":
            return z3.If(*a)
        if op == "floor":
            k = z3.Int(f"!fl{t.id}")
            kr = z3.ToReal(k)
            self.axioms += [kr <= a[0], a[0] < kr + 1]
            return kr
        if op in ("sin", "cos", "sqrt", "cbrt", "root"):
            try:
                return self.rat(self.nf.nf(t))
            except (TooBig, Undefined):
                pass
            v = z3.Real(f"!t{t.id}")
            if op in ("sin", "cos"):
                self.axioms.append(z3.And(v >= -1, v <= 1))
            elif op == "sqrt":
                self.axioms += [v >= 0, v * v == a[0]]
            return v
        if op == "atan2":
            v = z3.Real(f"!t{t.id}")
            y, x = a
            pi = self.term(tm.PI)
            self.axioms += [
                v <= pi, v > -pi,
                z3.Implies(y > 0, z3.And(v > 0, v < pi)),
                z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                z3.Implies(z3.And(y == 0, x > 0), v == 0),
                z3.Implies(z3.And(y == 0, x < 0), v == pi),
                z3.Implies(x > 0, z3.And(v < pi / 2, v > -pi / 2)),
                z3.Implies(z3.And(x == 0, y > 0), v == pi / 2),
                z3.Implies(z3.And(x == 0, y < 0), v == -pi / 2),
                z3.Implies(z3.And(x < 0, y > 0), v > pi / 2),
                z3.Implies(z3.And(x < 0, y < 0), v < -pi / 2),
            ]
            return v
        if op == "exp":
            v = z3.Real(f"!t{t.id}")
            self.axioms += [v > 0, v >= 1 + a[0]]
            return v
        if op == "log":
            v = z3.Real(f"!t{t.id}")
            self.axioms += [v <= a[0] - 1]
            return v
        if op == "fn":
            f = z3.Function(t.val, *([z3.RealSort()] * (len(a) + 1)))
            return f(*a)
        if op in ("inf", "neg_inf", "nan"):
            return z3.Real(f"!{op}{t.id}")
        raise NotImplementedError(op)


ATOMIC = ("lt", "le", "eq", "bvar")


class Result:
    def __init__(self, status, label="", model=None, info=""):
        self.status, self.label, self.model, self.info = status, label, model, info
        self.where = None


PI_Q = mpq("3141592653589793238462643383279502884197169399375105820974944592307/1000000000000000000000000000000000000000000000000000000000000000000")


class Problem:
    """assumptions: list of bool terms.  goals: list of Goal."""

    def __init__(self, bounds, assumptions, goals, tol=1e-9, contracts=None, seed=1,
                 timeout=20000, fnb=None, replay=None, max_paths=4000, sampler=None, cond_timeout=3000,
                 split_first=None, fns=None):
        self.bounds = bounds
        self.assumptions = assumptions
        self.goals = goals
        self.tol = tol
        self.contracts = contracts or {}
        self.rng = random.Random(seed)
        self.timeout = timeout
        self.fnb = fnb or {}
        self.fns = fns
        self.replay = replay
        self.max_paths = max_paths
        self.sampler = sampler
        self.cond_timeout = cond_timeout
        self.paths = 0
        self.results = []
        self.unknown = []
        self.violation = None
        self.leaf_reached = {}
        self.floor_conds = set()
        self.floor_skip = set()

    # -- conditions
    def atomics(self, roots):
        """ite-free atomic conditions occurring as (part of) ite conditions or booleans"""
        hasite = {}
        out = []
        for t in tm.topo(roots):
            hasite[t.id] = t.op == "ite" or any(hasite[a.id] for a in t.args)
            if t.op in ATOMIC and not hasite[t.id]:
                out.append(t)
        return out

    def cond_in_ite(self, roots):
        """atomic conditions that guard some ite"""
        seen = set()
        res = []
        hasite = {}
        for t in tm.topo(roots):
            hasite[t.id] = t.op == "ite" or any(hasite[a.id] for a in t.args)
            if t.op == "ite":
                stack = [t.args[0]]
                while stack:
                    c = stack.pop()
                    if c.id in seen:
                        continue
                    seen.add(c.id)
                    if c.op in ATOMIC:
                        if not hasite[c.id]:
                            res.append(c)
                    else:
                        stack.extend(c.args)
        return res

    def context(self, roots):
        nf = NF(roots, contracts=self.contracts, sign=self._sign, pbound=self.poly_bound)
        return nf

    def _sign(self, t):
        b = self.iv.get(t)
        if b[0] >= 0:
            return 1
        return None

    def decide(self, c, enc, path):
        v = self.iv.get(c)
        if v is not None:
            return v
        # Z3
        s = self.base_solver(enc, path, [c])
        s.set("timeout", self.cond_timeout)
        e = self.nfbool(c, enc.nf, enc) if self.floor_conds else enc.term(c)
        self.add_axioms(s, enc)
        s.push()
        s.add(e)
        r1 = solver_check(s)
        s.pop()
        if r1 == z3.unsat:
            return False
        s.push()
        s.add(z3.Not(e))
        r2 = solver_check(s)
        s.pop()
        if r2 == z3.unsat:
            return True
        return None

    def base_solver(self, enc, path, extra=()):
        s = z3.Solver()
        for a in list(self.assumptions_now) + list(path):
            if self.floor_conds:
                s.add(self.nfbool(a, enc.nf, enc))
            else:
                s.add(enc.term(a))
        return s

    # -- floor: replace floor(arg) by integers when the normal form of arg is an integer
    # combination of other floors plus something with a small range
    def floor_step(self, roots):
        """(floor term, integral part as a term, [candidate constants], rest term) or None"""
        hasite = {}
        nf = None
        for t in tm.topo(roots):
            hasite[t.id] = t.op == "ite" or any(hasite[a.id] for a in t.args)
            if t.op != "floor" or hasite[t.id] or t.id in self.floor_skip:
                continue
            if nf is None:
                nf = self.context(roots)
            try:
                r = nf.nf(t.args[0])
            except (TooBig, Undefined):
                self.floor_skip.add(t.id)
                continue
            if r.d:
                self.floor_skip.add(t.id)
                continue
            whole, rest = tm.ZERO, {}
            for m, c in r.n.items():
                a = nf.atom_term.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if isinstance(a, T) and a.op == "floor" and a is not t and c.denominator == 1:
                    whole = tm.add(whole, tm.mul(tm.const(c), a))
                else:
                    rest[m] = c
            lo, hi = self.poly_bound(rest, nf)
            if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 12:
                self.floor_skip.add(t.id)
                continue
            lo, hi = math.floor(lo - 1e-9), math.floor(hi + 1e-9)
            return t, whole, list(range(lo, hi + 1)), tm.sub(t.args[0], whole)
        return None

    def add_axioms(self, s, enc):
        for a in enc.axioms:
            s.add(a)

    # -- driver
    def run(self):
        self.iv = Ival(self.bounds, fnb=self.fnb)
        gs = [(g, g.lhs, g.rhs) for g in self.goals]
        self._rec(list(self.assumptions), gs, [], 0)
        if self.unknown and self.violation is None and self.replay is not None:
            self.directed()
        return self

    # -- an input for a goal the solver could not decide: walk towards the path of the
    # goal and uphill in the difference of its sides, then replay against the real code
    def directed(self, seconds=25.0):
        t0 = time.time()
        todo = [u for u in self.unknown if u.where is not None]
        for u in todo[:8]:
            g, lhs, rhs, conds = u.where
            left = min(seconds - (time.time() - t0), 8.0)
            if left <= 0:
                return
            w = self.walk(g, lhs, rhs, conds, left)
            if w is not None:
                self.violation = Result("violated", g.label, w, "input found for an undecided goal")
                return

    def walk(self, g, lhs, rhs, conds, seconds):
        roots = list(conds) + [lhs] + ([rhs] if rhs is not None else [])
        order = tm.topo(roots)
        names = sorted({t.val for t in order if t.op in ("var", "bvar") and t.val in self.bounds})
        if not names:
            return None
        rng = self.rng

        def value(env):
            memo = {}
            for t in order:
                try:
                    memo[t.id] = tm._ev(t, [memo[x.id] for x in t.args], env, self.fns)
                except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                    memo[t.id] = math.nan
            v = sum(miss(c, memo) for c in conds)
            if v != v:
                return math.inf, 0.0
            if g.kind == "eq":
                d = abs(memo[lhs.id] - memo[rhs.id])
            elif g.kind == "le":
                d = memo[lhs.id] - memo[rhs.id]
            elif g.kind == "true":
                d = miss(lhs, memo, True)
            else:
                d = 0.0
            return v, (0.0 if d != d else d)

        t0 = time.time()
        while time.time() - t0 < seconds:
            env = self.sampler(rng) if self.sampler is not None else self.complete({})
            best = value(env)
            width = {n: (self.bounds[n][1] - self.bounds[n][0]) for n in names}
            width = {n: (w if math.isfinite(w) else 10.0) for n, w in width.items()}
            step, fails = 0.3, 0
            while step > 1e-9 and time.time() - t0 < seconds:
                e = dict(env)
                for n in names if rng.random() < 0.5 else [rng.choice(names)]:
                    lo, hi = self.bounds[n]
                    e[n] = min(max(e[n] + width[n] * step * rng.gauss(0, 1), lo), hi)
                v = value(e)
                if v[0] < best[0] or (v[0] == best[0] and v[1] > best[1]):
                    env, best, fails = e, v, 0
                    step = min(step * 1.5, 0.5)
                else:
                    fails += 1
                    if fails >= 6:
                        step, fails = step * 0.6, 0
            if best[0] <= 0:
                w = self.replay(env, g.label)
                if w is not None:
                    return dict(env, _observed=w)
        return None

    @staticmethod
    def _flat(gs):
        out = []
        for g, l, r in gs:
            out.append(l)
            if r is not None:
                out.append(r)
        return out

    @staticmethod
    def _unflat(gs, flat):
        out, i = [], 0
        for g, l, r in gs:
            l = flat[i]
            i += 1
            if r is not None:
                r = flat[i]
                i += 1
            out.append((g, l, r))
        return out

    def _subst(self, gs, assumptions, mapping):
        roots = self._flat(gs)
        new = tm.substitute(roots + assumptions, mapping)
        return self._unflat(gs, new[: len(roots)]), new[len(roots):]

    def _rec(self, assumptions, gs, path, depth):
        if self.violation or self.paths > self.max_paths:
            return
        while True:
            self.assumptions_now = assumptions
            if any(a is tm.FALSE for a in assumptions):
                return
            # goals already closed syntactically on this path
            rest = []
            for g, l, r in gs:
                if (g.kind == "eq" and l is r) or (g.kind == "true" and l is tm.TRUE):
                    self.trivial(g)
                    self.leaf_reached[g.label] = self.leaf_reached.get(g.label, 0) + 1
                else:
                    rest.append((g, l, r))
            gs = rest
            if not gs:
                self.paths += 1
                STATS.paths += 1
                return
            roots = self._flat(gs)
            fl = self.floor_step(roots + assumptions)
            if fl is not None:
                t, whole, ks, rest = fl
                for k in ks:
                    kk = tm.const(k)
                    cs = [tm.le(kk, rest), tm.lt(rest, tm.add(kk, tm.ONE))] if len(ks) > 1 else []
                    self.floor_conds.update(c.id for c in cs)
                    g2, a2 = self._subst(gs, assumptions, {t.id: tm.add(whole, kk)})
                    p2 = [tm.substitute([c], {t.id: tm.add(whole, kk)})[0] for c in path]
                    self.floor_conds.update(n.id for n, o in zip(p2, path) if o.id in self.floor_conds)
                    p2 = p2 + cs
                    if cs and self.infeasible(a2, p2):
                        continue
                    self._rec(a2, g2, p2, depth + 1)
                return
            conds = self.cond_in_ite(roots + assumptions)
            mapping = {}
            for c in conds:
                v = self.iv.get(c)
                if v is not None:
                    mapping[c.id] = tm.TRUE if v else tm.FALSE
            if not mapping:
                break
            gs, assumptions = self._subst(gs, assumptions, mapping)
        if conds:
            nf = self.context(roots + assumptions + path)
            enc = Enc(nf, self.bounds)
            mapping = {}
            split = None
            for c in conds:
                v = self.decide(c, enc, path)
                if v is None:
                    split = c
                    break
                mapping[c.id] = tm.TRUE if v else tm.FALSE
            if mapping:
                inass = {t.id for t in self.atomics(assumptions)}
                path = path + [c if mapping[c.id] is tm.TRUE else tm.not_(c)
                               for c in conds if c.id in mapping and c.id in inass]
                gs, assumptions = self._subst(gs, assumptions, mapping)
            if split is None:
                return self._rec(assumptions, gs, path, depth)
            for val in (True, False):
                g2, a2 = self._subst(gs, assumptions, {split.id: tm.TRUE if val else tm.FALSE})
                p2 = path + [split if val else tm.not_(split)]
                self._rec(a2, g2, p2, depth + 1)
            return
        self.leaf(assumptions, gs, path)

    def infeasible(self, assumptions, path):
        self.assumptions_now = [a for a in assumptions if not self.cond_in_ite([a])]
        enc = Enc(self.context(assumptions + path), self.bounds)
        s = self.base_solver(enc, path)
        s.set("timeout", self.cond_timeout)
        self.add_axioms(s, enc)
        return solver_check(s) == z3.unsat

    def leaf(self, assumptions, gs, path):
        self.assumptions_now = assumptions
        nf = self.context(self._flat(gs) + assumptions + path)
        enc = Enc(nf, self.bounds)
        self.paths += 1
        STATS.paths += 1
        # reachability of the path (vacuity guard); also prunes dead paths
        s = self.base_solver(enc, path)
        s.set("timeout", self.cond_timeout)
        self.add_axioms(s, enc)
        feas = solver_check(s)
        if feas == z3.unsat:
            return
        for g, lhs, rhs in gs:
            ok = feas == z3.sat or (getattr(self, "leafonly", False) and feas != z3.unsat)
            self.leaf_reached[g.label] = self.leaf_reached.get(g.label, 0) + (1 if ok else 0)
            if getattr(self, "leafonly", False):
                continue
            r = self.goal(g, lhs, rhs, nf, enc, path)
            r.where = (g, lhs, rhs, list(assumptions) + list(path))
            if r.status == "violated":
                self.violation = r
                return
            if r.status == "unknown":
                self.unknown.append(r)

    # -- one goal on one (ite-free) path
    def goal(self, g, lhs, rhs, nf, enc, path):
        if g.kind == "eq":
            return self.goal_eq(g, lhs, rhs, nf, enc, path)
        if g.kind == "le":
            cond = tm.le(lhs, rhs)
        elif g.kind == "true":
            cond = lhs
        elif g.kind == "defined":
            return self.goal_defined(g, lhs, nf, enc, path)
        else:
            raise ValueError(g.kind)
        return self.goal_bool(g, cond, nf, enc, path)

    def goal_bool(self, g, cond, nf, enc, path):
        if cond is tm.TRUE:
            v = True
        else:
            v = self.iv.get(cond)
        s = self.base_solver(enc, path)
        s.set("timeout", self.timeout)
        if v is True:
            s.add(z3.Not(z3.BoolVal(True)))
        else:
            # normal-form both sides of comparisons to expose cancellation
            s.add(z3.Not(self.nfbool(cond, nf, enc)))
        self.add_axioms(s, enc)
        r = solver_check(s)
        if r == z3.unsat:
            return Result("ok", g.label)
        cands = []
        if r == z3.sat:
            cands.append(self.model_values(s.model(), enc))
        w = self.confirm(g, cands, path)
        if w is not None:
            return Result("violated", g.label, w, "boolean goal")
        return Result("unknown", g.label, info=f"{r} (no confirmed counterexample)")

    def nfbool(self, c, nf, enc):
        if c.op in ("lt", "le", "eq"):
            try:
                r = nf.nf(tm.sub(c.args[0], c.args[1]))
                n, d = enc.ratparts(self.positive_part(r, nf))
                e = n if d is None else n / d
                if c.op == "lt":
                    return e < 0
                if c.op == "le":
                    return e <= 0
                return e == 0
            except (TooBig, Undefined):
                return enc.term(c)
        if c.op == "not":
            return z3.Not(self.nfbool(c.args[0], nf, enc))
        if c.op in ("and", "or"):
            f = z3.And if c.op == "and" else z3.Or
            return f(*[self.nfbool(a, nf, enc) for a in c.args])
        return enc.term(c)

    def positive_part(self, r, nf):
        """r up to a factor that is positive on the whole box (for comparisons with 0)"""
        if not r.n:
            return r
        d = {}
        for k, e in r.d.items():
            if not self.poly_bound(dict(k), nf)[0] > 0:
                d[k] = e
        common = None
        for m in r.n:
            mm = dict(m)
            common = mm if common is None else {a: min(e, mm[a]) for a, e in common.items() if a in mm}
        common = {a: e for a, e in common.items() if e > 0 and self.atom_bound(a, nf)[0] > 0}
        n = r.n
        if common:
            n = {}
            for m, c in r.n.items():
                n[tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0))] = c
        return type(r)(n, d)

    def goal_eq(self, g, lhs, rhs, nf, enc, path):
        tol = g.tol if g.tol is not None else self.tol
        if lhs is rhs:
            return self.trivial(g)
        res = None
        try:
            res = nf.nf(tm.sub(lhs, rhs))
        except (TooBig, Undefined) as e:
            res = None
            info = str(e)
        if res is not None:
            if res.is_zero():
                # the two sides, normalised separately, as polynomials over the atoms
                a, b = nf.nf(lhs), nf.nf(rhs)
                if len(a.n) + len(b.n) <= 400 and not a.d and not b.d:
                    s = z3.Solver()
                    s.set("timeout", self.timeout)
                    s.add(enc.poly(a.n) != enc.poly(b.n))
                    if solver_check(s) == z3.unsat:
                        return Result("ok", g.label)
                return self.trivial(g)
            if self.small(res, nf, enc, tol, path):
                return Result("ok", g.label)
        # numeric search for a candidate, confirmed by the solver at that point
        w = self.confirm(g, [], path)
        if w is not None:
            return Result("violated", g.label, w, "equality goal")
        s = self.base_solver(enc, path)
        s.set("timeout", self.timeout)
        tq = zq(mpq(tol))
        if res is not None:
            n, d = enc.ratparts(res)
            if d is None:
                s.add(z3.Or(n > tq, n < -tq))
            else:
                e = z3.Real("!goal")
                s.add(e * d == n, z3.Or(e > tq, e < -tq))
        else:
            e = enc.term(tm.sub(lhs, rhs))
            s.add(z3.Or(e > tq, e < -tq))
        self.add_axioms(s, enc)
        r = solver_check(s)
        if r == z3.unsat:
            return Result("ok", g.label)
        if r == z3.sat:
            w = self.confirm(g, [self.model_values(s.model(), enc)], path)
            if w is not None:
                return Result("violated", g.label, w, "equality goal")
        if res is None:
            extra = info
        else:
            extra = f"residual has {len(res.n)} monomials"
        return Result("unknown", g.label, info=f"{r}; {extra}")

    def trivial(self, g):
        # residual normalised to 0: negated goal is (0 != 0)
        s = z3.SimpleSolver()
        s.add(z3.RealVal(0) != z3.RealVal(0))
        solver_check(s)
        return Result("ok", g.label)

    def atom_bound(self, a, nf):
        t = nf.atom_term.get(a)
        if isinstance(t, T):
            return self.iv.get(t)
        if t is None:
            return (-math.inf, math.inf)
        if t[0] in ("sin", "cos"):
            return (-1.0, 1.0)
        if t[0] == "root":
            k, rel = nf.rel[a]
            b = self.rat_bound(rel, nf)
            if k % 2 == 0:
                lo, hi = max(b[0], 0.0), max(b[1], 0.0)
                return (lo ** (1 / k) * (1 - 1e-14), hi ** (1 / k) * (1 + 1e-14))
            f = lambda x: math.copysign(abs(x) ** (1 / k), x)
            return (f(b[0]) - 1e-12, f(b[1]) + 1e-12)
        return (-math.inf, math.inf)

    def mono_bound(self, m, nf):
        from .ival import idiv, imul

        r = (1.0, 1.0)
        for a, e in m:
            b = self.atom_bound(a, nf)
            p = (1.0, 1.0)
            n = abs(e)
            if n % 2 == 0:
                mx = max(abs(b[0]), abs(b[1]))
                mn = 0.0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1]))
                p = (mn**n, mx**n)
            else:
                p = (b[0] ** n if math.isfinite(b[0]) else b[0], b[1] ** n if math.isfinite(b[1]) else b[1])
            if e < 0:
                p = idiv((1.0, 1.0), p)
            r = imul(r, p)
        return r

    def poly_bound(self, p, nf):
        from .ival import iadd, imul

        r = (0.0, 0.0)
        for m, c in p.items():
            r = iadd(r, imul((float(c), float(c)), self.mono_bound(m, nf)))
        return r

    def rat_bound(self, r, nf):
        from .ival import idiv, imul

        n = self.poly_bound(r.n, nf)
        for k, e in r.d.items():
            d = self.poly_bound(dict(k), nf)
            for _ in range(e):
                n = idiv(n, d)
        return n

    def plain(self, poly, nf):
        """poly with the constants (pi, roots of rationals) replaced by 60-digit rationals (error far below the tolerance)"""
        consts = {}
        for a in {a for m in poly for a, _ in m}:
            v = self.const_atom(a, nf)
            if v is not None:
                consts[a] = v
        if not consts:
            return poly
        num = {}
        for m, c in poly.items():
            k = tuple(x for x in m if x[0] not in consts)
            for a, e in m:
                if a in consts:
                    c = c * consts[a]**e
            num[k] = num.get(k, 0) + c
        return {m: c for m, c in num.items() if c}

    def known_nonneg(self, path, nf):
        """polynomials (constant denominators) that the assumptions and the path say are >= 0"""
        key = tuple(c.id for c in self.assumptions_now + path)
        memo = self.__dict__.setdefault("_nonneg", {})
        if key in memo and memo[key][0] is nf:
            return memo[key][1]
        out, todo = [], list(self.assumptions_now + path)
        while todo:
            c = todo.pop()
            if c.op == "and":
                todo += c.args
                continue
            if c.op in ("le", "lt"):
                a, b = c.args
            elif c.op == "not" and c.args[0].op in ("le", "lt"):
                b, a = c.args[0].args
            else:
                continue
            try:
                r = self.positive_part(nf.nf(tm.sub(b, a)), nf)
            except (TooBig, Undefined):
                continue
            if r.n and not r.d:
                out.append(self.plain(r.n, nf))
        memo[key] = (nf, out)
        return out

    def away_from_zero(self, k, nf, path):
        """a positive lower bound of |k| on the path, or None"""
        b = self.poly_bound(k, nf)
        if b[0] > 0:
            return b[0]
        if b[1] < 0:
            return -b[1]
        k = self.plain(k, nf)
        vary = [m for m in k if m]
        if not vary:
            return None
        top = max(vary, key=lambda m: abs(float(k[m])))
        best = None
        for n in self.known_nonneg(path, nf):
            if top not in n:
                continue
            lam = k[top] / n[top]
            q = dict(k)  # k = lam * n + q
            for m, c in n.items():
                q[m] = q.get(m, 0) - lam * c
            lo, hi = self.poly_bound({m: c for m, c in q.items() if c}, nf)
            v = lo if lam > 0 else -hi
            if v > 0 and (best is None or v > best):
                best = v
        return best

    def small(self, res, nf, enc, tol, path=()):
        """LRA: |sum c_m * M_m| <= tol*den with every monomial bounded in its interval"""
        if len(res.n) > 60000:
            return False
        den_min = 1.0
        for k, e in res.d.items():
            b = self.away_from_zero(dict(k), nf, list(path))
            if b is None:
                return False
            den_min *= b ** e
        num = self.plain(res.n, nf)
        parts = []
        rough = 0.0
        for m, c in num.items():
            lo, hi = self.mono_bound(m, nf)
            if not (math.isfinite(lo) and math.isfinite(hi)):
                return False
            w = abs(float(c)) * max(abs(lo), abs(hi))
            rough += w
            parts.append((w, m, c, lo, hi))
        if rough > 1e3 * tol * den_min:
            return False
        parts.sort(key=lambda p: -p[0])
        s = z3.SolverFor("QF_LRA")
        terms = []
        slack = mpq(0)  # coefficients are rounded to multiples of 2**-80; the error is taken off the tolerance
        rest = mpq(0)
        for i, (w, m, c, lo, hi) in enumerate(parts):
            if i >= 150:  # the many tiny ones as a single bounded variable
                rest += mpq(w) * (1 + mpq(1, 1 << 40))
                continue
            if c.denominator.bit_length() > 100:
                import gmpy2

                q = mpq(gmpy2.f_div(c.numerator << 80, c.denominator), 1 << 80)
                slack += (c - q) * mpq(max(abs(lo), abs(hi)))
                c = q
            v = z3.Real(f"m{i}")
            s.add(v >= zq(mpq(lo)), v <= zq(mpq(hi)))
            terms.append(zq(c) * v)
        if rest:
            v = z3.Real("rest")
            s.add(v >= zq(-rest), v <= zq(rest))
            terms.append(v)
        e = z3.Sum(terms)
        b = mpq(tol) * mpq(den_min) - slack
        if b <= 0:
            return False
        b = zq(b)
        s.add(z3.Or(e > b, e < -b))
        s.set("timeout", self.timeout)
        return solver_check(s) == z3.unsat

    def const_atom(self, a, nf):
        if a == tm.PI.id:
            return PI_Q
        if a in nf.rel:
            import gmpy2

            k, rel = nf.rel[a]
            if rel.d or not k:
                return None
            v = mpq(0)
            for m, c in rel.n.items():
                for x, e in m:
                    q = self.const_atom(x, nf)
                    if q is None or q == 0:
                        return None
                    c = c * q**e
                v += c
            if v <= 0:
                return None
            with gmpy2.local_context(gmpy2.context(), precision=240):
                return mpq(gmpy2.root(gmpy2.mpfr(v), k))
        return None

    # -- definedness
    def goal_defined(self, g, t, nf, enc, path):
        for u in tm.topo([t]):
            bad = None
            if u.op == "div":
                bad = tm.eq(u.args[1], tm.ZERO)
            elif u.op in ("sqrt", "root"):
                bad = tm.lt(u.args[0], tm.ZERO)
            elif u.op == "log":
                bad = tm.le(u.args[0], tm.ZERO)
            elif u.op in ("nan", "inf", "neg_inf"):
                bad = tm.TRUE
            if bad is None:
                continue
            if bad is tm.FALSE or (bad is not tm.TRUE and self.iv.get(bad) is False):
                continue
            s = self.base_solver(enc, path)
            s.set("timeout", self.timeout)
            s.add(self.nfbool(bad, nf, enc) if bad is not tm.TRUE else z3.BoolVal(True))
            self.add_axioms(s, enc)
            r = solver_check(s)
            if r == z3.unsat:
                continue
            cands = [self.model_values(s.model(), enc)] if r == z3.sat else []
            w = self.confirm(g, cands, path)
            if w is not None:
                return Result("violated", g.label, w, f"undefined {u.op}")
            return Result("unknown", g.label, info=f"definedness of {u.op}: {tm.show(u, 3)} {r}")
        return Result("ok", g.label)

    # -- counterexamples
    def model_values(self, m, enc):
        out = {}
        for name, v in enc.vars.items():
            if name.startswith("!"):
                continue
            e = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(e):
                    e = e.approx(30)
                out[name] = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            except Exception:
                pass
        return out

    def complete(self, w):
        w = dict(w)
        for n, (lo, hi) in self.bounds.items():
            if n not in w:
                w[n] = self.draw(lo, hi)
            w[n] = min(max(w[n], lo), hi)
        return w

    def draw(self, lo, hi):
        if not math.isfinite(lo):
            lo = -10.0
        if not math.isfinite(hi):
            hi = 10.0
        return lo + (hi - lo) * self.rng.random()

    def confirm(self, g, cands, path, tries=40):
        """Replay candidate inputs against the real code."""
        if self.replay is None:
            return None
        cands = [self.complete(c) for c in cands]
        pts = list(cands)
        for _ in range(tries):
            if self.sampler is not None:
                pts.append(self.sampler(self.rng))
            else:
                p = self.complete({})
                # perturb around a solver model as well
                if cands and self.rng.random() < 0.5:
                    c = dict(cands[0])
                    k = self.rng.choice(list(c))
                    c[k] = p[k]
                    p = c
                pts.append(p)
        for p in pts:
            v = self.replay(p, g.label)
            if v is not None:
                # the solver's verdict at that point: is the negated goal satisfiable
                return dict(p, _observed=v)
        return None


def miss(c, memo, neg=False):
    """how far a condition is from holding (neg: from failing) at a point"""
    op = c.op
    if op == "not":
        return miss(c.args[0], memo, not neg)
    if op in ("and", "or"):
        xs = [miss(a, memo, neg) for a in c.args]
        return sum(xs) if (op == "and") != neg else min(xs)
    if op in ("lt", "le"):
        d = memo[c.args[0].id] - memo[c.args[1].id]
        if neg:
            d = -d
        if d != d:
            return math.inf
        return 0.0 if bool(memo[c.id]) != neg else max(d, 0.0) + 1e-300
    if op == "eq":
        d = abs(memo[c.args[0].id] - memo[c.args[1].id])
        return (0.0 if d > 0 else 1.0) if neg else d
    return 0.0 if bool(memo[c.id]) != neg else 1.0


class Goal:
    def __init__(self, label, kind, lhs, rhs=None, tol=None):
        self.label, self.kind, self.lhs, self.rhs, self.tol = label, kind, lhs, rhs, tol
