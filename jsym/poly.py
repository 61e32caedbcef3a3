"""Rational normal form over algebraic/transcendental atoms."""

import heapq
from math import gcd

from gmpy2 import mpq

from . import terms as tm
from .terms import T

# ------------------------------------------------------------------ polynomials
# monomial: tuple of (atom, exp) sorted by atom; atoms are ints (term ids or extra ids)


def p_const(c):
    return {(): mpq(c)} if c != 0 else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        k = d.get(a, 0) + e
        if k:
            d[a] = k
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 400000


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40_000_000:
        raise TooBig("polynomial product")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k)
            if v is None:
                r[k] = c * d
            else:
                r[k] = v + c * d
    r = {k: v for k, v in r.items() if v != 0}
    if len(r) > LIMIT:
        raise TooBig("polynomial size")
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_normal(a):
    """(leading coefficient, monic polynomial)"""
    m = max(a)
    c = a[m]
    return c, {k: v / c for k, v in a.items()}


def p_divide(n, f):
    """exact quotient n / f, or None"""
    if len(f) < 2:
        return None
    fa = {x for m in f for x, e in m}
    na = {x for m in n for x, e in m}
    if not fa <= na:
        return None
    atoms = sorted(fa) + sorted(na - fa)
    ix = {x: i for i, x in enumerate(atoms)}
    w = len(atoms)

    def dense(m):
        v = [0] * w
        for x, e in m:
            v[ix[x]] = e
        return tuple(v)

    N = {dense(m): c for m, c in n.items()}
    F = sorted(((dense(m), c) for m, c in f.items()), reverse=True)
    lf, cf = F[0]
    # trailing terms must divide as well (cheap rejection)
    tn, tf = min(N), F[-1][0]
    if any(a < b for a, b, k in zip(tn, tf, range(w)) if b > 0) and min(min(m) for m in N) >= 0:
        return None
    Q = {}
    heap = [tuple(-x for x in m) for m in N]
    heapq.heapify(heap)
    steps = 0
    while heap:
        m = tuple(-x for x in heapq.heappop(heap))
        c = N.pop(m, None)
        if c is None:
            continue
        q = tuple(a - b for a, b in zip(m, lf))
        if min(q[i] for i in range(len(fa))) < 0:
            # negative exponents only where the atom already occurs negatively
            return None
        steps += 1
        if steps > 6000:
            return None
        qc = c / cf
        Q[q] = qc
        for fm, fc in F[1:]:
            k = tuple(a + b for a, b in zip(q, fm))
            v = N.get(k)
            if v is None:
                N[k] = -qc * fc
                heapq.heappush(heap, tuple(-x for x in k))
            else:
                v = v - qc * fc
                if v == 0:
                    del N[k]
                else:
                    N[k] = v
    return {tuple((atoms[i], e) for i, e in enumerate(q) if e): c for q, c in Q.items()}


class Rat:
    __slots__ = ("n", "d")  # d: dict key(tuple)->(exp);  monic non-monomial factors

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def is_zero(self):
        return not self.n


_factor_cache = {}


def factor_poly(p, maxterms=40, maxatoms=6):
    """(content, [(poly, exponent)]) over the rationals, or None"""
    if len(p) < 2 or len(p) > maxterms:
        return None if len(p) != 1 else _factor_mono(p)
    key = p_key(p)
    if key in _factor_cache:
        return _factor_cache[key]
    atoms = sorted({x for m in p for x, e in m})
    r = None
    if len(atoms) <= maxatoms and all(e > 0 for m in p for x, e in m):
        import sympy

        syms = sympy.symbols(f"x0:{len(atoms)}")
        ix = {x: i for i, x in enumerate(atoms)}
        d = {}
        for m, c in p.items():
            ex = [0] * len(atoms)
            for x, e in m:
                ex[ix[x]] = e
            d[tuple(ex)] = sympy.Rational(int(c.numerator), int(c.denominator))
        if all(max(ex) <= 24 for ex in d):
            P = sympy.Poly.from_dict(d, *syms, domain="QQ")
            c, fs = P.factor_list()
            out = []
            for f, e in fs:
                q = {}
                for ex, cc in f.terms():
                    q[tuple((atoms[i], int(k)) for i, k in enumerate(ex) if k)] = mpq(int(cc.p), int(cc.q))
                out.append((q, int(e)))
            r = (mpq(int(c.p), int(c.q)), out)
    _factor_cache[key] = r
    return r


def _factor_mono(p):
    (m, c), = p.items()
    return c, [({((x, 1),): mpq(1)}, e) for x, e in m]


class Undefined(Exception):
    pass


class NF:
    """Normal-form context.  `nonneg(T)`/`sign(T)` callbacks give sign information."""

    def __init__(self, terms_for_angles=(), contracts=None, sign=None, pbound=None):
        self.pbound = pbound
        self.memo = {}
        self.atom_term = {}   # atom id -> T   (None for synthetic)
        self.rel = {}         # atom id -> (k, Rat): atom**k == Rat
        self.unit = {}        # monomial(angle) -> lcm of denominators
        self.trig_atoms = {}  # angle key -> (s_atom, c_atom)
        self.extra = -1
        self.contracts = contracts or {}
        self.sign = sign or (lambda r: None)
        self.power_cache = {}
        self.atan2_rewrite = True
        if terms_for_angles:
            self.scan(terms_for_angles)

    # -- atoms
    def new_atom(self, term):
        if term is not None:
            a = term.id
        else:
            a = self.extra
            self.extra -= 1
        self.atom_term[a] = term
        return a

    def named_atom(self, key):
        d = self.power_cache.setdefault("named", {})
        if key not in d:
            d[key] = self.extra
            self.atom_term[self.extra] = None
            self.extra -= 1
        return d[key]

    def scan(self, roots):
        """collect the angle units used inside sin/cos"""
        for t in tm.topo(roots):
            if t.op in ("sin", "cos"):
                try:
                    lin = self.linear(t.args[0])
                except (TooBig, Undefined):
                    continue
                if lin is None:
                    continue
                for m, c in lin.items():
                    if m == () or self.is_pi(m):
                        continue
                    q = int(c.denominator)
                    if q > 48 or abs(c.numerator) > 48:
                        continue
                    u = self.unit.get(m, 1)
                    self.unit[m] = u * q // gcd(u, q)

    def is_pi(self, m):
        return len(m) == 1 and m[0] == (tm.PI.id, 1)

    def linear(self, t):
        r = self.nf(t)
        if r.d:
            return None
        return r.n

    # -- rational arithmetic
    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            return self.mkrat(p_add(a.n, b.n), a.d)
        d = dict(a.d)
        fa, fb = p_const(1), p_const(1)
        for k, e in b.d.items():
            ea = d.get(k, 0)
            if e > ea:
                fa = p_mul(fa, self.fpow(k, e - ea))
                d[k] = e
        for k, e in d.items():
            eb = b.d.get(k, 0)
            if e > eb:
                fb = p_mul(fb, self.fpow(k, e - eb))
        na = self.reduce(p_mul(a.n, fa))
        nb = self.reduce(p_mul(b.n, fb))
        # reduce may introduce denominators only through sqrt of fractions
        s = self._add_simple(na, nb)
        if not s.n:
            return s
        dd = dict(d)
        for k, e in s.d.items():
            dd[k] = dd.get(k, 0) + e
        return self.mkrat(s.n, dd)

    def _add_simple(self, a, b):
        if a.d == b.d:
            return self.mkrat(p_add(a.n, b.n), a.d)
        return self.add(a, b)

    def fpow(self, key, e):
        p = dict(key)
        r = p
        for _ in range(e - 1):
            r = p_mul(r, p)
        return r

    def mkrat(self, n, d):
        if not n:
            return Rat({}, {})
        if d and len(n) > 1:
            n, d = self.cancel(n, d)
        return Rat(n, d)

    def mul(self, a, b):
        if not a.n or not b.n:
            return Rat({}, {})
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        an, bn = a.n, b.n
        # cheap cancellation: numerator equal to a denominator factor
        an, d = self.cancel(an, d)
        bn, d = self.cancel(bn, d)
        r = self.reduce(p_mul(an, bn))
        for k, e in d.items():
            r.d[k] = r.d.get(k, 0) + e
        n, dd = self.cancel(r.n, r.d)
        return self.mkrat(n, dd)

    def cancel(self, n, d):
        if not d or len(n) < 2:
            return n, d
        c, mon = p_normal(n)
        k = p_key(mon)
        if d.get(k, 0) > 0:
            d = dict(d)
            d[k] -= 1
            if d[k] == 0:
                del d[k]
            return p_const(c), d
        for k in sorted(d, key=len):
            while d.get(k, 0) > 0 and len(n) >= len(k) and len(n) <= 4000:
                q = p_divide(n, dict(k))
                if q is None:
                    break
                n = q
                d = dict(d)
                d[k] -= 1
                if d[k] == 0:
                    del d[k]
        return n, d

    def inv(self, a):
        if not a.n:
            raise Undefined("division by identically zero term")
        n = p_const(1)
        for k, e in a.d.items():
            n = p_mul(n, self.fpow(k, e))
        if len(a.n) == 1:
            (m, c), = a.n.items()
            im = tuple((x, -e) for x, e in m)
            return self.reduce(p_mul(n, {im: 1 / c}))
        # factor out the common monomial of the denominator
        common = None
        for m in a.n:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {x: min(e, dm[x]) for x, e in common.items() if x in dm and (e > 0) == (dm[x] > 0)}
            # atoms with negative exponents anywhere must be cleared
        low = {}
        for m in a.n:
            for x, e in m:
                low[x] = min(low.get(x, 0), e)
        for x in list(low):
            if low[x] == 0:
                del low[x]
        mm = dict(common or {})
        mm.update(low)
        im = tuple(sorted((x, -e) for x, e in mm.items() if e))
        den = p_mul(a.n, {im: mpq(1)})
        c, mon = p_normal(den)
        num = p_scale(p_mul(n, {im: mpq(1)}), 1 / c)
        r = self.reduce(num)
        r.d = dict(r.d)
        if len(mon) == 1 and () in mon:
            return self.mkrat(r.n, r.d)
        fac = factor_poly(mon)
        if fac is not None and (len(fac[1]) > 1 or fac[1][0][1] > 1):
            cc = fac[0]
            for f, e in fac[1]:
                lc, f = p_normal(f)
                cc = cc * lc**e
                if len(f) == 1:
                    (m, _), = f.items()
                    r = self.mul(r, self.reduce({tuple((x, -k * e) for x, k in m): mpq(1)}))
                    r.d = dict(r.d)
                else:
                    kf = p_key(f)
                    r.d[kf] = r.d.get(kf, 0) + e
            r.n = p_scale(r.n, 1 / cc)
        else:
            k = p_key(mon)
            r.d[k] = r.d.get(k, 0) + 1
        nn, dd = self.cancel(r.n, r.d)
        return self.mkrat(nn, dd)

    def reduce(self, p):
        """apply atom relations so exponents of related atoms lie in [0,k)"""
        todo = None
        for m in p:
            for x, e in m:
                r = self.rel.get(x)
                if r is not None and not (0 <= e < r[0]):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return Rat(p, {})
        keep = {}
        groups = {}
        for m, c in p.items():
            g = []
            rest = []
            for x, e in m:
                r = self.rel.get(x)
                if r is not None and not (0 <= e < r[0]):
                    k = r[0]
                    q, rem = divmod(e, k)
                    g.append((x, q))
                    if rem:
                        rest.append((x, rem))
                else:
                    rest.append((x, e))
            if g:
                groups.setdefault(tuple(g), {})[tuple(rest)] = c
            else:
                keep[m] = c
        res = Rat(keep, {})
        for g, poly in groups.items():
            f = Rat(p_const(1), {})
            for x, q in g:
                f = self.mul(f, self.relpow(x, q))
            res = self.add(res, self.mul(Rat(poly, {}), f))
        return res

    def relpow(self, x, q):
        key = (x, q)
        if key in self.power_cache:
            return self.power_cache[key]
        base = self.rel[x][1]
        if q < 0:
            base = self.inv(base)
            q = -q
        r = base
        for _ in range(q - 1):
            r = self.mul(r, base)
        self.power_cache[key] = r
        return r

    def pw(self, a, n):
        if n < 0:
            a = self.inv(a)
            n = -n
        r = Rat(p_const(1), {})
        base = a
        while n:
            if n & 1:
                r = self.mul(r, base)
            n >>= 1
            if n:
                base = self.mul(base, base)
        return r

    # -- normal form of a term
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for u in tm.topo([t]):
            if u.id not in self.memo and not u.isbool:
                self.memo[u.id] = self._nf(u)
        return self.memo[t.id]

    def atom(self, t):
        self.atom_term[t.id] = t
        return Rat({((t.id, 1),): mpq(1)}, {})

    def _nf(self, t):
        op = t.op
        if t.id in self.contracts:
            return self.atom(t)
        if op == "const":
            return Rat(p_const(t.val), {})
        if op in ("var", "pi"):
            return self.atom(t)
        if op == "add":
            return self.add(self.memo[t.args[0].id], self.memo[t.args[1].id])
        if op == "mul":
            return self.mul(self.memo[t.args[0].id], self.memo[t.args[1].id])
        if op == "div":
            return self.mul(self.memo[t.args[0].id], self.inv(self.memo[t.args[1].id]))
        if op in ("sqrt", "cbrt", "root"):
            return self._root(t)
        if op in ("sin", "cos"):
            return self._trig(t)
        if op == "exp":
            return self._exp(t)
        if op in ("log", "floor", "fn", "atan2"):
            return self.canon(t)
        return self.atom(t)

    def canon(self, t):
        """one atom per function and normal form of its arguments"""
        key = [t.op, t.val]
        for a in t.args:
            r = self.memo.get(a.id)
            if r is None or len(r.n) > 500:
                return self.atom(t)
            key.append((p_key(r.n), tuple(sorted((k, e) for k, e in r.d.items()))))
        key = tuple(key)
        d = self.power_cache.setdefault("canon", {})
        u = d.get(key)
        if u is None:
            d[key] = u = t
        return self.atom(u)

    def _exp(self, t):
        """exp(log x + rest) = x exp(rest)"""
        parts, stack = [], [t.args[0]]
        while stack:
            a = stack.pop()
            if a.op == "add":
                stack.extend(a.args)
            else:
                parts.append(a)
        logs = [a for a in parts if a.op == "log"]
        from . import terms as tm

        if not logs:
            a = self.memo[t.args[0].id]
            if a.n and not a.d and a.n[max(a.n)] < 0:  # exp(-x) = 1 / exp(x), with the sign chosen once
                return self.inv(self.nf(tm.exp(tm.neg(t.args[0]))))
            return self.canon(t)

        r = Rat(p_const(1), {})
        rest = tm.ZERO
        for a in parts:
            if a.op == "log":
                r = self.mul(r, self.nf(a.args[0]))
            else:
                rest = tm.add(rest, a)
        return self.mul(r, self.nf(tm.exp(rest)))

    def _root(self, t):
        k = {"sqrt": 2, "cbrt": 3}.get(t.op) or t.val
        a = self.memo[t.args[0].id]
        if not a.n:
            return a
        return self.root_rat(a, k, t)

    def root_rat(self, a, k, t):
        # canonical atom keyed by the normal form of the argument
        outer = Rat(p_const(1), {})
        if len(a.n) == 1 and not a.d:
            (m, c), = a.n.items()
            # extract k-th powers of atoms known to be non-negative
            om, im = [], []
            for x, e in m:
                q, rem = divmod(e, k)
                if q and (k % 2 == 1 or self.sign_atom(x)):
                    om.append((x, q))
                    if rem:
                        im.append((x, rem))
                else:
                    im.append((x, e))
            outer = Rat({tuple(om): mpq(1)}, {})
            a = Rat({tuple(im): c}, {})
        # extract rational k-th power content
        if a.n:
            c = max(a.n.items())[1]
            c = abs(c)
            rt = self._rat_root(c, k)
            if rt is not None and rt != 1:
                outer = self.mul(outer, Rat(p_const(rt), {}))
                a = Rat(p_scale(a.n, 1 / c), a.d)
        if a.n == {(): mpq(1)} and not a.d:
            return outer
        fs = self.split_root(a, k)
        if fs is not None:
            r = outer
            for f, e in fs:
                q, rem = divmod(e, k)
                if q:
                    r = self.mul(r, self.pw(f, q))
                if rem:
                    r = self.mul(r, self.pw(self._root_atom(f, k, t), rem))
            return r
        return self.mul(outer, self._root_atom(a, k, t))

    def _root_atom(self, a, k, t):
        if len(a.n) == 1 and () in a.n and not a.d:
            rt = self._rat_root(a.n[()], k) if a.n[()] > 0 else None
            if rt is not None:
                return Rat(p_const(rt), {})
        key = ("root", k, p_key(a.n), tuple(sorted(a.d.items())))
        at = self.named_atom(key)
        if at not in self.rel:
            self.rel[at] = (k, a)
            self.atom_term[at] = ("root", k, t)
        return Rat({((at, 1),): mpq(1)}, {})

    def poly_term(self, p):
        """the term of a polynomial all of whose atoms are terms, else None"""
        r = tm.ZERO
        for m, c in p.items():
            f = tm.const(c)
            for x, e in m:
                t = self.atom_term.get(x)
                if not isinstance(t, T) or e < 0:
                    return None
                f = tm.mul(f, tm.ipow(t, e))
            r = tm.add(r, f)
        return r

    def poly_sign(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 or self.sign_atom(x) for x, e in m):
                return 1 if c > 0 else -1
        if self.pbound is not None:
            b = self.pbound(p, self)
            if b[0] >= 0:
                return 1
            if b[1] <= 0:
                return -1
        t = self.poly_term(p)
        if t is None:
            return None
        if self.sign(t) == 1:
            return 1
        if self.sign(tm.neg(t)) == 1:
            return -1
        return None

    def split_root(self, a, k):
        """[(Rat factor, exponent)] with every factor non-negative (k even), or None"""
        key = ("split", k, p_key(a.n), tuple(sorted(a.d.items())))
        if key in self.power_cache:
            return self.power_cache[key]
        r = self._split_root(a, k)
        self.power_cache[key] = r
        return r

    def _split_root(self, a, k):
        out = []
        fac = factor_poly(a.n)
        if fac is None:
            if not a.d:
                return None
            fac = (mpq(1), [(a.n, 1)])
        elif not a.d and len(fac[1]) == 1 and fac[1][0][1] == 1 and fac[0] == 1:
            return None
        c, fs = fac
        items = [(p, e, 1) for p, e in fs] + [(dict(key), e, -1) for key, e in a.d.items()]
        for p, e, sg in items:
            if k % 2 == 0:
                s = self.poly_sign(p)
                if s is None:
                    if e % 2 == 0:
                        return None
                    return None
                if s < 0:
                    p = p_scale(p, -1)
                    if e % 2:
                        c = -c
            f = Rat(p, {})
            if sg > 0:
                out.append((f, e))
            else:
                # 1/p^e under the root: p^(-e)
                q, rem = divmod(-e, k)
                out.append((f, q * k + rem))
        if c != 1:
            if c < 0 and k % 2 == 0:
                return None
            sgn = -1 if c < 0 else 1
            rt = self._rat_root(abs(c), k)
            if rt is not None:
                out.append((Rat(p_const(sgn * rt), {}), k))
            else:
                out.append((Rat(p_const(c), {}), 1))
        return out

    def sign_atom(self, x):
        t = self.atom_term.get(x)
        if isinstance(t, tuple):
            return t[0] == "root"
        if t is None:
            return False
        if t is tm.PI:
            return True
        s = self.sign(t)
        return s is not None and s >= 0

    @staticmethod
    def _rat_root(c, k):
        import gmpy2

        n, e1 = gmpy2.iroot(gmpy2.mpz(c.numerator), k)
        d, e2 = gmpy2.iroot(gmpy2.mpz(c.denominator), k)
        if e1 and e2:
            return mpq(n, d)
        return None

    # sin/cos of linear combinations
    def base_trig(self, m, unit):
        """(sin, cos) Rat of monomial-angle m/unit"""
        key = (m, unit)
        r = self.trig_atoms.get(key)
        if r is not None:
            return r
        if len(m) == 1 and m[0][1] == 1 and unit in (1, 2) and self.atan2_rewrite:
            t = self.atom_term.get(m[0][0])
            if isinstance(t, T) and t.op == "atan2":
                y, x = (self.nf(a) for a in t.args)
                rho = self._root_of(self.add(self.mul(x, x), self.mul(y, y)), t)
                ir = self.inv(rho)
                s, c = self.mul(y, ir), self.mul(x, ir)
                if unit == 2:
                    half = Rat(p_const(mpq(1, 2)), {})
                    ch = self._root_of(self.mul(self.add(Rat(p_const(1), {}), c), half), t)
                    sh = self.mul(self.mul(s, half), self.inv(ch))
                    s, c = sh, ch
                self.trig_atoms[key] = (s, c)
                return s, c
        sa = self.named_atom(("s",) + key)
        ca = self.named_atom(("c",) + key)
        self.atom_term[sa] = ("sin", m, unit)
        self.atom_term[ca] = ("cos", m, unit)
        s = Rat({((sa, 1),): mpq(1)}, {})
        c = Rat({((ca, 1),): mpq(1)}, {})
        # cos^2 -> 1 - sin^2
        self.rel[ca] = (2, Rat({(): mpq(1), ((sa, 2),): mpq(-1)}, {}))
        self.trig_atoms[key] = (s, c)
        return s, c

    def _root_of(self, a, t):
        if not a.n:
            return a
        if a.n == {(): mpq(1)} and not a.d:
            return a
        return self.root_rat(a, 2, None)

    def multi(self, s, c, n):
        """sin(n a), cos(n a)"""
        neg = n < 0
        n = abs(n)
        rs, rc = Rat({}, {}), Rat(p_const(1), {})
        bs, bc = s, c
        first = True
        while n:
            if n & 1:
                if first:
                    rs, rc, first = bs, bc, False
                else:
                    rs, rc = self.sum_angle(rs, rc, bs, bc)
            n >>= 1
            if n:
                bs, bc = self.sum_angle(bs, bc, bs, bc)
        if neg:
            rs = Rat(p_scale(rs.n, -1), rs.d)
        return rs, rc

    def sum_angle(self, s1, c1, s2, c2):
        s = self.add(self.mul(s1, c2), self.mul(c1, s2))
        cc = self.mul(s1, s2)
        c = self.add(self.mul(c1, c2), Rat(p_scale(cc.n, -1), cc.d))
        return s, c

    def sincos(self, a):
        """a: Rat angle"""
        key = ("sc", p_key(a.n), tuple(sorted(a.d.items())))
        r = self.power_cache.get(key)
        if r is None:
            r = self._sincos(a)
            self.power_cache[key] = r
        return r

    def _sincos(self, a):
        if a.d:
            # treat the whole rational as one angle atom
            k = ("rat", p_key(a.n), tuple(sorted(a.d.items())))
            return self.base_trig((k,), 1) if False else self._opaque(k)
        rs, rc = Rat({}, {}), Rat(p_const(1), {})
        for m, c in sorted(a.n.items()):
            if self.is_pi(m):
                s_, c_ = self._pi_trig(c)
            else:
                u = self.unit.get(m, 1)
                k = c * u
                if k.denominator == 1 and abs(k) <= 64:
                    s0, c0 = self.base_trig(m, u)
                    s_, c_ = self.multi(s0, c0, int(k))
                else:
                    # |c| * m as its own angle
                    s0, c0 = self.base_trig(m, 1 / abs(c))
                    s_, c_ = (s0, c0) if c > 0 else (Rat(p_scale(s0.n, -1), s0.d), c0)
            rs, rc = self.sum_angle(rs, rc, s_, c_)
        return rs, rc

    def _opaque(self, k):
        r = self.trig_atoms.get(k)
        if r is None:
            sa, ca = self.named_atom(("s",) + k), self.named_atom(("c",) + k)
            self.atom_term[sa] = ("sin", k, 1)
            self.atom_term[ca] = ("cos", k, 1)
            self.rel[ca] = (2, Rat({(): mpq(1), ((sa, 2),): mpq(-1)}, {}))
            r = (Rat({((sa, 1),): mpq(1)}, {}), Rat({((ca, 1),): mpq(1)}, {}))
            self.trig_atoms[k] = r
        return r

    def _pi_trig(self, c):
        """sin/cos of c*pi"""
        out = []
        for sh in (mpq(0), mpq(1, 2)):
            v = tm._sin_table(c + sh)
            if v is None:
                k = ("pi", c - 2 * (c // 2))
                return self._opaque(k)
            out.append(self.nf(v))
        return tuple(out)

    def _trig(self, t):
        a = self.memo[t.args[0].id]
        s, c = self.sincos(a)
        return s if t.op == "sin" else c
