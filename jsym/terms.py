"""Hash-consed symbolic terms over the exact reals (plus booleans).

Every scalar of the traced program is one of these.  The raw DAG keeps partial
operations (div, sqrt, log, ...) so that definedness can be asked about it.
"""

import math
from fractions import Fraction

from gmpy2 import mpq

PI_F = math.pi
_table = {}


class T:
    __slots__ = ("op", "args", "val", "id", "total", "isbool", "depth")

    def __repr__(self):
        return show(self, 6)

    # convenience operators
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)


TOTAL = {
    "const", "pi", "var", "add", "mul", "sin", "cos", "atan2", "exp", "floor",
    "ite", "lt", "le", "eq", "and", "or", "not", "true", "false", "bvar", "cbrt",
    "fn",
}
BOOL = {"lt", "le", "eq", "and", "or", "not", "true", "false", "bvar"}


def mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.val = op, tuple(args), val
    t.id = len(_table)
    t.total = op in TOTAL and all(a.total for a in args)
    t.isbool = op in BOOL or (op == "ite" and args[1].isbool)
    t.depth = 1 + max((a.depth for a in args), default=0)
    _table[key] = t
    return t


def show(t, d=4):
    if t.op == "const":
        f = float(t.val)
        return f"{f:.6g}"
    if t.op in ("var", "bvar"):
        return str(t.val)
    if not t.args:
        return t.op
    if d == 0:
        return "..."
    s = ", ".join(show(a, d - 1) for a in t.args)
    v = f"[{t.val}]" if t.val is not None else ""
    return f"{t.op}{v}({s})"


def const(v):
    if not isinstance(v, type(mpq(0))):
        v = mpq(v)
    return mk("const", (), v)


ZERO = const(0)
ONE = const(1)
HALF = const(mpq(1, 2))
PI = mk("pi")
TRUE = mk("true")
FALSE = mk("false")


def var(name):
    return mk("var", (), name)


def bvar(name):
    return mk("bvar", (), name)


# ---------------------------------------------------------------- constants
def _near_rational(x, maxden=720, tol=8):
    fr = Fraction(x).limit_denominator(maxden)
    if fr == 0:
        return None
    f = float(fr)
    if abs(f - x) <= tol * math.ulp(x):
        return fr
    return None


IDEALISE = True
ROOTS = False  # recognise square roots of small rationals (set per obligation)
_cache = {}


def lift(v):
    if isinstance(v, T):
        return v
    import numpy as np

    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        return const(int(v))
    if isinstance(v, type(mpq(0))):
        return const(v)
    if isinstance(v, Fraction):
        return const(mpq(v))
    v = float(v)
    r = _cache.get((v, ROOTS))
    if r is None:
        r = _lift_float(v)
        _cache[v, ROOTS] = r
    return r


class NonFinite(Exception):
    pass


INF = mk("inf")
NAN = mk("nan")


def _lift_float(v):
    if v != v:
        return NAN
    if math.isinf(v):
        return INF if v > 0 else mk("neg_inf")
    fr = Fraction(v)
    # exactly representable "short" numbers stay as they are
    if fr.denominator <= 2**20 and abs(fr.numerator) < 2**40:
        return const(mpq(fr))
    if IDEALISE and 1e-12 < abs(v) < 1e12:
        for k in (1, -1, 2):
            q = v / PI_F**k
            r = _near_rational(q, maxden=360, tol=4)
            if r is not None and abs(r.numerator) <= 3600:
                base = PI
                if k == 1:
                    return mul(const(mpq(r)), PI)
                if k == 2:
                    return mul(const(mpq(r)), mul(PI, PI))
                return div(const(mpq(r)), PI)
        if ROOTS:
            r = _near_rational(v * v, maxden=64, tol=4)
            if r is not None and abs(r.numerator) <= 64 and _near_rational(abs(v), maxden=64, tol=2) is None:
                s = sqrt(const(mpq(r)))
                return s if v > 0 else mul(const(mpq(-1)), s)
        # plain small rationals (1/3, 2/3, 4/15 ...), computed in double
        r = _near_rational(v, maxden=2000, tol=2)
        if r is not None and abs(r.numerator) <= 20000:
            return const(mpq(r))
    return const(mpq(fr))


def is_const(t):
    return t.op == "const"


# ---------------------------------------------------------------- arithmetic
def _split(t):
    """coefficient, rest"""
    if t.op == "const":
        return t.val, None
    if t.op == "mul" and t.args[0].op == "const":
        return t.args[0].val, t.args[1]
    return mpq(1), t


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.val + b.val)
    if a.op == "const" and a.val == 0:
        return b
    if b.op == "const" and b.val == 0:
        return a
    if a.op in ("nan",) or b.op in ("nan",):
        return NAN
    if a.op in ("inf", "neg_inf") or b.op in ("inf", "neg_inf"):
        ia = a.op in ("inf", "neg_inf")
        ib = b.op in ("inf", "neg_inf")
        if ia and ib and a.op != b.op:
            return NAN
        return a if ia else b
    ca, ra = _split(a)
    cb, rb = _split(b)
    if ra is not None and ra is rb:
        c = ca + cb
        if c == 0 and ra.total:
            return ZERO
        if c != 0:
            return mul(const(c), ra)
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.val * b.val)
    if b.op == "const":
        a, b = b, a
    if a.op in ("nan",) or b.op in ("nan",):
        return NAN
    for p, q in ((a, b), (b, a)):
        if p.op in ("inf", "neg_inf"):
            if q.op in ("inf", "neg_inf"):
                return INF if p.op == q.op else mk("neg_inf")
            if q.op == "const":
                if q.val == 0:
                    return NAN
                return p if q.val > 0 else (mk("neg_inf") if p.op == "inf" else INF)
            return mk("mul", (p, q))
    if a.op == "const":
        if a.val == 0 and b.total:
            return ZERO
        if a.val == 1:
            return b
        if b.op == "mul" and b.args[0].op == "const":
            return mul(const(a.val * b.args[0].val), b.args[1])
        return mk("mul", (a, b))
    # pull constants out
    ca, ra = _split(a)
    cb, rb = _split(b)
    if ca != 1 or cb != 1:
        return mul(const(ca * cb), mul(ra, rb))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b))


def div(a, b):
    if b.op == "const":
        if b.val == 0:
            return NAN if (a.op == "const" and a.val == 0) else mk("div", (a, b))
        return mul(const(1 / b.val), a)
    if b.op in ("inf", "neg_inf"):
        return ZERO if a.op not in ("inf", "neg_inf", "nan") else NAN
    ca, ra = _split(a)
    cb, rb = _split(b)
    if ca != 1 or cb != 1:
        if ra is None:
            if rb.op == "pi" or ca == 0:
                pass
            ra = ONE
        return mul(const(ca / cb), div(ra, rb)) if ca != 0 else mk("mul", (ZERO, mk("div", (ONE, rb))))
    if a is b and a.op == "pi":
        return ONE
    return mk("div", (a, b))


def ipow(a, n):
    n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, ipow(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def _iroot(n, k):
    import gmpy2

    r, exact = gmpy2.iroot(n, k)
    return r if exact else None


def root(a, k):
    """real k-th root; k=2 partial (a>=0), odd k total (sign preserving)."""
    if a.op == "const":
        v = a.val
        s = 1
        if v < 0:
            if k % 2 == 0:
                return NAN
            s, v = -1, -v
        n, d = _iroot(v.numerator, k), _iroot(v.denominator, k)
        if n is not None and d is not None:
            return const(s * mpq(n, d))
    if k == 2:
        return mk("sqrt", (a,))
    if k == 3:
        return mk("cbrt", (a,))
    return mk("root", (a,), k)


def sqrt(a):
    return root(a, 2)


def power(a, p):
    """a ** p for a constant (rational) or symbolic exponent."""
    if p.op == "const":
        fr = Fraction(int(p.val.numerator), int(p.val.denominator))
        q = fr.limit_denominator(12)
        if abs(float(q) - float(fr)) < 1e-13:
            fr = q
        if fr.denominator == 1:
            return ipow(a, fr.numerator)
        if fr.denominator in (2, 3, 4, 6):
            r = a
            k = fr.denominator
            if k == 2:
                r = sqrt(a)
            elif k == 3:
                # pow() is NaN for negative base: cbrt restricted to a >= 0
                r = mk("sqrt", (mul(root(a, 3), root(a, 3)),)) if False else mk("root", (a,), 3)
            else:
                r = mk("root", (a,), k)
            return ipow(r, fr.numerator)
    return exp(mul(p, log(a)))


def exp(a):
    if a.op == "const" and a.val == 0:
        return ONE
    if a.op == "neg_inf":
        return ZERO
    return mk("exp", (a,))


def log(a):
    if a.op == "const" and a.val == 1:
        return ZERO
    return mk("log", (a,))


def sin(a):
    if a.op == "const" and a.val == 0:
        return ZERO
    p = pi_multiple(a)
    if p is not None:
        r = _sin_table(p)
        if r is not None:
            return r
    c, r = _split(a)
    if r is not None and c < 0:
        return neg(mk("sin", (neg(a),)))
    return mk("sin", (a,))


def cos(a):
    if a.op == "const" and a.val == 0:
        return ONE
    p = pi_multiple(a)
    if p is not None:
        r = _sin_table(p + mpq(1, 2))
        if r is not None:
            return r
    c, r = _split(a)
    if r is not None and c < 0:
        return mk("cos", (neg(a),))
    return mk("cos", (a,))


def pi_multiple(a):
    if a.op == "pi":
        return mpq(1)
    if a.op == "mul" and a.args[0].op == "const" and a.args[1].op == "pi":
        return a.args[0].val
    return None


def _sin_table(p):
    p = p - 2 * (p // 2)
    s = 1
    if p >= 1:
        p -= 1
        s = -1
    tab = {mpq(0): 0, mpq(1, 2): 1, mpq(1, 6): mpq(1, 2), mpq(5, 6): mpq(1, 2)}
    if p in tab:
        return const(s * mpq(tab[p]))
    if p in (mpq(1, 4), mpq(3, 4)):
        return mul(const(s * mpq(1, 2)), sqrt(const(2)))
    if p in (mpq(1, 3), mpq(2, 3)):
        return mul(const(s * mpq(1, 2)), sqrt(const(3)))
    return None


def tan(a):
    return div(sin(a), cos(a))


def atan2(y, x):
    if y.op == "const" and x.op == "const":
        yv, xv = y.val, x.val
        if yv == 0:
            return ZERO if xv >= 0 else PI
        if xv == 0:
            return mul(const(mpq(1, 2) if yv > 0 else mpq(-1, 2)), PI)
        if abs(yv) == abs(xv):
            q = mpq(1, 4) if xv > 0 else mpq(3, 4)
            return mul(const(q if yv > 0 else -q), PI)
    return mk("atan2", (y, x))


def floor(a):
    if a.op == "const":
        return const(a.val.numerator // a.val.denominator)
    return mk("floor", (a,))


# ---------------------------------------------------------------- booleans
def lt(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.val < b.val else FALSE
    if a is b and a.total:
        return FALSE
    r = _inf_cmp(a, b, False)
    if r is not None:
        return r
    return mk("lt", (a, b))


def _inf_cmp(a, b, refl):
    if "nan" in (a.op, b.op):
        return FALSE
    if a.op == "neg_inf" or b.op == "inf":
        return TRUE if (a.op != b.op or refl) else FALSE
    if a.op == "inf" or b.op == "neg_inf":
        return FALSE if (a.op != b.op or not refl) else TRUE
    return None


def le(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.val <= b.val else FALSE
    if a is b and a.total:
        return TRUE
    r = _inf_cmp(a, b, True)
    if r is not None:
        return r
    return mk("le", (a, b))


def eq(a, b):
    if a.isbool or b.isbool:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == "const" and b.op == "const":
        return TRUE if a.val == b.val else FALSE
    if a is b and a.total:
        return TRUE
    infs = ("inf", "neg_inf", "nan")
    if a.op in infs or b.op in infs:
        return TRUE if (a.op == b.op and a.op != "nan") else FALSE
    for p, q in ((a, b), (b, a)):  # an angle is zero: the point is on the positive x axis
        if p.op == "const" and p.val == 0:
            if q.op == "mul" and q.args[0].op == "const" and q.args[0].val != 0:
                q = q.args[1]
            if q.op == "atan2":
                return and_(eq(q.args[0], ZERO), le(ZERO, q.args[1]))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,))


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b))


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("or", (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b))


def fn(name, args):
    """uninterpreted total function"""
    return mk("fn", tuple(args), name)


BUILD = {
    "add": add, "mul": mul, "div": div, "sqrt": lambda a: root(a, 2),
    "cbrt": lambda a: root(a, 3), "sin": sin, "cos": cos, "atan2": atan2,
    "exp": exp, "log": log, "floor": floor, "lt": lt, "le": le, "eq": eq,
    "not": not_, "and": and_, "or": or_, "ite": ite,
}


def rebuild(t, args):
    if t.op == "root":
        return mk("root", args, t.val) if args[0].op != "const" else root(args[0], t.val)
    if t.op in BUILD:
        return BUILD[t.op](*args)
    return mk(t.op, args, t.val)


def topo(roots):
    """children-first order of the DAG reachable from roots (iterative)."""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def substitute(roots, mapping):
    """mapping: id -> T.  Returns new roots."""
    memo = {}
    for t in topo(roots):
        if t.id in mapping:
            memo[t.id] = mapping[t.id]
        elif not t.args:
            memo[t.id] = t
        else:
            args = tuple(memo[a.id] for a in t.args)
            if all(x is y for x, y in zip(args, t.args)):
                memo[t.id] = t
            else:
                memo[t.id] = rebuild(t, args)
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- evaluation
def evaluate(roots, env, fns=None, mod=math):
    """concrete float evaluation (validation only)."""
    memo = {}
    for t in topo(roots):
        a = [memo[x.id] for x in t.args]
        try:
            memo[t.id] = _ev(t, a, env, fns)
        except (ZeroDivisionError, ValueError, OverflowError):
            memo[t.id] = float("nan")
    return [memo[r.id] for r in roots]


def _ev(t, a, env, fns):
    op = t.op
    if op == "const":
        return float(t.val)
    if op == "pi":
        return math.pi
    if op in ("var", "bvar"):
        return env[t.val]
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "inf":
        return math.inf
    if op == "neg_inf":
        return -math.inf
    if op == "nan":
        return math.nan
    if op == "add":
        return a[0] + a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        if a[1] == 0:
            return math.nan if a[0] == 0 or a[0] != a[0] else math.copysign(math.inf, a[0])
        return a[0] / a[1]
    if op == "sqrt":
        return math.sqrt(a[0])
    if op == "cbrt":
        return math.copysign(abs(a[0]) ** (1 / 3), a[0])
    if op == "root":
        return a[0] ** (1 / t.val) if a[0] >= 0 else math.nan
    if op == "sin":
        return math.sin(a[0])
    if op == "cos":
        return math.cos(a[0])
    if op == "atan2":
        return math.atan2(a[0], a[1])
    if op == "exp":
        return math.exp(a[0])
    if op == "log":
        return math.log(a[0])
    if op == "floor":
        return math.floor(a[0])
    if op == "lt":
        return a[0] < a[1]
    if op == "le":
        return a[0] <= a[1]
    if op == "eq":
        return a[0] == a[1]
    if op == "and":
        return a[0] and a[1]
    if op == "or":
        return a[0] or a[1]
    if op == "not":
        return not a[0]
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "fn":
        return fns[t.val](*a)
    raise NotImplementedError(op)
