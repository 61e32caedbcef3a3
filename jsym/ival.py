"""Outward-rounded interval evaluation of terms."""

import math

from . import terms as tm

INF = math.inf
FULL = (-INF, INF)


def dn(x):
    return math.nextafter(x, -INF) if math.isfinite(x) else x


def up(x):
    return math.nextafter(x, INF) if math.isfinite(x) else x


def iadd(a, b):
    return (dn(a[0] + b[0]), up(a[1] + b[1]))


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def imul(a, b):
    p = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return (dn(min(p)), up(max(p)))


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        if b[0] == 0 and b[1] > 0 and a[0] >= 0:
            return (dn(a[0] / b[1]) if math.isfinite(b[1]) else 0.0, INF)
        return FULL
    i = (dn(1 / b[1]) if math.isfinite(b[1]) else 0.0, up(1 / b[0]) if math.isfinite(b[0]) else 0.0)
    if i[0] > i[1]:
        i = (min(i), max(i))
    if b[1] < 0:
        i = (dn(1 / b[1]), up(1 / b[0]) if math.isfinite(b[0]) else 0.0)
    return imul(a, i)


def isin(a):
    lo, hi = a
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi or max(abs(lo), abs(hi)) > 1e6:
        return (-1.0, 1.0)
    s, e = math.sin(lo), math.sin(hi)
    rlo, rhi = min(s, e), max(s, e)
    k = math.ceil((lo - math.pi / 2) / (2 * math.pi) - 1e-12)
    if math.pi / 2 + 2 * math.pi * k <= hi + 1e-12:
        rhi = 1.0
    k = math.ceil((lo + math.pi / 2) / (2 * math.pi) - 1e-12)
    if -math.pi / 2 + 2 * math.pi * k <= hi + 1e-12:
        rlo = -1.0
    return (max(-1.0, rlo - 1e-14), min(1.0, rhi + 1e-14))


def b3(lo, hi):
    return (lo, hi)


class Ival:
    """bounds: name -> (lo, hi).  Booleans are True/False/None."""

    def __init__(self, bounds, known=None, fnb=None):
        self.bounds = bounds
        self.memo = dict(known or {})
        self.fnb = fnb or {}

    def get(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        for u in tm.topo([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self._get(u)
        return self.memo[t.id]

    def _get(self, t):
        op = t.op
        a = [self.memo[x.id] for x in t.args]
        if op == "const":
            f = float(t.val)
            return (dn(f), up(f)) if t.val != int(f) else (f, f)
        if op == "pi":
            return (math.pi, up(math.pi))
        if op == "var":
            return self.bounds.get(t.val, FULL)
        if op == "add":
            return iadd(*a)
        if op == "mul":
            if t.args[0] is t.args[1]:
                lo, hi = a[0]
                m = max(abs(lo), abs(hi))
                n = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
                return (max(0.0, dn(n * n)), up(m * m))
            return imul(*a)
        if op == "div":
            return idiv(*a)
        if op == "sqrt":
            lo, hi = a[0]
            return (max(0.0, dn(math.sqrt(max(lo, 0.0)))), up(math.sqrt(max(hi, 0.0))) if hi < INF else INF)
        if op in ("cbrt", "root"):
            k = 3 if op == "cbrt" else t.val
            f = lambda x: x if not math.isfinite(x) else math.copysign(abs(x) ** (1 / k), x)
            lo, hi = a[0]
            if op == "root":
                lo = max(lo, 0.0)
                hi = max(hi, 0.0)
            lo, hi = f(lo), f(hi)
            return (lo - abs(lo) * 1e-14, hi + abs(hi) * 1e-14)
        if op == "sin":
            return isin(a[0])
        if op == "cos":
            return isin((a[0][0] + math.pi / 2, a[0][1] + math.pi / 2)) if math.isfinite(a[0][0]) and math.isfinite(a[0][1]) else (-1.0, 1.0)
        if op == "exp":
            lo, hi = a[0]
            try:
                return (dn(math.exp(lo)) if lo > -INF else 0.0, up(math.exp(hi)) if hi < INF else INF)
            except OverflowError:
                return (0.0, INF)
        if op == "log":
            lo, hi = a[0]
            return (math.log(lo) - 1e-14 if lo > 0 else -INF, math.log(hi) + 1e-14 if 0 < hi < INF else INF)
        if op == "atan2":
            (yl, yh), (xl, xh) = a
            if xl > 0 or yl > 0 or yh < 0:
                v = [math.atan2(y, x) for y in (yl, yh) for x in (xl, xh)]
                if all(map(math.isfinite, (yl, yh, xl, xh))):
                    if xl > 0 or yl > 0 or yh < 0:
                        return (min(v) - 1e-14, max(v) + 1e-14)
            if yl >= 0:
                return (0.0, up(math.pi))
            if yh <= 0:
                return (-up(math.pi), up(math.pi) if yh >= 0 else 0.0)
            return (-up(math.pi), up(math.pi))
        if op == "floor":
            lo, hi = a[0]
            return (math.floor(lo) if math.isfinite(lo) else lo, math.floor(hi) if math.isfinite(hi) else hi)
        if op == "ite":
            if t.isbool:
                c = a[0]
                if c is True:
                    return a[1]
                if c is False:
                    return a[2]
                return a[1] if a[1] == a[2] else None
            c = a[0]
            if c is True:
                return a[1]
            if c is False:
                return a[2]
            return (min(a[1][0], a[2][0]), max(a[1][1], a[2][1]))
        if op == "lt":
            if a[0][1] < a[1][0]:
                return True
            if a[0][0] >= a[1][1]:
                return False
            return None
        if op == "le":
            if a[0][1] <= a[1][0]:
                return True
            if a[0][0] > a[1][1]:
                return False
            return None
        if op == "eq":
            if a[0][0] == a[0][1] == a[1][0] == a[1][1]:
                return True
            if a[0][1] < a[1][0] or a[1][1] < a[0][0]:
                return False
            return None
        if op == "and":
            if a[0] is False or a[1] is False:
                return False
            return True if a[0] is True and a[1] is True else None
        if op == "or":
            if a[0] is True or a[1] is True:
                return True
            return False if a[0] is False and a[1] is False else None
        if op == "not":
            return None if a[0] is None else not a[0]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "bvar":
            return None
        if op == "fn":
            return self.fnb.get(t.val, FULL)
        if op == "inf":
            return (INF, INF)
        if op == "neg_inf":
            return (-INF, -INF)
        if op == "nan":
            return FULL
        raise NotImplementedError(op)
