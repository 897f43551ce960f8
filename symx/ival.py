"""Interval facts about z3 terms: a cheap, sound first answer before the solver."""
from fractions import Fraction

import z3

INF = float("inf")
# interval: (lo, lo_open, hi, hi_open)
TOP = (-INF, True, INF, True)


def _q(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def _mulb(a, ao, b, bo):
    """product of two end points"""
    if a == 0 or b == 0:
        # zero is attained if one of the zero ends is closed
        op = not ((a == 0 and not ao) or (b == 0 and not bo))
        return 0, op
    if abs(a) == INF or abs(b) == INF:
        return (INF if (a > 0) == (b > 0) else -INF), True
    return a * b, ao or bo


def add(x, y):
    return (x[0] + y[0], x[1] or y[1], x[2] + y[2], x[3] or y[3])


def neg(x):
    return (-x[2], x[3], -x[0], x[1])


def mul(x, y):
    c = [_mulb(x[i], x[i + 1], y[j], y[j + 1]) for i in (0, 2) for j in (0, 2)]
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    lo_o = all(o for v, o in c if v == lo)
    hi_o = all(o for v, o in c if v == hi)
    # an interior zero factor can attain 0 even if the ends do not
    if lo == 0 and lo_o and (inside0(x) or inside0(y)):
        lo_o = False
    if hi == 0 and hi_o and (inside0(x) or inside0(y)):
        hi_o = False
    return (lo, lo_o, hi, hi_o)


def inside0(x):
    return (x[0] < 0 or (x[0] == 0 and not x[1])) and (x[2] > 0 or (x[2] == 0 and not x[3]))


def join(x, y):
    if x[0] < y[0]:
        lo = x[:2]
    elif y[0] < x[0]:
        lo = y[:2]
    else:
        lo = (x[0], x[1] and y[1])
    if x[2] > y[2]:
        hi = x[2:]
    elif y[2] > x[2]:
        hi = y[2:]
    else:
        hi = (x[2], x[3] and y[3])
    return lo + hi


def meet(x, y):
    if x[0] > y[0]:
        lo = x[:2]
    elif y[0] > x[0]:
        lo = y[:2]
    else:
        lo = (x[0], x[1] or y[1])
    if x[2] < y[2]:
        hi = x[2:]
    elif y[2] < x[2]:
        hi = y[2:]
    else:
        hi = (x[2], x[3] or y[3])
    return lo + hi


class Facts:
    def __init__(self):
        self.env = {}     # id -> (interval, term)
        self.memo = {}
        self.bools = {}   # id -> (bool, term)
        self.defs = {}

    # -- learning
    def learn(self, f, val=True, depth=0):
        if depth > 6:
            return
        if z3.is_not(f):
            return self.learn(f.arg(0), not val, depth + 1)
        if (z3.is_and(f) and val) or (z3.is_or(f) and not val):
            for g in f.children():
                self.learn(g, val, depth + 1)
            return
        if z3.is_app(f) and f.sort() == z3.BoolSort():
            self.bools[f.get_id()] = (val, f)
            self.memo = {}
        k = f.decl().kind() if z3.is_app(f) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and z3.is_arith(f.arg(0))):
            a, b = f.arg(0), f.arg(1)
            if k == z3.Z3_OP_EQ:
                if val:
                    self._set(a, self.iv(b))
                    self._set(b, self.iv(a))
                else:
                    for t, o in ((a, b), (b, a)):
                        q = self.iv(o)
                        if q[0] == q[2]:
                            x = self.iv(t)
                            if x[0] == q[0]:
                                self._set(t, (x[0], True, INF, True))
                            if x[2] == q[0]:
                                self._set(t, (-INF, True, x[2], True))
                return
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if not val:
                a, b, strict = b, a, not strict
            # a <= b
            if z3.is_int(a) and z3.is_int(b) and strict:
                ia, ib = self.iv(a), self.iv(b)
                self._set(a, (-INF, True, ib[2] - 1, ib[3] if ib[2] == INF else False))
                self._set(b, (ia[0] + 1, ia[1] if ia[0] == -INF else False, INF, True))
                return
            ia, ib = self.iv(a), self.iv(b)
            self._set(a, (-INF, True, ib[2], ib[3] or strict))
            self._set(b, (ia[0], ia[1] or strict, INF, True))

    def _set(self, t, x):
        if _q(t) is not None:
            return
        # c * t
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return self._set(t.arg(0), x)
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            q = _q(t.arg(0))
            if q is not None and q != 0:
                lo, lo_o, hi, hi_o = x
                y = (lo / q, lo_o, hi / q, hi_o) if q > 0 else (hi / q, hi_o, lo / q, lo_o)
                self._set(t.arg(1), y)
        old = self.env.get(t.get_id())
        n = meet(old[0], x) if old else x
        if not old or n != old[0]:
            self.env[t.get_id()] = (n, t)
            self.memo = {}

    # -- asking
    def iv(self, t):
        i = t.get_id()
        h = self.memo.get(i)
        if h is not None:
            return h[0]
        r = self._iv(t)
        e = self.env.get(i)
        if e is not None:
            r = meet(r, e[0])
        self.memo[i] = (r, t)
        return r

    def _iv(self, t):
        q = _q(t)
        if q is not None:
            return (q, False, q, False)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, self.iv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, neg(self.iv(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return neg(self.iv(ch[0]))
        if k == z3.Z3_OP_MUL:
            # group equal factors: even powers are non-negative
            fs = []
            for c in ch:
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                    fs += c.children()
                else:
                    fs.append(c)
            cnt = {}
            for c in fs:
                cnt.setdefault(c.get_id(), [c, 0])[1] += 1
            r = None
            for c, n in cnt.values():
                x = self.iv(c)
                y = x
                for _ in range(n - 1):
                    y = mul(y, x)
                if n % 2 == 0 and y[0] < 0:
                    y = (0, not inside0(x), y[2], y[3])
                r = y if r is None else mul(r, y)
            return r
        if k == z3.Z3_OP_POWER:
            n = _q(ch[1])
            if n is not None and n.denominator == 1 and 0 < n < 10:
                x = self.iv(ch[0])
                y = x
                for _ in range(int(n) - 1):
                    y = mul(y, x)
                if n % 2 == 0 and y[0] < 0:
                    y = (0, not inside0(x), y[2], y[3])
                return y
            return TOP
        if k == z3.Z3_OP_ITE:
            b = self.bv(ch[0])
            if b is True:
                return self.iv(ch[1])
            if b is False:
                return self.iv(ch[2])
            x, y = self.iv(ch[1]), self.iv(ch[2])
            # min/max shapes: the guard bounds the chosen branch
            c = ch[0]
            x = self._under(c, True, ch[1], x)
            y = self._under(c, False, ch[2], y)
            return join(x, y)
        if k == z3.Z3_OP_TO_REAL:
            return self.iv(ch[0])
        if k == z3.Z3_OP_TO_INT:
            x = self.iv(ch[0])
            lo = x[0] if abs(x[0]) == INF else Fraction(x[0].__floor__() if isinstance(x[0], Fraction) else x[0])
            return (lo, lo == -INF, x[2], x[3] and x[2] == INF)
        return TOP

    def _under(self, c, val, t, x):
        """interval of t refined by the guard c (one level)."""
        while z3.is_not(c):
            c, val = c.arg(0), not val
        k = c.decl().kind() if z3.is_app(c) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return x
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if not val:
            a, b, strict = b, a, not strict
        if t.eq(a):
            ib = self.iv(b)
            return meet(x, (-INF, True, ib[2], ib[3] or strict))
        if t.eq(b):
            ia = self.iv(a)
            return meet(x, (ia[0], ia[1] or strict, INF, True))
        return x

    def bv(self, f, depth=0):
        """True / False / None"""
        e = self.bools.get(f.get_id())
        if e is not None and e[1].eq(f):
            return e[0]
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if depth > 12:
            return None
        k = f.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.bv(f.arg(0), depth + 1)
            return None if r is None else not r
        if k == z3.Z3_OP_AND:
            rs = [self.bv(g, depth + 1) for g in f.children()]
            return False if False in rs else (None if None in rs else True)
        if k == z3.Z3_OP_OR:
            rs = [self.bv(g, depth + 1) for g in f.children()]
            return True if True in rs else (None if None in rs else False)
        if k == z3.Z3_OP_IMPLIES:
            p, q = self.bv(f.arg(0), depth + 1), self.bv(f.arg(1), depth + 1)
            if p is False or q is True:
                return True
            return False if p is True and q is False else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.iv(f.arg(0)), self.iv(f.arg(1))
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            # a <= b (or <)
            if strict:
                if a[2] < b[0] or (a[2] == b[0] and (a[3] or b[1])):
                    return True
                if a[0] >= b[2]:
                    return False
            else:
                if a[2] <= b[0]:
                    return True
                if a[0] > b[2] or (a[0] == b[2] and (a[1] or b[3])):
                    return False
            return None
        if k == z3.Z3_OP_EQ and z3.is_arith(f.arg(0)):
            a, b = self.iv(f.arg(0)), self.iv(f.arg(1))
            if a[0] == a[2] == b[0] == b[2] and not (a[1] or a[3] or b[1] or b[3]):
                return True
            if a[2] < b[0] or b[2] < a[0] or (a[2] == b[0] and (a[3] or b[1])) or (b[2] == a[0] and (b[3] or a[1])):
                return False
        return None
