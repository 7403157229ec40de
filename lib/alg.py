"""Exact value domain of the algebraic analyses: multivariate rational functions over the rationals,
in formal variables and interned atoms (sqrt, abs, max, min, phi, opaque calls).

A value is num/den with num a polynomial (dict monomial -> Fraction, monomial = sorted tuple of
(atom, exponent)) and den a multiset of factors (dict factor-id -> exponent). Equality is decided by
cross multiplication, so it does not depend on how an expression was written."""
from fractions import Fraction

ONE = ()


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                o += c
                if o:
                    r[m] = o
                else:
                    del r[m]
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        c = c * s if s != 1 else c
        if o is None:
            r[m] = c
        else:
            o += c
            if o:
                r[m] = o
            else:
                del r[m]
    return r


def mdiv(a, b):
    """monomial a / b or None"""
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0)
        if x < e:
            return None
        if x == e:
            d.pop(k)
        else:
            d[k] = x - e
    return tuple(sorted(d.items()))


def mkey(m):
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=lambda m: tuple(_lexkey(m)))


def _lexkey(m):
    # pure lexicographic order: larger exponent of the smallest atom first
    return [(-a, e) for a, e in m] + [(-10 ** 9, 0)]


def pdivexact(a, b):
    """a / b if b divides a exactly (single divisor, lex order), else None"""
    if not a:
        return {}
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    guard = 0
    while r:
        guard += 1
        if guard > 20000:
            return None
        lr = lead(r)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        r = padd(r, pmul({m: c}, b), -1)
    return q


class Atoms:
    """interned variables and opaque terms of one analysis"""

    def __init__(self):
        self.name = []
        self.kind = []
        self.args = []
        self.byname = {}
        self.byfn = {}
        self.positive = set()
        self.square = {}        # root atom -> (num, den) of its square
        self.factors = []       # denominator factor polynomials
        self.fkey = {}

    def var(self, n, positive=False):
        if n in self.byname:
            i = self.byname[n]
        else:
            i = len(self.name)
            self.name.append(n)
            self.kind.append("var")
            self.args.append(())
            self.byname[n] = i
        if positive:
            self.positive.add(i)
        return Q(self, {((i, 1),): Fraction(1)}, {})

    def const(self, c):
        c = Fraction(c)
        return Q(self, {ONE: c} if c else {}, {})

    def app(self, fn, args, positive=False):
        """opaque application, identified up to equality of its arguments"""
        key = (fn, len(args))
        for i in self.byfn.get(key, ()):
            if all(same(x, y) for x, y in zip(self.args[i], args)):
                return Q(self, {((i, 1),): Fraction(1)}, {})
        i = len(self.name)
        self.name.append(fn + "(" + ", ".join(str(a) for a in args) + ")")
        self.kind.append(fn)
        self.args.append(tuple(args))
        self.byfn.setdefault(key, []).append(i)
        if positive:
            self.positive.add(i)
        return Q(self, {((i, 1),): Fraction(1)}, {})

    def factor(self, p):
        k = frozenset(p.items())
        if k not in self.fkey:
            self.fkey[k] = len(self.factors)
            self.factors.append(p)
        return self.fkey[k]


def same(x, y):
    if isinstance(x, Q) and isinstance(y, Q):
        return (x - y).iszero()
    return x == y


class Q:
    __slots__ = ("A", "n", "d")

    def __init__(self, A, n, d):
        self.A, self.n, self.d = A, n, d

    # ---- helpers
    def _c(self, o):
        return o if isinstance(o, Q) else self.A.const(o)

    def iszero(self):
        return not self.n

    def isconst(self):
        return not self.d and (not self.n or (len(self.n) == 1 and ONE in self.n))

    def constant(self):
        return self.n.get(ONE, Fraction(0))

    def __neg__(self):
        return Q(self.A, {m: -c for m, c in self.n.items()}, self.d)

    def __add__(self, o):
        o = self._c(o)
        if not o.n:
            return self
        if not self.n:
            return o
        if self.d == o.d:
            return norm(Q(self.A, padd(self.n, o.n), self.d))
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = max(d.get(f, 0), e)
        a, b = self.n, o.n
        for f, e in d.items():
            p = self.A.factors[f]
            for _ in range(e - self.d.get(f, 0)):
                a = pmul(a, p)
            for _ in range(e - o.d.get(f, 0)):
                b = pmul(b, p)
        return norm(Q(self.A, padd(a, b), d))

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        if not self.n or not o.n:
            return Q(self.A, {}, {})
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = d.get(f, 0) + e
        return norm(Q(self.A, pmul(self.n, o.n), d))

    __rmul__ = __mul__

    def inv(self):
        A = self.A
        if not self.n:
            raise ZeroDivisionError("division by zero in the analysed expression")
        if len(self.n) == 1:
            (m, c), = self.n.items()
            n = {ONE: 1 / c}
            d = {}
            for a, e in m:
                d[A.factor({((a, 1),): Fraction(1)})] = e
        else:
            # common monomial content and leading coefficient
            cont = None
            for m in self.n:
                s = dict(m)
                cont = s if cont is None else {k: min(v, s[k]) for k, v in cont.items() if k in s}
            cm = tuple(sorted(cont.items()))
            p = {mdiv(m, cm): c for m, c in self.n.items()}
            lc = p[lead(p)]
            p = {m: c / lc for m, c in p.items()}
            n = {ONE: 1 / lc}
            d = {A.factor({((a, 1),): Fraction(1)}): e for a, e in cm}
            # a power of a known factor?
            rest = p
            for f in range(len(A.factors)):
                q = A.factors[f]
                if len(q) < 2:
                    continue
                while len(rest) > 1:
                    t = pdivexact(rest, q)
                    if t is None:
                        break
                    d[f] = d.get(f, 0) + 1
                    rest = t
            if len(rest) == 1 and ONE in rest:
                n = {ONE: n[ONE] / rest[ONE]}
            elif len(rest) == 1:
                (m, c), = rest.items()
                n = {ONE: n[ONE] / c}
                for a, e in m:
                    k = A.factor({((a, 1),): Fraction(1)})
                    d[k] = d.get(k, 0) + e
            else:
                lc = rest[lead(rest)]
                if lc != 1:
                    rest = {m: c / lc for m, c in rest.items()}
                    n = {ONE: n[ONE] / lc}
                k = A.factor(rest)
                d[k] = d.get(k, 0) + 1
        for f, e in self.d.items():
            p = A.factors[f]
            for _ in range(e):
                n = pmul(n, p)
        return norm(Q(A, n, d))

    def __truediv__(self, o):
        return self * self._c(o).inv()

    def __rtruediv__(self, o):
        return self._c(o) * self.inv()

    def __pow__(self, k):
        if k < 0:
            return (self ** (-k)).inv()
        r = self.A.const(1)
        for _ in range(k):
            r = r * self
        return r

    def __eq__(self, o):
        return (self - o).iszero() if isinstance(o, (Q, int, Fraction)) else NotImplemented

    __hash__ = None

    # ---- calculus and substitution
    def diff(self, v):
        """formal partial derivative in the variable value v (opaque atoms are constants)"""
        a = next(iter(v.n))[0][0]
        A = self.A

        def pd(p):
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(a, 0)
                if not e:
                    continue
                if e == 1:
                    d.pop(a)
                else:
                    d[a] = e - 1
                r[tuple(sorted(d.items()))] = c * e
            return r
        r = Q(A, pd(self.n), dict(self.d))
        r = norm(r)
        for f, e in self.d.items():
            dp = pd(A.factors[f])
            if not dp:
                continue
            d = dict(self.d)
            d[f] = d[f] + 1
            r = r - Q(A, pmul({m: c * e for m, c in self.n.items()}, dp), d)
        return norm(r)

    def subs(self, mp):
        """mp: {atom index: Q}"""
        A = self.A

        def ps(p):
            r = A.const(0)
            for m, c in p.items():
                t = A.const(c)
                for a, e in m:
                    t = t * ((mp[a] if a in mp else Q(A, {((a, 1),): Fraction(1)}, {})) ** e)
                r = r + t
            return r
        r = ps(self.n)
        for f, e in self.d.items():
            r = r / (ps(A.factors[f]) ** e)
        return r

    def atoms(self):
        s = {a for m in self.n for a, _ in m}
        for f in self.d:
            s |= {a for m in self.A.factors[f] for a, _ in m}
        return s

    def maxcoef(self):
        return max([abs(c) for c in self.n.values()] or [Fraction(0)])

    def sign(self):
        """+1/-1/0 when decidable from positivity of the atoms, else None"""
        if not self.n:
            return 0
        s = set()
        for m, c in self.n.items():
            if any(a not in self.A.positive and e % 2 for a, e in m):
                return None
            s.add(c > 0)
        if len(s) > 1:
            return None
        r = 1 if s.pop() else -1
        for f, e in self.d.items():
            if e % 2:
                x = Q(self.A, self.A.factors[f], {}).sign()
                if x is None:
                    return None
                r *= x
        return r

    def __str__(self):
        def term(m, c):
            s = "*".join(self.A.name[a] + ("^%d" % e if e > 1 else "") for a, e in m)
            if not s:
                return str(c) if c.denominator < 10 ** 6 else "%.15g" % float(c)
            if c == 1:
                return s
            if c == -1:
                return "-" + s
            return (str(c) if c.denominator < 10 ** 6 else "%.15g" % float(c)) + "*" + s
        ts = [term(m, c) for m, c in sorted(self.n.items(), key=lambda x: repr(x[0]))]
        s = " + ".join(ts[:6]) + (" + ... (%d terms)" % len(ts) if len(ts) > 6 else "") if ts else "0"
        if self.d:
            s = "(" + s + ")/" + "/".join("(" + str(Q(self.A, self.A.factors[f], {})) + ")" + ("^%d" % e if e > 1 else "") for f, e in self.d.items())
        return s

    __repr__ = __str__


def norm(q):
    A = q.A
    if not q.n:
        return Q(A, {}, {})
    # squares of roots
    if A.square:
        for m in q.n:
            if any(e >= 2 and a in A.square for a, e in m):
                return _reduce(q)
    if q.d:
        n, d = q.n, dict(q.d)
        ch = False
        for f in list(d):
            p = A.factors[f]
            while d.get(f, 0) > 0:
                if len(p) == 1:
                    (m0, c0), = p.items()
                    ms = [(mdiv(m, m0), c) for m, c in n.items()]
                    if any(m is None for m, _ in ms):
                        break
                    n = {m: c / c0 for m, c in ms}
                else:
                    if len(n) < len(p) and len(n) == 1:
                        break
                    t = pdivexact(n, p) if len(n) < 400 else None
                    if t is None:
                        break
                    n = t
                d[f] -= 1
                ch = True
                if not d[f]:
                    del d[f]
        if ch:
            return Q(A, n, d)
    return q


def _reduce(q):
    A = q.A
    r = Q(A, {}, {})
    groups = {}
    for m, c in q.n.items():
        sq = tuple((a, e // 2) for a, e in m if e >= 2 and a in A.square)
        m2 = tuple((a, e % 2) if (a in A.square and e >= 2) else (a, e) for a, e in m)
        m2 = tuple(x for x in m2 if x[1])
        groups.setdefault(sq, {})[m2] = groups.get(sq, {}).get(m2, 0) + c
    for sq, p in groups.items():
        p = {m: c for m, c in p.items() if c}
        t = norm(Q(A, p, dict(q.d)))
        for a, e in sq:
            t = t * (A.square[a] ** e)
        r = r + t
    return r


def qsqrt(x):
    """non-negative square root"""
    A = x.A
    if not x.n:
        return x

    def root_mono(n):
        if len(n) != 1:
            return None
        (m, c), = n.items()
        if c < 0 or any(e % 2 for _, e in m):
            return None
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        if any(a2 not in A.positive for a2, _ in m):
            return None
        return {tuple((a2, e // 2) for a2, e in m): Fraction(a, b)}
    if not x.d or all(e % 2 == 0 and len(A.factors[f]) == 1 for f, e in x.d.items()):
        r = root_mono(x.n)
        if r is not None and all(all(a in A.positive for m in A.factors[f] for a, _ in m) for f in x.d):
            return Q(A, r, {f: e // 2 for f, e in x.d.items()})
    if x.isconst():
        pass
    q = A.app("sqrt", [x], positive=True)
    a = next(iter(q.n))[0][0]
    A.square.setdefault(a, x)
    return q


def qabs(x):
    s = x.sign()
    if s is not None:
        return x if s >= 0 else -x
    l = x.n[lead(x.n)]
    if l < 0:
        x = -x
    q = x.A.app("abs", [x], positive=True)
    a = next(iter(q.n))[0][0]
    x.A.square.setdefault(a, x * x)
    return q


def qmax(a, b, name="max"):
    s = (a - b).sign()
    if s is not None:
        return (a if s >= 0 else b) if name == "max" else (b if s >= 0 else a)
    # order-insensitive
    for i in a.A.byfn.get((name, 2), ()):
        x, y = a.A.args[i]
        if (same(x, a) and same(y, b)) or (same(x, b) and same(y, a)):
            return Q(a.A, {((i, 1),): Fraction(1)}, {})
    pos = (a.sign() == 1 or b.sign() == 1) if name == "max" else (a.sign() == 1 and b.sign() == 1)
    return a.A.app(name, [a, b], positive=pos)


class Valuation:
    """one assignment of numbers to the variables of an analysis; values of the terms built from them.
    Used only to certify that a term that does not normalise to zero is not zero as a function."""

    def __init__(self, A, rng, fixed=None):
        self.A, self.rng, self.m = A, rng, {}
        self.fixed = fixed or {}

    def atom(self, i):
        import math
        if i in self.m:
            return self.m[i]
        A = self.A
        k = A.kind[i]
        if k == "var":
            nm = A.name[i]
            if nm in self.fixed:
                v = float(self.fixed[nm])
            else:
                v = self.rng.uniform(0.6, 2.3) if i in A.positive else self.rng.uniform(-1.9, 1.9)
        else:
            a = [self.q(x) if isinstance(x, Q) else x for x in A.args[i]]
            if k == "sqrt":
                v = math.sqrt(a[0]) if a[0] >= 0 else float("nan")
            elif k == "abs":
                v = abs(a[0])
            elif k == "max":
                v = max(a)
            elif k == "min":
                v = min(a)
            elif k == "phi>":
                v = a[1] if a[0] > 0 else a[2]
            elif k == "phi==":
                v = a[1] if a[0] == 0 else a[2]
            elif k == "pow":
                v = a[0] ** a[1] if a[0] > 0 else float("nan")
            elif k in ("exp", "log", "sin", "cos", "tan", "tanh", "sinh", "cosh", "atan", "asin", "acos"):
                try:
                    v = getattr(math, k)(a[0])
                except (ValueError, OverflowError):
                    v = float("nan")
            elif k.startswith("@"):
                # opaque function: some smooth function of its arguments, fixed by its name
                import zlib
                h = zlib.crc32(k.encode())
                v = 0.3 + (h % 1000) / 800.0
                for j, x in enumerate(a):
                    v += x * (0.35 + ((h >> (j % 13)) * (j + 3) % 97) / 130.0)
                v = 1.2 + math.sin(v) + 0.1 * v
            else:
                raise KeyError(k)
        self.m[i] = v
        return v

    def poly(self, p):
        s = t = 0.0
        for mono, c in p.items():
            v = float(c)
            for a, e in mono:
                v *= self.atom(a) ** e
            s += v
            t += abs(v)
        return s, t

    def q(self, x):
        return self.scaled(x)[0]

    def scaled(self, x):
        s, t = self.poly(x.n)
        for f, e in x.d.items():
            d = self.poly(self.A.factors[f])[0] ** e
            if d == 0:
                return float("nan"), 1.0
            s, t = s / d, t / abs(d)
        return s, t


def differs(x, trials=12, seed=1, fixed=None):
    """True: some valuation makes the term clearly non-zero; False: it never did; None: not evaluable"""
    import random
    if x.iszero():
        return False
    ok = 0
    for k in range(trials * 3):
        try:
            v, t = Valuation(x.A, random.Random(seed * 1000 + k), fixed).scaled(x)
        except (KeyError, OverflowError, TypeError):
            return None
        if v != v or abs(v) == float("inf"):
            continue
        ok += 1
        if abs(v) > 1e-6 * max(t, 1e-30) and abs(v) > 1e-9:
            return True
        if ok >= trials:
            break
    return False if ok else None


def differs2(a, b, trials=16, seed=1, fixed=None):
    """as differs(a - b), without forming the difference"""
    import random
    ok = 0
    for k in range(trials * 3):
        try:
            V = Valuation(a.A, random.Random(seed * 1000 + k), fixed)
            (v, t), (w, u) = V.scaled(a), V.scaled(b)
        except (KeyError, OverflowError, TypeError):
            return None
        d = v - w
        if d != d or abs(d) == float("inf"):
            continue
        ok += 1
        if abs(d) > 1e-6 * max(t, u, 1e-30) and abs(d) > 1e-9:
            return True
        if ok >= trials:
            break
    return False if ok else None
