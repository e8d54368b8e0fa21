"""Numeric evaluation of terms and arrays under an assignment of the symbols
(random interpretation), and the comparison of an inferred value with a
specification."""
import hashlib
import math
import random
import struct
from fractions import Fraction
from terms import *
import terms as T
import arrays as A
from arrays import Base, Layer, Sel, RecArr


class UnknownVal(Exception):
    pass


class Poison(Exception):
    """no defined value (division by zero, log of a negative number, ...)"""


def hval(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return struct.unpack("<Q", h)[0] / 2.0 ** 64


DOMAINS = {"pos": lambda u: 0.05 + 2 * u, "unit": lambda u: 0.02 + 0.96 * u, "small": lambda u: 0.01 + 0.2 * u}


class Env:
    """one assignment: sizes are numbers, array contents are hash functions"""

    def __init__(self, seed, sizes, mode="generic", domain=None):
        self.seed = seed
        self.sizes = sizes          # symbol name -> int
        self.mode = mode
        self.domain = {k: DOMAINS.get(v, v) if isinstance(v, str) else v for k, v in (domain or {}).items()}  # array/scalar name -> function(u in [0,1)) -> value
        self.specials = ()
        self.avoid = {}
        self.over = {}              # array name -> function of the index
        self.memo = {}
        self.work = 0

    def real(self, name, *key):
        if name in self.over:
            return self.over[name](*key)
        v = self._real(name, *key)
        return v + 0.37 if v in self.avoid.get(name, ()) else v

    def _real(self, name, *key):
        u = hval(self.seed, name, *key)
        d = self.domain.get(name)
        if d is not None:
            return d(u)
        if self.mode == "special" and self.specials:
            v = self.specials[int(u * 997) % len(self.specials)]
            w = hval(self.seed, "special", name, *key)
            return v + (0, 0, 1e-4, -1e-4, 1, -1, 3.5, -3.5)[int(w * 8)]
        if self.mode == "ties":
            return (-1.5, -0.5, 0.0, 0.5, 1.0, 2.0)[int(u * 6)]
        if self.mode == "neg":
            return -0.1 - 1.7 * u
        return 3.4 * u - 1.7

    def integer(self, name, *key):
        d = self.domain.get(name)
        u = hval(self.seed, name, *key)
        if d is not None:
            return d(u)
        return int(u * 9) - 3

    # ---- terms; b maps binder atoms to ints
    def poly(self, p, b):
        s = 0
        for m, c in p.t.items():
            v = c if isinstance(c, int) else (c.numerator / c.denominator if c.denominator != 1 else c.numerator)
            for a, e in m:
                x = self.atom(a, b)
                if e == 1:
                    v = v * x
                elif isinstance(e, int) and e > 0:
                    v = v * x ** e
                else:
                    if x == 0 and e < 0:
                        raise Poison("division by zero")
                    try:
                        v = v * (float(x) ** (float(e) if not isinstance(e, int) else e))
                    except (OverflowError, ValueError, ZeroDivisionError):
                        raise Poison("power")
                    if isinstance(v, complex):
                        raise Poison("root of a negative number")
            s = s + v
        return s

    def atom(self, a, b):
        key = (a.id, tuple((x.id, b[x]) for x in sorted(a.fv, key=lambda y: y.id) if x in b) if b else ())
        r = self.memo.get(key)
        if r is None:
            self.work += 1
            if self.work > getattr(self, "budget", 3000000):
                raise UnknownVal("evaluation too large")
            r = self._atom(a, b)
            self.memo[key] = r
        return r

    def _atom(self, a, b):
        k = a.kind
        if a in b:
            return b[a]
        if k == "sym":
            n = a.args[0]
            if n in self.sizes:
                return self.sizes[n]
            if a.sort == "i":
                return self.integer(n)
            return self.real(n)
        if k == "bv":
            raise UnknownVal("free binder")
        if k == "inf":
            return float("inf")
        if k == "unk":
            raise UnknownVal(a.args[1])
        if k == "ite":
            return self.poly(a.args[1] if self.bool(a.args[0], b) else a.args[2], b)
        if k == "ind":
            return 1 if self.bool(a.args[0], b) else 0
        if k in ("div", "mod"):
            x, d = self.poly(a.args[0], b), self.poly(a.args[1], b)
            if d == 0:
                raise Poison("integer division by zero")
            q = abs(x) // abs(d)
            q = q if (x >= 0) == (d > 0) else -q
            return q if k == "div" else x - d * q
        if k == "pa":
            return self.poly(a.args[0], b)
        if k in ("sum", "max", "amax", "lamax"):
            v, n, body = a.args
            n = self.poly(n, b)
            if n > 200000:
                raise UnknownVal("large range")
            b2 = dict(b)
            if k == "sum":
                s = 0
                for i in range(int(n)):
                    b2[v] = i
                    s = s + self.poly(body, b2)
                return s
            best, arg = None, 0
            for i in range(int(n)):
                b2[v] = i
                x = self.poly(body, b2)
                if best is None or x > best or (k == "lamax" and x == best):
                    best, arg = x, i
            if best is None:
                raise Poison("maximum of nothing")
            return best if k == "max" else arg
        if k == "el":
            return self.read(a.args[0], self.poly(a.args[1], b), b, a.sort)
        if k == "fn":
            return self.fn(a.args[0], a.args[1:], b, a.sort)
        if k == "rec":
            raise UnknownVal("recurrence")
        raise UnknownVal("atom " + k)

    def fn(self, name, args, b, sort):
        xs = [self.poly(x, b) if isinstance(x, Poly) else (self.bool(x, b) if isinstance(x, Bool) else x) for x in args]
        try:
            if name == "exp":
                return math.exp(xs[0])
            if name == "log":
                return math.log(xs[0])
            if name in ("sin", "cos", "tan", "atan", "asin", "acos", "erf", "erfc", "lgamma", "tanh", "asinh", "acosh", "atanh"):
                return getattr(math, name)(xs[0])
            if name == "tgamma":
                return math.gamma(xs[0])
            if name == "abs":
                return abs(xs[0])
            if name == "pow":
                r = xs[0] ** xs[1]
                if isinstance(r, complex):
                    raise Poison("pow")
                return r
            if name in ("floor", "ceil", "trunc"):
                return getattr(math, name)(xs[0])
            if name == "round":
                return math.floor(abs(xs[0]) + 0.5) * (1 if xs[0] >= 0 else -1)
            if name == "fmod":
                return math.fmod(xs[0], xs[1])
            if name == "f2i":
                return int(xs[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Poison(name)
        if name == "div0":
            raise Poison("division by zero")
        if name == "nan":
            raise Poison("nan")
        if name in self.over:
            return self.over[name](*xs)
        key = tuple(round(x, 9) if isinstance(x, float) else x for x in xs)
        u = hval(self.seed, "fn", name, key)
        if name == "U01":
            return u
        if name.startswith("byte:"):
            d = self.domain.get(name)
            return int(d(u) if d is not None else u * 256)
        if name == "N01":
            return sum(hval(self.seed, "fn", name, key, i) for i in range(6)) * 1.4 - 4.2
        if name == "UINT":
            n = xs[2]
            return int(u * (min(n, 10 ** 6) + 1))
        if sort == "i":
            return int(u * 1000)
        return 2 * u - 1

    def bool(self, x, b):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        k = x.kind
        if k == "lt":
            return self.cmp(self.poly(x.args[0], b)) < 0
        if k == "eq":
            return self.cmp(self.poly(x.args[0], b)) == 0
        if k == "not":
            return not self.bool(x.args[0], b)
        if k in ("and", "or"):
            # short circuit; unknown parts only matter when nothing else decides
            stop = k == "or"
            err = None
            for y in sorted(x.args, key=lambda q: (q.unk, q.lvl)):
                try:
                    if self.bool(y, b) == stop:
                        return stop
                except (UnknownVal, Poison) as e:
                    err = err or e
            if err:
                raise err
            return not stop
        if k == "sym":
            n = x.args[0]
            if n in self.sizes:
                return bool(self.sizes[n])
            return hval(self.seed, "bool", n) < 0.5
        if k == "unk":
            raise UnknownVal(str(x.args[1]))
        if k == "exists":
            v, n, body = x.args
            n = self.poly(n, b)
            b2 = dict(b)
            for i in range(int(min(n, 100000))):
                b2[v] = i
                if self.bool(body, b2):
                    return True
            return False
        raise UnknownVal("condition " + k)

    @staticmethod
    def cmp(v):
        if isinstance(v, float) and abs(v) < 1e-9:
            return 0
        return v

    # ---- arrays
    def read(self, arr, i, b, sort):
        if isinstance(i, float):
            i = int(i)
        if isinstance(arr, Base):
            k = arr.kind
            if k == "const":
                return self.poly(arr.name, b)
            if k == "sym":
                if arr.sort == "i":
                    return self.integer(arr.name, i)
                if arr.sort == "b":
                    return int(hval(self.seed, arr.name, i) < 0.5)
                return self.real(arr.name, i)
            if k == "undef":
                return 1e3 * hval(self.seed, "undef", arr.name, i) + 777
            raise UnknownVal("array contents")
        if isinstance(arr, Sel):
            return self.read(arr.a if self.bool(arr.c, b) else arr.b, i, b, sort)
        if isinstance(arr, Layer):
            tab = self.layer(arr, b)
            if arr.add:
                return self.read(arr.prev, i, b, sort) + tab.get(i, 0)
            if i in tab:
                return tab[i]
            return self.read(arr.prev, i, b, sort)
        raise UnknownVal("array contents")

    def layer(self, arr, b):
        key = ("L", arr.id, tuple((x.id, b[x]) for x in sorted(arr.fv, key=lambda y: y.id) if x in b))
        t = self.memo.get(key)
        if t is not None:
            return t
        t = {}
        b2 = dict(b)

        def go(j):
            if j == len(arr.binders):
                self.work += 1
                if self.work > getattr(self, "budget", 3000000):
                    raise UnknownVal("evaluation too large")
                if self.bool(arr.guard, b2):
                    i = self.poly(arr.idx, b2)
                    v = self.poly(arr.val, b2)
                    t[i] = t.get(i, 0) + v if arr.add else v
                return
            v, n = arr.binders[j]
            for x in range(int(self.poly(n, b2))):
                b2[v] = x
                go(j + 1)
        go(0)
        self.memo[key] = t
        return t


def close(x, y):
    if x == y:
        return True
    if isinstance(x, float) and math.isinf(x) or isinstance(y, float) and math.isinf(y):
        return x == y
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))


# ------------------------------------------------------------------ guided assignments
class Guides:
    """the comparisons a value depends on: sampled assignments are steered to both sides of them"""

    def __init__(self):
        self.eqs, self.ints, self.reals = [], set(), set()
        self._seen = set()

    def visit(self, x, depth=0):
        if depth > 400 or len(self._seen) > 60000:
            return
        if isinstance(x, Poly):
            for m, _ in x.t.items():
                for a, _e in m:
                    self.visit(a, depth + 1)
            return
        if isinstance(x, (tuple, list)):
            for y in x:
                self.visit(y, depth)
            return
        if not isinstance(x, (T.Atom, Bool, A.Arr)):
            return
        if id(x) in self._seen:
            return
        self._seen.add(id(x))
        if isinstance(x, T.Atom):
            for y in x.args:
                self.visit(y, depth + 1)
            if x.kind in ("div", "mod"):
                c = x.args[1].const()
                if c is not None:
                    self.note_int(c)
        elif isinstance(x, Bool):
            if x.kind in ("lt", "eq") and isinstance(x.args[0], Poly):
                self.compare(x.args[0])
            for y in x.args:
                self.visit(y, depth + 1)
        elif isinstance(x, A.Layer):
            self.visit(x.prev, depth + 1)
            self.visit(x.guard, depth + 1)
            self.visit(x.idx, depth + 1)
            self.visit(x.val, depth + 1)
            for _, n in x.binders:
                self.visit(n, depth + 1)
        elif isinstance(x, A.Sel):
            self.visit(x.c, depth + 1)
            self.visit(x.a, depth + 1)
            self.visit(x.b, depth + 1)
        elif isinstance(x, A.Base) and isinstance(x.name, Poly):
            self.visit(x.name, depth + 1)

    def note_int(self, c):
        if 3 < abs(c) <= 100000 and c == int(c):
            self.ints.add(abs(int(c)))

    def compare(self, p):
        integer = all(a.sort == "i" for m in p.t for a, _ in m)
        c = p.t.get((), 0)
        if integer:
            self.note_int(c)
            for m, k in p.t.items():
                if m:
                    self.note_int(k)
            syms = [a for m in p.t for a, _ in m if a.kind == "sym"]
            if syms and p not in self.eqs and len(self.eqs) < 40:
                self.eqs.append(p)
        else:
            # a x + c compared with zero: the threshold -c/a
            for m, k in p.t.items():
                if m and len(p.t) <= 2:
                    try:
                        v = float(-c) / float(k)
                    except (OverflowError, ZeroDivisionError):
                        continue
                    if abs(v) < 1e6 and len(self.reals) < 12:
                        self.reals.add(v)

    def sizes(self, symlo, rnd):
        """assignments of the sizes that reach the compared values"""
        out = []
        base = lambda: {s: rnd.choice([lo, lo + 1, lo + 2]) for s, lo in symlo.items()}
        for p in self.eqs:
            ss = sorted({a.args[0] for m in p.t for a, _ in m if a.kind == "sym" and a.args[0] in symlo})
            if any(a.kind != "sym" or a.args[0] not in symlo for m in p.t for a, _ in m):
                continue
            hit = {}
            for _ in range(60):
                b = base()
                s = rnd.choice(ss)
                for v in list(range(symlo[s], symlo[s] + 7)) + [x + d for x in self.ints for d in (-1, 0, 1) if x + d >= symlo[s]]:
                    b[s] = v
                    w = Env(0, b).poly(p, {})
                    g = (w > 0) - (w < 0)
                    if abs(w) <= 1 and hit.get(g, 0) < 2:
                        hit[g] = hit.get(g, 0) + 1
                        out.append(dict(b))
                if len(hit) == 3 and all(x >= 2 for x in hit.values()):
                    break
        for c in sorted(self.ints)[:12]:
            for s in sorted(symlo):
                for d in (0, 1, 2):
                    if c + d >= symlo[s] and c + d <= 5000:
                        b = {t: rnd.choice([lo, lo + 1]) for t, lo in symlo.items()}
                        b[s] = c + d
                        out.append(b)
        seen, res = set(), []
        for b in out:
            k = tuple(sorted(b.items()))
            if k not in seen:
                seen.add(k)
                res.append(b)
        return res


def guides(*xs):
    g = Guides()
    for x in xs:
        g.visit(x)
    return g
