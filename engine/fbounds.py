"""IEEE arithmetic over the operations of a derived value (C11).

In IEEE mode the interpreter keeps every floating-point operation of a result as one
uninterpreted node (f+, f-, f*, f/, f:exp ...).  This module bounds each node by an
interval over the extended reals (infinities included), after splitting on every
comparison the value depends on; differences of two nodes are bounded by the
comparisons taken.  A node whose operands may be inf-inf, 0*inf, 0/0, inf/inf or outside
the domain of a function is a possible NaN.
"""
import itertools
import math
import random
import struct
import terms as T
from terms import P, Poly

MAX = {32: 3.4028234663852886e38, 64: 1.7976931348623157e308}
TINY = {32: 1.401298464324817e-45, 64: 5e-324}
INFY = math.inf
FUNCS = {"exp", "exp2", "expm1", "log", "log1p", "log2", "log10", "sqrt", "cbrt", "tanh", "sinh", "cosh", "sin", "cos", "tan", "atan", "asin", "acos", "erf", "erfc", "asinh", "acosh", "atanh",
         "floor", "ceil", "round", "trunc", "rint", "nearbyint", "lgamma", "tgamma"}


def rnd(x, w=32):
    """nearest value of the format"""
    try:
        x = float(x)
    except OverflowError:
        return INFY if x > 0 else -INFY
    if w == 64 or x != x or math.isinf(x):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return INFY if x > 0 else -INFY


class MayNaN(Exception):
    pass


class Impossible(Exception):
    """no input takes these sides of the comparisons"""


class Unsure(Exception):
    pass


def atoms_of(p, out):
    for m in p.t:
        for a, e in m:
            if a not in out:
                out[a] = None
                for x in a.args:
                    if isinstance(x, Poly):
                        atoms_of(x, out)
                    elif isinstance(x, T.Bool):
                        bool_atoms(x, out)


def bool_atoms(b, out):
    for x in b.args:
        if isinstance(x, Poly):
            atoms_of(x, out)
        elif isinstance(x, T.Bool):
            bool_atoms(x, out)


def single(p):
    """(coefficient, atom) of a one-atom value"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, m[0][0]
    return None


class Leaf:
    """bounds of nodes under decided comparisons"""

    def __init__(self, conds, inputs, w):
        self.w = w
        self.inputs = inputs        # atom -> (lo, hi) or None
        self.memo = {}
        self.fmt = w
        self.up = {}                # (x, y) -> u: x - y <= u; None is zero
        self.nodes = {None}
        for b, v in conds:
            self.learn(b, v)
        self.close()

    def learn(self, b, v):
        if b.kind == "not":
            return self.learn(b.args[0], not v)
        if b.kind == "lt":
            self.diff(b.args[0] if v else -b.args[0], v)
        elif b.kind == "eq" and v:
            self.diff(b.args[0], False)
            self.diff(-b.args[0], False)

    def diff(self, p, strict):
        """p <= 0, or p < 0"""
        ks = {abs(k) for m, k in p.t.items() if m}
        if len(ks) == 1 and ks != {1}:
            p = p * (1 / T.Fraction(ks.pop()))
        pos, neg, c = None, None, 0
        for m, k in p.t.items():
            if not m:
                c = k
                continue
            if len(m) != 1 or m[0][1] != 1:
                return
            if k == 1 and pos is None:
                pos = m[0][0]
            elif k == -1 and neg is None:
                neg = m[0][0]
            else:
                return
        u = -float(c)
        if strict:
            u = math.nextafter(u, -INFY) if self.fmt == 64 else (u - abs(u) * 2 ** -25 if u else -TINY[32])
        self.nodes |= {pos, neg}
        if u < self.up.get((pos, neg), INFY):
            self.up[pos, neg] = u

    def close(self):
        ns = list(self.nodes)
        for k in ns:
            for i in ns:
                for j in ns:
                    a, b = self.up.get((i, k)), self.up.get((k, j))
                    if a is not None and b is not None and a + b < self.up.get((i, j), INFY):
                        self.up[i, j] = a + b
        if any(self.up.get((i, i), 0) < 0 for i in ns):
            raise Impossible()

    def cut(self, a, lo, hi):
        if a in self.nodes:
            u = self.up.get((a, None))
            if u is not None:
                hi = min(hi, u)
            l = self.up.get((None, a))
            if l is not None:
                lo = max(lo, -l)
            if lo > hi:
                raise Impossible()
        return lo, hi

    def poly(self, p):
        c = p.const()
        if c is not None:
            c = rnd(c, 64)      # constants were rounded where they were computed
            return c, c
        s = single(p)
        if s:
            lo, hi = self.atom(s[1])
            if s[0] == 1:
                return lo, hi
            k = float(s[0])
            return self.times((lo, hi), (k, k), p)
        # a combination the interpreter did not keep apart: any order of evaluation
        tot = (0.0, 0.0)
        for m, c in p.t.items():
            v = (float(c), float(c))
            for a, e in m:
                x = self.atom(a)
                if not isinstance(e, int) or e < 1 or e > 8:
                    raise Unsure("power %s" % e)
                for _ in range(e):
                    v = self.times(v, x, p)
            tot = self.plus(tot, v, p)
        return tot

    def out(self, lo, hi):
        lo, hi = rnd(lo, self.w), rnd(hi, self.w)
        return lo, hi

    def nan(self, what, p):
        raise MayNaN("%s in %s" % (what, T.poly_str(p, 3) if isinstance(p, Poly) else T.atom_str(p)))

    def plus(self, a, b, p):
        if (a[0] == -INFY and b[1] == INFY) or (a[1] == INFY and b[0] == -INFY):
            self.nan("inf - inf", p)
        return self.out(a[0] + b[0], a[1] + b[1])

    def times(self, a, b, p):
        for x, y in ((a, b), (b, a)):
            if x[0] <= 0 <= x[1] and (math.isinf(y[0]) or math.isinf(y[1])):
                self.nan("0 * inf", p)
        vs = []
        for x in a:
            for y in b:
                vs.append(0.0 if x == 0 or y == 0 else x * y)
        return self.out(min(vs), max(vs))

    def over(self, a, b, p):
        if a[0] <= 0 <= a[1] and b[0] <= 0 <= b[1]:
            self.nan("0 / 0", p)
        if any(map(math.isinf, a)) and any(map(math.isinf, b)):
            self.nan("inf / inf", p)
        if b[0] < 0 < b[1]:
            return -INFY, INFY
        vs = []
        for x in a:
            for y in b:
                if y == 0:
                    s = 1 if b[1] > 0 else -1
                    if b == (0.0, 0.0):
                        return -INFY, INFY
                    vs.append(math.copysign(INFY, x) * s if x else 0.0)
                elif math.isinf(y):
                    vs.append(0.0)
                else:
                    vs.append(x / y)
        return self.out(min(vs), max(vs))

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self.memo[a] = self.cut(a, *self.atom1(a))
        return r

    def atom1(self, a):
        big = MAX[self.w]
        if a in self.inputs:
            return self.inputs[a]
        if a.sort == "i":
            raise Unsure("whole number %s" % T.atom_str(a))
        if a.kind != "fn":
            raise Unsure("%s" % a.kind)
        n, ps = a.args[0], a.args[1:]
        w = {"f": 32, "d": 64}.get(n[0])
        if w is None or n[1:2] not in "+-*/:":
            raise Unsure("function %s" % n)
        n = "f" + n[1:]
        if n in ("f+", "f-", "f*", "f/"):
            x, y = self.poly(ps[0]), self.poly(ps[1])
            self.w = w
            if n == "f+":
                return self.plus(x, y, a)
            if n == "f-":
                if ps[0] is ps[1] and not any(map(math.isinf, x)):
                    return 0.0, 0.0
                r = self.plus(x, (-y[1], -y[0]), a)
                s, t = single(ps[0]), single(ps[1])
                if s and t and s[0] == 1 == t[0] and s[1] in self.nodes and t[1] in self.nodes:
                    u, l = self.up.get((s[1], t[1])), self.up.get((t[1], s[1]))
                    if u is not None:
                        r = (r[0], min(r[1], rnd(u, self.w)))
                    if l is not None:
                        r = (max(r[0], rnd(-l, self.w)), r[1])
                return r
            if n == "f*":
                if ps[0] is ps[1]:
                    m = max(abs(x[0]), abs(x[1]))
                    l = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
                    return self.out(l * l, m * m)
                return self.times(x, y, a)
            return self.over(x, y, a)
        n = n[2:]
        x = self.poly(ps[0])
        self.w = w
        if n == "narrow":
            return self.out(*x)
        if n == "pow":
            return self.power(x, ps[1], a)
        if n in ("hypot", "fmod"):
            raise Unsure(n)
        dom = {"log": (0.0, INFY), "log2": (0.0, INFY), "log10": (0.0, INFY), "log1p": (-1.0, INFY), "sqrt": (0.0, INFY), "asin": (-1.0, 1.0), "acos": (-1.0, 1.0), "acosh": (1.0, INFY), "atanh": (-1.0, 1.0)}.get(n)
        if dom and not (dom[0] <= x[0] and x[1] <= dom[1]):
            self.nan("argument outside the domain of %s" % n, a)
        if n in ("sin", "cos", "tan"):
            if any(map(math.isinf, x)):
                self.nan("%s(inf)" % n, a)
            return (-1.0, 1.0) if n != "tan" else (-INFY, INFY)
        if n in ("lgamma", "tgamma"):
            raise Unsure(n)
        if n == "cosh":
            m = max(abs(x[0]), abs(x[1]))
            return 1.0, apply1("cosh", m, self.w)
        if n in ("erfc", "acos"):
            return apply1(n, x[1], self.w), apply1(n, x[0], self.w)
        lo, hi = apply1(n, x[0], self.w), apply1(n, x[1], self.w)
        # library functions may be off by a few units in the last place
        def slack(v, d):
            if math.isinf(v) or v in (0.0, 1.0, -1.0):
                return v
            return rnd(v + d * abs(v) * 4 * (2 ** -23 if self.w == 32 else 2 ** -52), self.w)
        lo, hi = slack(lo, -1), slack(hi, 1)
        if n in ("exp", "exp2"):
            lo = max(lo, 0.0)
            if x[1] <= 0:
                hi = min(hi, 1.0)
        if n in ("tanh", "erf"):
            lo, hi = max(lo, -1.0), min(hi, 1.0)
        if n == "expm1":
            lo = max(lo, -1.0)
        return lo, hi

    def power(self, x, y, a):
        c = y.const()
        if c is None:
            if x[0] <= 0:
                raise Unsure("pow")
            return 0.0, INFY
        c = float(c)
        if c != int(c):
            if x[0] < 0:
                self.nan("power of a negative number", a)
            vs = [apply_pow(v, c) for v in x]
            return self.out(min(vs), max(vs))
        vs = [apply_pow(v, c) for v in x]
        if c > 0 and int(c) % 2 == 0:
            return self.out(0.0 if x[0] <= 0 <= x[1] else min(vs), max(vs))
        if c > 0 or x[0] > 0:
            return self.out(min(vs), max(vs))
        return -INFY, INFY


def apply_pow(v, c):
    try:
        return math.pow(v, c)
    except OverflowError:
        return INFY if v > 0 or int(c) % 2 == 0 else -INFY
    except (ValueError, ZeroDivisionError):
        return INFY if v == 0 else math.nan


def apply1(n, x, w):
    try:
        if n == "exp2":
            r = math.pow(2.0, x)
        elif n == "cbrt":
            r = math.copysign(abs(x) ** (1 / 3), x)
        elif n in ("log", "log2", "log10") and x == 0:
            r = -INFY
        elif n == "log1p" and x == -1:
            r = -INFY
        elif n in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
            r = x if math.isinf(x) or x != x else float(getattr(math, n)(x) if n in ("floor", "ceil", "trunc") else round(x))
        elif n in ("log", "log2", "log10", "log1p", "sqrt") and x == INFY:
            r = INFY
        else:
            r = getattr(math, n)(x)
    except OverflowError:
        r = -INFY if n in ("sinh", "expm1") and x < 0 else INFY
    except (ValueError, ZeroDivisionError):
        r = math.nan
    return rnd(r, w)


# ------------------------------------------------------------------ all paths
class Decide(T._Assume):
    """a comparison decided everywhere, also in the index of an element"""

    def atom(self, a):
        if a.kind == "el" and self._hit(a):
            return T.P(a.args[0].read(self.poly(a.args[1]))) if hasattr(a.args[0], "read") else T.ap(a)
        return super().atom(a)


def cells_ok(p, inputs, w, limit=3000):
    """None when no path makes the value NaN, else a description; raises Unsure"""
    n = [0]

    def go(p, conds):
        n[0] += 1
        if n[0] > limit:
            raise Unsure("more than %d combinations of comparisons" % limit)
        if p.conds:
            # the innermost comparison first: it contains no further one
            c = min(p.conds, key=lambda b: (len(b.conds - {b}), b.id))
            for v in (True, False):
                try:
                    Leaf(conds + [(c, v)], inputs, w)
                except Impossible:
                    continue
                r = go(Decide(c, v).poly(p), conds + [(c, v)])
                if r:
                    return r
            return None
        try:
            L = Leaf(conds, inputs, w)
            L.poly(p)
            for c, v in conds:
                # a comparison with NaN is a NaN that a result may not show
                ats = {}
                bool_atoms(c, ats)
                for a in ats:
                    L.atom(a)
        except Impossible:
            return None
        except MayNaN as x:
            return str(x)
        return None
    return go(p, []), n[0]


# ------------------------------------------------------------------ confirmation
class Impure(Exception):
    pass


def value(p, env, w, memo):
    c = p.const()
    if c is not None:
        return rnd(c, 64)
    s = single(p)
    if p.is_int():
        # an index
        return sum(float(c) * math.prod(atom_value(a, env, 64, memo) ** e for a, e in m) for m, c in p.t.items())
    if not s or s[0] not in (1, -1):
        raise Impure()
    v = atom_value(s[1], env, w, memo)
    return v if s[0] == 1 else -v


def atom_value(a, env, w, memo):
    if a in memo:
        return memo[a]
    memo[a] = r = atom_value1(a, env, w, memo)
    return r


def atom_value1(a, env, w, memo):
    if env.given(a):
        return env.number(a)
    if a.kind == "el":
        i = value(a.args[1], env, 64, memo)
        return atom_value(T.P(a.args[0].read(T.P(int(i)))).t and single(T.P(a.args[0].read(T.P(int(i)))))[1], env, w, memo)
    if a.kind == "ite":
        return value(a.args[1] if truth(a.args[0], env, w, memo) else a.args[2], env, w, memo)
    if a.kind == "ind":
        return 1.0 if truth(a.args[0], env, w, memo) else 0.0
    if a.kind != "fn":
        raise Impure()
    n = a.args[0]
    w = {"f": 32, "d": 64}.get(n[0])
    if w is None or n[1:2] not in "+-*/:":
        raise Impure()
    n = "f" + n[1:]
    xs = [value(x, env, w, memo) for x in a.args[1:]]
    if n == "f+":
        return rnd(xs[0] + xs[1], w)
    if n == "f-":
        return rnd(xs[0] - xs[1], w)
    if n == "f*":
        return rnd(xs[0] * xs[1], w)
    if n == "f/":
        x, y = xs
        if y == 0:
            return math.nan if x == 0 or x != x else math.copysign(INFY, x) * math.copysign(1, y)
        return rnd(x / y, w)
    if n.startswith("f:") and n[2:] in FUNCS:
        return apply1(n[2:], xs[0], w) if xs[0] == xs[0] else xs[0]
    if n == "f:narrow":
        return rnd(xs[0], 32)
    if n == "f:pow":
        return rnd(apply_pow(*xs), w)
    if n in ("f:isnan", "f:isinf", "f:isfinite"):
        x = xs[0]
        return float({"f:isnan": x != x, "f:isinf": math.isinf(x), "f:isfinite": x == x and not math.isinf(x)}[n])
    raise Impure()


def truth(b, env, w, memo):
    k = b.kind
    if k == "not":
        return not truth(b.args[0], env, w, memo)
    if k == "and":
        return all(truth(x, env, w, memo) for x in b.args)
    if k == "or":
        return any(truth(x, env, w, memo) for x in b.args)
    if k in ("lt", "eq"):
        l = r = 0.0
        nl = nr = 0
        q = b.args[0]
        ks = {abs(c) for m, c in q.t.items() if m}
        if len(ks) == 1 and ks != {1}:
            q = q * (1 / T.Fraction(ks.pop()))
        for m, c in q.t.items():
            if not m:
                v, neg = abs(rnd(c, 64)), c < 0
            else:
                if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                    raise Impure()
                v, neg = atom_value(m[0][0], env, w, memo), c < 0
            if neg:
                r, nr = v, nr + 1
            else:
                l, nl = v, nl + 1
        if nl > 1 or nr > 1:
            raise Impure()
        return l < r if k == "lt" else l == r
    raise Impure()


class Numbers:
    """finite inputs, chosen when first used"""

    def __init__(self, inputs, w, choose):
        self.inputs, self.w, self.choose, self.v = inputs, w, choose, {}

    def given(self, a):
        return a in self.inputs

    def number(self, a):
        if a not in self.v:
            lo, hi = self.inputs[a]
            self.v[a] = rnd(min(max(self.choose(), lo), hi), self.w)
        return self.v[a]


def witness(p, inputs, w, seed, tries=400):
    """finite inputs for which the value is NaN"""
    big = MAX[w]
    pool = [0.0, 1.0, 0.5, 2.0, 10.0, 40.0, 90.0, 100.0, 800.0, 1e-30, 1e15, 1e20, big / 2, big]
    rng = random.Random(repr(seed))
    vals = sorted(set(pool + [-x for x in pool]))
    for i in range(tries):
        env = Numbers(inputs, w, (lambda: vals[i]) if i < len(vals) else (lambda: rng.choice(vals)))
        try:
            r = value(p, env, w, {})
            if r != r:
                return env.v
        except (Impure, RecursionError):
            return None
    return None
