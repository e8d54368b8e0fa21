"""Value-number terms of the static analysis.

A numeric value is a polynomial (Poly) over hash-consed atoms with rational
coefficients; a truth value is a Bool term.  Both are interned, so syntactic
equality after normalisation is object identity.

Atom kinds (kind, args):
  sym  (name, sort)            symbolic integer / real / bool-free scalar input
  inf  ()                      +infinity
  el   (Arr, Poly)             element of an array value
  fn   (name, Poly...)         uninterpreted or elementary function
  ite  (Bool, Poly, Poly)      conditional value
  ind  (Bool)                  0/1
  div / mod (Poly, Poly)       C++ integer division / remainder
  pa   (Poly)                  a polynomial used as a base of a power
  sum  (bv, Poly n, Poly body) sum over bv in [0,n)
  max  (bv, Poly n, Poly body) maximum over bv in [0,n)
  amax (bv, Poly n, Poly body) first bv attaining the maximum
  unk  (id, why)               a value the analysis does not know
"""
from fractions import Fraction
import itertools
import random

_counter = itertools.count(1)
_atoms = {}
_EMPTY = frozenset()


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "fv", "unk", "conds", "depth", "lvl", "_p", "size")

    def __repr__(self):
        return atom_str(self)

    def __lt__(self, o):
        return self.id < o.id


def _fv_of(x):
    if isinstance(x, Poly):
        return x.fv
    if isinstance(x, Bool):
        return x.fv
    if isinstance(x, Atom):
        return x.fv
    if hasattr(x, "fv"):
        return x.fv
    return _EMPTY


def _unk_of(x):
    return getattr(x, "unk", False) if not isinstance(x, (str, int, tuple)) else False


def _lvl_of(x):
    return getattr(x, "lvl", 0) if not isinstance(x, (str, int, tuple)) else 0


_NOC = frozenset()


def _conds_of(x):
    return getattr(x, "conds", _NOC) if not isinstance(x, (str, int, tuple)) else _NOC


def mk_atom(kind, args, sort):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = next(_counter)
    a.kind = kind
    a.args = args
    a.sort = sort
    a._p = None
    if kind in ("sym", "bv"):
        a.fv = frozenset([a])
        a.unk = False
        a.conds = _NOC
        a.lvl = 0
    else:
        fv = set()
        unk = kind == "unk"
        conds = set()
        lvl = 0
        for x in args:
            fv |= _fv_of(x)
            unk = unk or _unk_of(x)
            conds |= _conds_of(x)
            lvl = max(lvl, _lvl_of(x))
        if kind in ("sum", "max", "amax", "lamax"):
            fv.discard(args[0])
            lvl += 1
        a.fv = frozenset(fv)
        a.unk = unk
        a.conds = frozenset(conds)
        a.lvl = lvl
    _atoms[key] = a
    return a


# ------------------------------------------------------------------ Poly
_polys = {}


class Poly:
    __slots__ = ("t", "_h", "_fv", "_unk", "_conds", "_lvl", "_int", "_key", "id")

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(a.unk for m in self.t for a, _ in m)
        return self._unk

    @property
    def conds(self):
        if self._conds is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.conds
            self._conds = frozenset(s)
        return self._conds

    @property
    def lvl(self):
        if self._lvl is None:
            self._lvl = max([a.lvl for m in self.t for a, _ in m], default=0)
        return self._lvl

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0) if self.is_const() else None

    def is_int(self):
        if self._int is None:
            ok = True
            for m, c in self.t.items():
                if isinstance(c, Fraction) and c.denominator != 1:
                    ok = False
                    break
                for a, e in m:
                    if a.sort != "i" or not isinstance(e, int) or e < 0:
                        ok = False
                        break
                if not ok:
                    break
            self._int = ok
        return self._int

    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return _mkpoly(t)

    __radd__ = __add__

    def __neg__(self):
        return _mkpoly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if self is ZERO or o is ZERO:
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        if len(self.t) * len(o.t) > 4000:
            # keep factored: avoids blow-up
            if len(self.t) > 1 and len(o.t) > 1:
                return _mkpoly({_mono_mul(((mk_pa(self), 1),), ((mk_pa(o), 1),)): 1}) if self is not o else _mkpoly({((mk_pa(self), 2),): 1})
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                if isinstance(m, tuple):
                    v = t.get(m, 0) + c
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
                else:
                    extra = (m * c) if extra is None else extra + m * c
        p = _mkpoly(t)
        if extra is not None:
            p = p + extra
        return p

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def pow(self, n):
        if n == 0:
            return ONE
        if isinstance(n, int) and n > 0:
            r = ONE
            for _ in range(n):
                r = r * self
            return r
        return power(self, n)

    def __repr__(self):
        return poly_str(self)

    def key(self):
        if self._key is None:
            self._key = tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in self.t.items()))
        return self._key


def _norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mkpoly(t):
    for m, c in t.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            t = {m: _norm_c(c) for m, c in t.items()}
            break
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = t
        p._h = hash(key)
        p._fv = p._unk = p._conds = p._lvl = p._int = p._key = None
        p.id = next(_counter)
        _polys[key] = p
    return p


ZERO = _mkpoly({})
ONE = _mkpoly({(): 1})
_constcache = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return ap(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        p = _constcache.get(x)
        if p is None:
            p = _mkpoly({(): x}) if x else ZERO
            _constcache[x] = p
        return p
    if isinstance(x, Bool):
        return ind(x)
    raise TypeError("P: %r" % (x,))


def ap(a):
    if a._p is None:
        a._p = _mkpoly({((a, 1),): 1})
    return a._p


def _mono_mul(m1, m2):
    """product of two monomials; returns a mono tuple, or a Poly when a power collapses"""
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    special = None
    while i < len(m1) and j < len(m2):
        a, ea = m1[i]
        b, eb = m2[j]
        if a is b:
            e = ea + eb
            if isinstance(e, Fraction) and e.denominator == 1:
                e = int(e)
            if e:
                if a.kind == "ind":
                    out.append((a, 1))
                elif a.kind == "pa" and isinstance(e, int) and e > 0 and e <= 4:
                    special = special or []
                    special.append((a, e))
                else:
                    out.append((a, e))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    # exp atoms: combine
    ne = 0
    for a, e in out:
        if a.kind == "fn" and a.args[0] == "exp":
            ne += 1
    if ne > 1 or (ne == 1 and any(a.kind == "fn" and a.args[0] == "exp" and e != 1 for a, e in out)):
        arg = ZERO
        rest = []
        for a, e in out:
            if a.kind == "fn" and a.args[0] == "exp":
                arg = arg + a.args[1] * e
            else:
                rest.append((a, e))
        r = _mkpoly({tuple(rest): 1}) * fexp(arg)
        if special:
            for a, e in special:
                for _ in range(e):
                    r = r * a.args[0]
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if c == 1:
                return m
        return r
    if special:
        r = _mkpoly({tuple(out): 1})
        for a, e in special:
            for _ in range(e):
                r = r * a.args[0]
        return r
    return tuple(out)


def fexp(arg):
    arg = P(arg)
    if arg is ZERO:
        return ONE
    # exp(log x * c) for integer c
    if len(arg.t) == 1:
        (m, c), = arg.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "log" and isinstance(c, int):
            return power(m[0][0].args[1], c)
    return ap(mk_atom("fn", ("exp", arg), "r"))


def mk_pa(p):
    return mk_atom("pa", (p,), "i" if p.is_int() else "r")


def content(p):
    """rational content and sign-normalised primitive part"""
    from math import gcd
    num = 0
    den = 1
    for c in p.t.values():
        c = Fraction(c)
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    g = Fraction(num, den)
    return g


def lead(p):
    return max(p.t.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))


def _primitive(p):
    g = content(p)
    if lead(p)[1] < 0:
        g = -g
    return g, p * (1 / g)


def common_mono(p):
    """largest monomial (positive exponents) dividing every term"""
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a in d and (first[a] > 0) == (d[a] > 0):
                first[a] = min(first[a], d[a]) if first[a] > 0 else max(first[a], d[a])
            else:
                del first[a]
        if not first:
            break
    return tuple(sorted(first.items(), key=lambda x: x[0].id))


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


def inv(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            return ap(mk_atom("fn", ("div0",), "r"))
        return P(Fraction(1) / c)
    return power(p, -1)


def power(p, n):
    """p ** n for rational n"""
    p = P(p)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if n == 0:
        return ONE
    if n == 1:
        return p
    if p is ZERO:
        if n > 0:
            return ZERO
        return ap(mk_atom("fn", ("div0",), "r"))
    if isinstance(n, int) and n > 0:
        return p.pow(n)
    if isinstance(n, int):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if True:
                r = P(Fraction(c) ** n)
                mm = []
                ex = ZERO
                for a, e in m:
                    if a.kind == "fn" and a.args[0] == "exp":
                        ex = ex + a.args[1] * (e * n)
                    elif a.kind == "ind":
                        mm.append((mk_pa(ap(a)), n))
                    else:
                        mm.append((a, _norm_c(Fraction(e) * n)))
                r = r * _mkpoly({tuple(sorted(mm, key=lambda x: x[0].id)): 1})
                # positive pa exponents expand
                r = _expand_pa(r)
                if ex is not ZERO:
                    r = r * fexp(ex)
                return r
        cm = common_mono(p)
        if cm and all(not (a.kind == "fn" and a.args[0] == "exp") and a.kind != "ind" for a, e in cm):
            q = p * _mkpoly({mono_inv(cm): 1})
            return power(q, n) * power(_mkpoly({cm: 1}), n)
        g, q = _primitive(p)
        return P(Fraction(g) ** n) * _mkpoly({((mk_pa(q), n),): 1})
    # fractional exponent
    if p.is_const():
        c = Fraction(p.const())
        if c > 0 and n.denominator == 2:
            from math import isqrt
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return P(Fraction(a, b) ** n.numerator)
        return _mkpoly({((mk_pa(p), n),): 1})
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == "pa":
            return _expand_pa(_mkpoly({((m[0][0], _norm_c(Fraction(m[0][1]) * n)),): 1}))
    return _mkpoly({((mk_pa(p), n),): 1})


def _expand_pa(r):
    if len(r.t) == 1:
        (m, c), = r.t.items()
        for a, e in m:
            if a.kind == "pa" and isinstance(e, int) and e > 0:
                rest = _mkpoly({tuple(x for x in m if x[0] is not a): c})
                for _ in range(e):
                    rest = rest * a.args[0]
                return rest
    return r


# ------------------------------------------------------------------ Bool
_bools = {}


class Bool:
    __slots__ = ("kind", "args", "fv", "unk", "conds", "id", "lvl")

    def __repr__(self):
        return bool_str(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("Bool term used as python bool")


def _mkbool(kind, args):
    key = (kind, args)
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.kind = kind
        b.args = args
        fv = set()
        unk = kind == "unk"
        conds = set()
        lvl = 0
        for x in (args if not isinstance(args, frozenset) else list(args)):
            fv |= _fv_of(x)
            unk = unk or _unk_of(x)
            conds |= _conds_of(x)
            lvl = max(lvl, _lvl_of(x))
        b.id = next(_counter)
        if kind == "exists":
            fv.discard(args[0])
            lvl += 1
        if kind in ("lt", "eq", "sym", "unk", "exists"):
            conds.add(b)
        if kind == "sym":
            fv = {b}
        b.fv = frozenset(fv)
        b.unk = unk
        b.conds = frozenset(conds)
        b.lvl = lvl
        _bools[key] = b
    return b


TRUE = _mkbool("c", (1,))
FALSE = _mkbool("c", (0,))


def B(x):
    if isinstance(x, Bool):
        return x
    return TRUE if x else FALSE


INF = mk_atom("inf", (), "r")


def _inf_sign(p):
    """sign when +-infinity dominates the polynomial, else 0"""
    s = 0
    for m, c in p.t.items():
        for a, e in m:
            if a is INF:
                if len(m) == 1 and e == 1:
                    k = 1 if c > 0 else -1
                    if s and k != s:
                        return 0
                    s = k
                else:
                    return 0
    return s


def lt0(p):
    """p < 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c < 0)
    if INF in p.fv or any(a is INF for m in p.t for a, _ in m):
        s = _inf_sign(p)
        if s:
            return B(s < 0)
    r = _indcase(p, lambda v: v < 0)
    if r is not None:
        return r
    if p.is_int():
        cst = p.t.get((), 0)
        if abs(cst) >= 1 << 62 and all(abs(c) < 1 << 40 for m, c in p.t.items() if m):
            # declared assumption: symbolic sizes stay far below the range of size_t
            return B(cst < 0)
        # tighten: p = g*q + c, p<0  <=>  q < ceil(-c/g)
        cst = p.t.get((), 0)
        q = p - cst
        g = content(q)
        if g != 1:
            q2 = q * (1 / g)
            # g*q2 + c < 0 <=> q2 < -c/g <=> q2 <= ceil(-c/g)-1
            import math
            k = math.ceil(Fraction(-cst) / g)
            p = q2 - k
    else:
        g = content(p)
        if g != 1:
            p = p * (1 / g)
    return _mkbool("lt", (p,))


def _indcase(p, test):
    """truth of test(p) when p is a combination of at most two truth values"""
    if len(p.t) > 3:
        return None
    ats = []
    for m in p.t:
        for a, e in m:
            if a.kind != "ind":
                return None
            if a not in ats:
                ats.append(a)
    if not ats or len(ats) > 2:
        return None

    def go(i, q):
        if i == len(ats):
            return B(test(q.const()))
        x = _replace(q, ats[i], ONE)
        y = _replace(q, ats[i], ZERO)
        return bite(ats[i].args[0], go(i + 1, x), go(i + 1, y))
    return go(0, p)


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c == 0)
    r = _indcase(p, lambda v: v == 0)
    if r is not None:
        return r
    if any(a is INF for m in p.t for a, _ in m):
        return FALSE
    g = content(p)
    if lead(p)[1] < 0:
        g = -g
    p = p * (1 / g)
    if p.is_int() is False and all(a.sort == "i" for m in p.t for a, _ in m):
        cst = p.t.get((), 0)
        if isinstance(cst, Fraction) and (p - cst).is_int():
            return FALSE
    return _mkbool("eq", (p,))


def lt(a, b):
    return lt0(P(a) - P(b))


def le(a, b):
    d = P(a) - P(b)
    if d.is_int():
        return lt0(d - 1)
    return bnot(lt0(-d))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(P(a) - P(b))


def bsym(name):
    return _mkbool("sym", (name,))


def bunk(why):
    return _mkbool("unk", (next(_counter), why))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "lt" and b.args[0].is_int():
        return lt0(-b.args[0] - 1)
    if b.kind == "and":
        return bor(*[bnot(x) for x in b.args])
    if b.kind == "or":
        return band(*[bnot(x) for x in b.args])
    return _mkbool("not", (b,))


def band(*xs):
    out = set()
    for x in xs:
        x = B(x)
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.kind == "and":
            out |= x.args
        else:
            out.add(x)
    if not out:
        return TRUE
    for x in out:
        if bnot(x) in out:
            return FALSE
    if len(out) == 1:
        return next(iter(out))
    # absorption: a & (a|b) = a ; a & (!a|b) = a & b
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.kind == "or":
                if any(y in out for y in x.args):
                    out.discard(x)
                    changed = True
                    continue
                rest = [y for y in x.args if bnot(y) not in out]
                if len(rest) < len(x.args):
                    out.discard(x)
                    n = bor(*rest)
                    if n is FALSE:
                        return FALSE
                    if n is not TRUE:
                        if n.kind == "and":
                            out |= n.args
                        else:
                            out.add(n)
                    changed = True
    if len(out) == 1:
        return next(iter(out))
    return _mkbool("and", frozenset(out))


def bor(*xs):
    out = set()
    for x in xs:
        x = B(x)
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.kind == "or":
            out |= x.args
        else:
            out.add(x)
    if not out:
        return FALSE
    for x in out:
        if bnot(x) in out:
            return TRUE
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.kind == "and":
                if any(y in out for y in x.args):
                    out.discard(x)
                    changed = True
                    continue
                rest = [y for y in x.args if bnot(y) not in out]
                if len(rest) < len(x.args):
                    out.discard(x)
                    n = band(*rest)
                    if n is TRUE:
                        return TRUE
                    if n is not FALSE:
                        if n.kind == "or":
                            out |= n.args
                        else:
                            out.add(n)
                    changed = True
    if len(out) == 1:
        return next(iter(out))
    return _mkbool("or", frozenset(out))


def bite(c, a, b):
    c = B(c)
    a = B(a)
    b = B(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bexists(v, n, body):
    if body is FALSE:
        return FALSE
    if v not in body.fv:
        return band(body, lt0(-P(n)))
    return _mkbool("exists", (v, P(n), body))


def ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.kind == "not":
        return ONE - ind(b.args[0])
    if b.kind == "lt" and b.args[0].is_int():
        n = bnot(b)
        if n.id < b.id:
            return ONE - ap(mk_atom("ind", (n,), "i"))
    return ap(mk_atom("ind", (b,), "i"))


def ite(c, a, b):
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a = P(a)
    b = P(b)
    if a is b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    n = bnot(c)
    if n.kind == c.kind and n.id < c.id and c.kind == "lt":
        return ite(n, b, a)
    cc = c.conds & (a.conds | b.conds)
    if cc and c.kind in ("lt", "eq", "sym"):
        a = assume(a, c, True)
        b = assume(b, c, False)
        if a is b:
            return a
    if c.kind == "eq":
        # (x == y ? f : g) is g when f and g agree there
        d = a - b
        if d is not ZERO and len(c.args[0].t) <= 4:
            q, r = _split_by(d, c.args[0]) if len(c.args[0].t) == 1 else _split_poly(d, c.args[0])
            if r is ZERO:
                return b
    sort = "i" if a.is_int() and b.is_int() else "r"
    return ap(mk_atom("ite", (c, a, b), sort))


def fn(name, *args, sort="r"):
    args = tuple(P(a) if not isinstance(a, (str, Bool)) else a for a in args)
    if name == "exp":
        return fexp(args[0])
    if name == "log" and args[0] is ONE:
        return ZERO
    if name == "log":
        p = args[0]
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "exp":
                return m[0][0].args[1]
    if name == "tanh":
        # (1 - e^-2x)/(1 + e^-2x)
        if args[0] is ZERO:
            return ZERO
    if name == "abs" and args[0].is_const():
        return P(abs(args[0].const()))
    if name == "sqrt":
        return power(args[0], Fraction(1, 2))
    return ap(mk_atom("fn", (name,) + args, sort))


def sym(name, sort="i"):
    return ap(mk_atom("sym", (name,), sort))


def symatom(name, sort="i"):
    return mk_atom("sym", (name,), sort)


_fresh = itertools.count(1)


def fresh(prefix="k", sort="i"):
    return mk_atom("sym", ("%s!%d" % (prefix, next(_fresh)),), sort)


def unk(why, sort="r"):
    return ap(mk_atom("unk", (next(_counter), why), sort))


# ------------------------------------------------------------------ binders
def _bv(level, sort="i"):
    return mk_atom("bv", (level,), sort)


def mk_sum(v, n, body):
    """sum of body for v in [0,n); v a sym atom"""
    n = P(n)
    body = P(body)
    if body is ZERO or n is ZERO:
        return ZERO
    if v not in body.fv:
        return n * body
    if n is ONE:
        return subst(body, {v: ZERO})
    r = ZERO
    for m, c in body.t.items():
        out = tuple(x for x in m if v not in x[0].fv)
        inn = tuple(x for x in m if v in x[0].fv)
        if not inn:
            r = r + n * _mkpoly({m: c})
            continue
        pulled = None
        for i, (a, e) in enumerate(inn):
            if a.kind == "fn" and a.args[0] == "exp":
                rest = _mkpoly({mm: cc for mm, cc in a.args[1].t.items() if not any(v in x[0].fv for x in mm)})
                if rest is not ZERO:
                    pulled = (ONE if pulled is None else pulled) * fexp(rest * e)
                    inn = inn[:i] + ((mk_atom("fn", ("exp", a.args[1] - rest), "r"), e),) + inn[i + 1:]
        if pulled is not None:
            q = ONE
            for a, e in inn:
                q = q * power(ap(a), e)
            r = r + _mkpoly({out: c}) * pulled * mk_sum(v, n, q)
            continue
        sp = _kronecker(v, n, inn)
        if sp is not None:
            r = r + _mkpoly({out: c}) * sp
            continue
        ib = _mkpoly({inn: 1})
        t = None
        if len(inn) == 1 and inn[0][1] == 1 and inn[0][0].kind == "sum":
            t = _merge_sums(v, n, inn[0][0])
        r = r + _mkpoly({out: c}) * (ap(_close("sum", v, n, ib)) if t is None else t)
    return r


def _kronecker(v, n, inn):
    """sum over v<n of (v == t ? x : y): the sum of y, corrected at t"""
    for i, (a, e) in enumerate(inn):
        if a.kind != "ite" or e != 1 or a.args[0].kind != "eq":
            continue
        q = a.args[0].args[0]
        co = q.t.get(((v, 1),))
        if co not in (1, -1):
            continue
        t = (q - ap(v) * co) * (-co)
        if v in t.fv or not t.is_int():
            continue
        f = Ctx.cur
        if f is None or f.nonneg(t) is not True or f.nonneg(n - 1 - t) is not True:
            continue
        rest = ONE
        for j, (b, e2) in enumerate(inn):
            if j != i:
                rest = rest * power(ap(b), e2)
        x, y = a.args[1], a.args[2]
        return mk_sum(v, n, rest * y) + subst(rest * (x - y), {v: t})
    return None


def _merge_sums(v, n, a):
    """sum_{v<n} sum_{w<m} g(m*v + w)  =  sum_{u<n*m} g(u)"""
    b, m, body = a.args
    if v in m.fv or v not in body.fv:
        return None
    u = fresh("u")
    g = subst(body, {b: ap(u) - m * ap(v)})
    if v in g.fv:
        return None
    return mk_sum(u, n * m, g)


def _close(kind, v, n, body, sort=None):
    lvl = max(body.lvl, n.lvl) + 1
    b = _bv(lvl)
    body2 = subst(body, {v: ap(b)})
    if sort is None:
        sort = "i" if body.is_int() else "r"
    a = mk_atom(kind, (b, n, body2), sort)
    return a


def mk_max(v, n, body, kind="max"):
    n = P(n)
    body = P(body)
    if v not in body.fv:
        return body if kind == "max" else ZERO
    if n is ONE:
        return subst(body, {v: ZERO}) if kind == "max" else ZERO
    return ap(_close(kind, v, n, body, sort=("i" if kind in ("amax", "lamax") else None)))


# ------------------------------------------------------------------ substitution
class _Sub:
    """mapping: atom -> Poly, Bool sym -> Bool, arrays (Hole objects) -> arrays"""

    def __init__(self, mp):
        self.mp = mp
        self.keys = frozenset(mp)
        self.mem = {}

    def poly(self, p):
        if not (p.fv & self.keys):
            return p
        r = self.mem.get(p)
        if r is not None:
            return r
        out = None
        keep = {}
        for m, c in p.t.items():
            if not any(a.fv & self.keys for a, _ in m):
                keep[m] = c
                continue
            t = P(c)
            rest = []
            for a, e in m:
                if a.fv & self.keys:
                    v = self.atom(a)
                    t = t * (v.pow(e) if isinstance(e, int) and e > 0 else power(v, e))
                else:
                    rest.append((a, e))
            if rest:
                t = t * _mkpoly({tuple(rest): 1})
            out = t if out is None else out + t
        r = _mkpoly(keep)
        if out is not None:
            r = r + out
        self.mem[p] = r
        return r

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Bool):
            return self.bool(x)
        if isinstance(x, Atom):
            return self.atom(x)
        if hasattr(x, "subst"):
            return x.subst(self)
        return x

    def atom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return P(r)
        if not (a.fv & self.keys):
            return ap(a)
        r = self.mem.get(a)
        if r is not None:
            return r
        k = a.kind
        if k in ("sum", "max", "amax", "lamax"):
            b, n, body = a.args
            f = fresh("o")
            body = subst(body, {b: ap(f)})
            nb = self.poly(body)
            nn = self.poly(n)
            r = mk_sum(f, nn, nb) if k == "sum" else mk_max(f, nn, nb, k)
        elif k == "ite":
            c, x, y = a.args
            c2 = self.bool(c)
            if c2 is TRUE:
                r = self.poly(x)
            elif c2 is FALSE:
                r = self.poly(y)
            else:
                r = ite(c2, self.poly(x), self.poly(y))
        elif k == "ind":
            r = ind(self.bool(a.args[0]))
        elif k == "fn":
            r = fn(a.args[0], *[self.any(x) for x in a.args[1:]], sort=a.sort)
        elif k == "pa":
            r = self.poly(a.args[0])
        elif k in ("div", "mod"):
            r = (idiv if k == "div" else imod)(self.poly(a.args[0]), self.poly(a.args[1]))
        elif k == "el":
            arr, idx = a.args
            r = arr_read(self.any(arr), self.poly(idx))
        else:
            r = ap(mk_atom(k, tuple(self.any(x) for x in a.args), a.sort))
        self.mem[a] = r
        return r

    def bool(self, b):
        r = self.mp.get(b)
        if r is not None:
            return r
        if not (b.fv & self.keys):
            return b
        r = self.mem.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "lt":
            r = lt0(self.poly(b.args[0]))
            r = _dec(r)
        elif k == "eq":
            r = _dec(eq0(self.poly(b.args[0])))
        elif k == "not":
            r = bnot(self.bool(b.args[0]))
        elif k == "and":
            r = band(*[self.bool(x) for x in b.args])
        elif k == "or":
            r = bor(*[self.bool(x) for x in b.args])
        elif k == "exists":
            v, n, body = b.args
            f = fresh("o")
            r = bexists(f, self.poly(n), self.bool(subst(body, {v: ap(f)})))
        elif k == "recb":
            r = _mkbool("recb", (self.any(b.args[0]), b.args[1]))
        elif k == "selb":
            r = _mkbool("selb", tuple(self.any(x) for x in b.args))
        else:
            r = b
        self.mem[b] = r
        return r


def subst(x, mp):
    if not mp:
        return x
    if not (_fv_of(x) & frozenset(mp)):
        return x
    return _Sub(mp).any(x)


class _Assume(_Sub):
    def __init__(self, cond, val):
        self.cond = cond
        self.neg = bnot(cond)
        self.val = val
        self.mem = {}

    def _hit(self, x):
        return self.cond in x.conds or self.neg in x.conds

    def poly(self, p):
        if not self._hit(p):
            return p
        r = self.mem.get(p)
        if r is not None:
            return r
        out = ZERO
        for m, c in p.t.items():
            t = P(c)
            for a, e in m:
                v = self.atom(a)
                t = t * (v.pow(e) if isinstance(e, int) and e > 0 else power(v, e))
            out = out + t
        self.mem[p] = out
        return out

    def atom(self, a):
        if not self._hit(a):
            return ap(a)
        r = self.mem.get(a)
        if r is not None:
            return r
        if a.kind in ("sum", "max", "amax", "lamax", "el", "pa"):
            r = ap(a)
        elif a.kind == "ite":
            r = ite(self.bool(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        elif a.kind == "ind":
            r = ind(self.bool(a.args[0]))
        elif a.kind == "fn":
            r = fn(a.args[0], *[self.any(x) for x in a.args[1:]], sort=a.sort)
        elif a.kind in ("div", "mod"):
            r = (idiv if a.kind == "div" else imod)(self.poly(a.args[0]), self.poly(a.args[1]))
        else:
            r = ap(a)
        self.mem[a] = r
        return r

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Bool):
            return self.bool(x)
        return x

    def bool(self, b):
        if b is self.cond:
            return B(self.val)
        if b is self.neg:
            return B(not self.val)
        if not self._hit(b):
            return b
        r = self.mem.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "not":
            r = bnot(self.bool(b.args[0]))
        elif k == "and":
            r = band(*[self.bool(x) for x in b.args])
        elif k == "or":
            r = bor(*[self.bool(x) for x in b.args])
        elif k == "lt":
            r = lt0(self.poly(b.args[0]))
        elif k == "eq":
            r = eq0(self.poly(b.args[0]))
        else:
            r = b
        self.mem[b] = r
        return r


def assume(x, cond, val):
    """simplify x knowing the truth value of an atomic condition"""
    if cond.kind == "not":
        cond, val = cond.args[0], not val
    return _Assume(cond, val).any(x)


def assume_all(x, conds):
    for c, v in conds:
        x = assume(x, c, v)
    return x


# hooks filled by other modules
def arr_read(arr, idx):
    return arr.read(idx)


class Ctx:
    """integer facts used to decide comparisons: a list of polys known >= 0,
    plus per-symbol lower/upper bounds"""
    cur = None


_fuel = [0]
FUEL = 300


class _NoVal(Exception):
    pass


def _pe(p, pt):
    """value of an integer polynomial at a point"""
    r = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = pt.get(a)
            if x is None:
                if a.kind not in ("div", "mod"):
                    raise _NoVal()
                n, d = _pe(a.args[0], pt), _pe(a.args[1], pt)
                if d == 0:
                    raise _NoVal()
                x = abs(n) // abs(d)
                if (n < 0) != (d < 0):
                    x = -x
                if a.kind == "mod":
                    x = n - d * x
            if not isinstance(e, int) or e < 0:
                raise _NoVal()
            v = v * (x if e == 1 else x ** e)
        r += v
    return r


_ITE_RANGE = {}


def _ite_range(a):
    """(base, lo, hi): every leaf of the conditional is base + a number between lo and hi"""
    r = _ITE_RANGE.get(a, 0)
    if r != 0:
        return r
    base = lo = hi = None
    todo, seen, r = [a], set(), ()
    while todo and r is not None:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 200:
            r = None
        for y in x.args[1:]:
            it = y.single_atom() if hasattr(y, "single_atom") else _one_atom(y)
            if it is not None and it.kind == "ite":
                todo.append(it)
                continue
            if base is None:
                base, lo, hi = y, 0, 0
                continue
            d = (y - base).const()
            if d is None:
                r = None
                break
            lo, hi = min(lo, d), max(hi, d)
    if r is not None:
        r = (base, lo, hi)
    _ITE_RANGE[a] = r
    return r


def _one_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


class Facts:
    def __init__(self, parent=None):
        self.lo = dict(parent.lo) if parent else {}
        self.hi = dict(parent.hi) if parent else {}
        self.ge = list(parent.ge) if parent else []  # polys >= 0
        self.true = set(parent.true) if parent else set()
        self.mem = {}
        self.pts = None
        self.seeds = (parent.pts[1] if parent.pts else parent.seeds) if parent else ()

    # -- sample points that satisfy the facts, to refute p >= 0 cheaply
    def points(self):
        if self.pts is not None and self.pts[0] == len(self.ge):
            return self.pts[1]
        syms = set()
        bad = set()
        facts = []
        for f in self.ge:
            if all(a.kind in ("sym", "bv", "div", "mod") for m in f.t for a, _ in m):
                facts.append(f)
                syms |= f.fv
            else:
                bad |= f.fv
        for d in (self.lo, self.hi):
            for x, y in d.items():
                syms.add(x)
                syms |= y.fv
        syms = [x for x in syms if x.kind in ("sym", "bv")]
        order = []
        seen = set()

        def visit(x, dep=0):
            if x in seen or dep > 40:
                return
            seen.add(x)
            for d in (self.lo, self.hi):
                b = d.get(x)
                if b is not None:
                    for y in b.fv:
                        visit(y, dep + 1)
            order.append(x)
        for x in sorted(syms, key=lambda x: x.id):
            visit(x)
        out = []

        def ok(pt):
            try:
                return all(_pe(f, pt) >= 0 for f in facts)
            except _NoVal:
                return False

        def extend(pt, mode, rng):
            try:
                for x in order:
                    if x in pt:
                        continue
                    lo, hi = self.lo.get(x), self.hi.get(x)
                    lo = None if lo is None else _pe(lo, pt)
                    hi = None if hi is None else _pe(hi, pt)
                    if lo is None and hi is None:
                        pt[x] = (0, 1, -2, 7, 3)[(mode + x.id) % 5]
                    elif mode == 0 and lo is not None:
                        pt[x] = lo
                    elif mode == 1 and hi is not None:
                        pt[x] = hi
                    elif lo is None:
                        pt[x] = hi - rng.randrange(4)
                    elif hi is None:
                        pt[x] = lo + rng.randrange(6)
                    elif hi < lo:
                        return None
                    else:
                        pt[x] = rng.choice((lo, hi, rng.randint(lo, hi)))
            except (_NoVal, TypeError, ValueError):
                return None
            return pt
        rng = random.Random(7)
        for pt in self.seeds:
            q = extend(dict(pt), len(out), rng)
            if q is not None and self._inbox(q) and ok(q):
                out.append(q)
        for mode in range(24):
            if len(out) >= 6:
                break
            q = extend({}, mode, rng)
            if q is not None and ok(q):
                out.append(q)
        self.pts = (len(self.ge), out, bad)
        return out

    def _inbox(self, pt):
        try:
            for d, s in ((self.lo, 1), (self.hi, -1)):
                for x, b in d.items():
                    if x in pt and s * (pt[x] - _pe(b, pt)) < 0:
                        return False
        except _NoVal:
            return False
        return True

    def refuted(self, p):
        """some assignment satisfying the facts makes p negative"""
        for m in p.t:
            for a, e in m:
                if a.kind not in ("sym", "bv", "div", "mod") or not isinstance(e, int) or e < 0:
                    return False
        pts = self.points()
        if not pts or (self.pts[2] and (p.fv & self.pts[2])):
            return False
        for pt in pts:
            miss = [x for x in p.fv if x not in pt]
            if miss:
                pt = dict(pt)
                for x in miss:
                    pt[x] = (x.id * 7) % 11 - 3
            try:
                if _pe(p, pt) < 0:
                    return True
            except _NoVal:
                return False
        return False

    def copy(self):
        return Facts(self)

    def bound(self, a, lo=None, hi=None):
        if lo is not None:
            self.lo[a] = P(lo)
        if hi is not None:
            self.hi[a] = P(hi)
        self.mem = {}

    def add(self, b):
        """assume Bool b"""
        if b is TRUE:
            return
        if b.kind == "and":
            for x in b.args:
                self.add(x)
            return
        self.true.add(b)
        self.mem = {}
        if b.kind == "lt" and b.args[0].is_int():
            p = -b.args[0] - 1
            self._ge(p)
        elif b.kind == "eq" and b.args[0].is_int():
            self._ge(b.args[0])
            self._ge(-b.args[0])
        elif b.kind == "not" and b.args[0].kind == "lt":
            pass

    def add_ge(self, p):
        if p.is_const():
            return
        self.mem = {}
        self._ge(p)

    def _ge(self, p):
        self.ge.append(p)
        # single symbol bound with unit coefficient: s + c >= 0
        lin = [(m, c) for m, c in p.t.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 and lin[0][0][0][0].kind == "sym":
            a = lin[0][0][0][0]
            c = lin[0][1]
            k = p.t.get((), 0)
            if c == 1:
                b = self.lo.get(a)
                if b is None:
                    self.lo[a] = P(-k)
                elif b.is_const() and b.const() < -k:
                    self.lo[a] = P(-k)
            elif c == -1:
                b = self.hi.get(a)
                if b is None:
                    self.hi[a] = P(k)
                elif b.is_const() and b.const() > k:
                    self.hi[a] = P(k)

    # -- proving p >= 0 for integer polys
    def nonneg(self, p):
        c = p.const()
        if c is not None:
            return c >= 0
        r = self.mem.get(p)
        if r is not None:
            return r
        if self.refuted(p):
            self.mem[p] = False
            return False
        if _fuel[0] > 0:
            r = self._nonneg_ge(p)
            if r:
                self.mem[p] = r
            return r
        _fuel[0] = FUEL
        try:
            r = None
            dg = self._digits(p)
            if dg is not None:
                r = dg[1]._nonneg(dg[0], 0) or None
            if r is None:
                _fuel[0] = FUEL
                r = self._nonneg_ge(p)
        finally:
            _fuel[0] = 0
        self.mem[p] = r
        return r

    def _digits(self, p):
        """mixed-radix rewriting: the quotients x/d1, x/d2, ... (d1 | d2 | ...) and x become digits"""
        groups = {}
        for m in p.t:
            for a, _ in m:
                if a.kind == "div":
                    groups.setdefault(a.args[0], set()).add(a)
        if not groups:
            return None
        f = self.copy()
        mp = {}
        for x, ats in groups.items():
            ds = sorted(ats, key=lambda a: (max(sum(e for _, e in m) for m in a.args[1].t), abs(a.args[1].t.get((), 0)) if a.args[1].is_const() else 0, a.id))
            if any(b.kind == "div" for m in x.t for b, _ in m):
                continue
            ok = all(self._nonneg(a.args[1] - 1, 4) for a in ds) and self._nonneg(x, 2)
            if not ok:
                continue
            rad = []
            prev = ONE
            for a in ds:
                q, r = _split_by(a.args[1], prev)
                if r is not ZERO or q is ONE:
                    ok = False
                    break
                rad.append(q)
                prev = a.args[1]
            if not ok:
                continue
            top = fresh("t")
            hi = self.hi.get(x_sym(x)) if x_sym(x) is not None else None
            bound = None
            if hi is not None:
                q, r = _split_by(hi + 1, prev)
                if r is ZERO:
                    bound = q - 1
            f.bound(top, 0, bound)
            cur = ap(top)
            for a, q in zip(reversed(ds), reversed(rad)):
                mp[a] = cur
                d = fresh("d")
                f.bound(d, 0, q - 1)
                f.ge.append(q - 1)
                cur = cur * q + ap(d)
            if x_sym(x) is not None:
                mp[x_sym(x)] = cur
        if not mp:
            return None
        out = ZERO
        for m, c in p.t.items():
            t = P(c)
            for b, e in m:
                v = mp.get(b)
                v = ap(b) if v is None else v
                if not isinstance(e, int) or e < 0:
                    return None
                t = t * v.pow(e)
            out = out + t
        return out, f

    def _nonneg_ge(self, p):
        r = self._nonneg(p, 0)
        if not r:
            for f in self.ge:
                if f.fv & p.fv or not f.fv:
                    d = p - f
                    c = d.const()
                    if (c is not None and c >= 0) or (c is None and not self.refuted(d) and self._nonneg(d, 0)):
                        r = True
                        break
            if not r and len(self.ge) <= 40:
                for i, f in enumerate(self.ge):
                    if not (f.fv & p.fv):
                        continue
                    for mult in self._mults(p, f):
                        d = p - f * mult
                        c = d.const()
                        if (c is not None and c >= 0) or (c is None and not self.refuted(d) and self._nonneg(d, 0)):
                            r = True
                            break
                    if r:
                        break
            if not r and len(self.ge) <= 16:
                for i, f in enumerate(self.ge):
                    if not (f.fv & p.fv):
                        continue
                    d1 = p - f
                    for g in self.ge[i + 1:]:
                        d = d1 - g
                        c = d.const()
                        if (c is not None and c >= 0) or (c is None and not self.refuted(d) and self._nonneg(d, 1)):
                            r = True
                            break
                    if r:
                        break
        return r

    def _mults(self, p, f):
        """candidate nonnegative multipliers: monomials m such that m*f shares terms with p"""
        out = []
        for m, c in f.t.items():
            if not m:
                continue
            for m2, c2 in p.t.items():
                if c * c2 > 0 and m2 != m:
                    d = dict(m2)
                    ok = True
                    for a, e in m:
                        if d.get(a, 0) >= e:
                            d[a] -= e
                            if not d[a]:
                                del d[a]
                        else:
                            ok = False
                            break
                    if ok and d:
                        q = _mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): 1})
                        if q not in out and self._nonneg(q, 2):
                            out.append(q)
        return out[:4]

    def _nonneg(self, p, depth):
        """p >= 0 by eliminating bounded symbols at their extreme values"""
        c = p.const()
        if c is not None:
            return c >= 0
        if depth > 14 or _fuel[0] <= 1:
            return False
        _fuel[0] -= 1
        # composite atoms: replace by fresh bounded symbols
        for m in p.t:
            for a, e in m:
                if a.kind not in ("sym", "bv"):
                    return self._composite(p, a, depth)
        # choose a symbol having a bound that mentions other symbols, else constant bound
        syms = set(a for m in p.t for a, _ in m)
        cand = []
        for a in syms:
            lo, hi = self.lo.get(a), self.hi.get(a)
            score = 0
            if hi is not None and not hi.is_const():
                score = 3
            elif lo is not None and not lo.is_const():
                score = 3
            elif hi is not None:
                score = 2
            elif lo is not None:
                score = 1
            # symbols that occur in bounds of others must be eliminated later
            dep = any((self.hi.get(b) is not None and a in self.hi[b].fv) or (self.lo.get(b) is not None and a in self.lo[b].fv) for b in syms if b is not a)
            cand.append((dep, -score, a.id, a))
        cand.sort(key=lambda x: x[:3])
        # the shifted-coefficient test: every symbol with a constant lower bound
        if self._shift_ok(p, syms):
            return True
        for dep, ns, _, a in cand:
            lo, hi = self.lo.get(a), self.hi.get(a)
            if lo is None and hi is None:
                continue
            deg = max(e for m in p.t for b, e in m if b is a)
            if not isinstance(deg, int) or deg < 0:
                return False
            if deg == 1:
                # affine in a: coefficient of a
                co = _mkpoly({tuple(x for x in m if x[0] is not a): c for m, c in p.t.items() if any(x[0] is a for x in m)})
                rest = _mkpoly({m: c for m, c in p.t.items() if not any(x[0] is a for x in m)})
                cc = co.const()
                if (cc is not None and cc > 0) or (cc is None and lo is not None and self._nonneg(co, depth + 3)):
                    if lo is None:
                        continue
                    return self._nonneg(rest + co * lo, depth + 1)
                if (cc is not None and cc < 0) or (cc is None and hi is not None and self._nonneg(-co, depth + 3)):
                    if hi is None:
                        continue
                    return self._nonneg(rest + co * hi, depth + 1)
                if lo is not None and hi is not None:
                    return self._nonneg(rest + co * lo, depth + 1) and self._nonneg(rest + co * hi, depth + 1)
                continue
            if hi is not None and not hi.is_const():
                return False
        return False

    def _shift_ok(self, p, syms):
        mp = {}
        for a in syms:
            lo = self.lo.get(a)
            if lo is None or not lo.is_const():
                return False
            mp[a] = lo.const()
        # p(lo + x) has only nonnegative coefficients
        out = {}
        for m, c in p.t.items():
            terms = {(): c}
            for a, e in m:
                if not isinstance(e, int) or e < 0:
                    return False
                for _ in range(e):
                    nt = {}
                    for mm, cc in terms.items():
                        d = dict(mm)
                        d[a] = d.get(a, 0) + 1
                        k = tuple(sorted(d.items(), key=lambda x: x[0].id))
                        nt[k] = nt.get(k, 0) + cc
                        if mp[a]:
                            nt[mm] = nt.get(mm, 0) + cc * mp[a]
                    terms = nt
            for mm, cc in terms.items():
                out[mm] = out.get(mm, 0) + cc
        return all(v >= 0 for v in out.values())

    def _composite(self, p, a, depth):
        if a.kind == "ite" and a.sort == "i":
            rng = _ite_range(a)
            if rng is not None:
                s = fresh("c")
                f = self.copy()
                f.bound(s, 0, rng[2] - rng[1])
                if f._nonneg(_replace(p, a, rng[0] + rng[1] + ap(s)), depth + 1):
                    return True
            c, x, y = a.args
            f1 = self.copy()
            f1.add(c)
            if not f1._nonneg1(_replace(p, a, x), depth + 2):
                return False
            f2 = self.copy()
            f2.add(bnot(c))
            return f2._nonneg1(_replace(p, a, y), depth + 2)
        f = self.copy()
        s = fresh("c")
        if a.kind == "ind":
            f.bound(s, 0, 1)
        elif a.kind == "mod":
            if self.nonneg(a.args[0]) and self.nonneg(a.args[1] - 1):
                f.bound(s, 0, a.args[1] - 1)
        elif a.kind == "div":
            # choose the div with the largest divisor first and relate it to a finer one
            x, d = a.args
            for m in p.t:
                for b, _ in m:
                    if b.kind == "div" and b is not a and b.args[0] is x:
                        q1, r1 = _split_by(b.args[1], d)
                        if r1 is ZERO and q1 is not ONE:
                            a, d = b, b.args[1]
            best = None
            for m in p.t:
                for b, _ in m:
                    if b.kind == "div" and b is not a and b.args[0] is x:
                        q1, r1 = _split_by(d, b.args[1])
                        if r1 is ZERO and q1 is not ONE and (best is None or _split_by(b.args[1], best.args[1])[1] is ZERO):
                            best = b
            co = p.t.get(((a, 1),))
            if co in (1, -1) and self.nonneg(d - 1) and depth < 8:
                rest = p - co * ap(a)
                if not any(b is a for m in rest.t for b, _ in m):
                    if co == -1:
                        if self._nonneg1(d * (rest + 1) - 1 - x, depth + 2):
                            return True
                    elif self.nonneg(x) and self._nonneg1(x + d * rest, depth + 2):
                        return True
            if self.nonneg(x) and self.nonneg(d - 1):
                f.bound(s, 0, None)
                if best is not None:
                    e = _split_by(d, best.args[1])[0]
                    f.ge.append(ap(best) - e * ap(s))
                    f.ge.append(e * ap(s) + e - 1 - ap(best))
                f.ge.append(ap(s) * 1)
                # d*s <= x
                f.ge.append(x - d * ap(s))
                f.ge.append(d * ap(s) + d - 1 - x)
        elif a.kind in ("amax", "lamax"):
            f.bound(s, 0, a.args[1] - 1)
        elif a.kind == "sum":
            fb = self.copy()
            bv = fresh("b")
            fb.bound(bv, 0, a.args[1] - 1)
            if fb.nonneg(subst(a.args[2], {a.args[0]: ap(bv)})):
                f.bound(s, 0, None)
            else:
                return False
        else:
            b = self.atom_bounds(a)
            if b is None:
                return False
            f.bound(s, b[0], b[1])
        return f._nonneg1(_replace(p, a, ap(s)), depth + 1)

    def _nonneg1(self, p, depth):
        if depth > 14:
            return False
        if self._nonneg(p, depth):
            return True
        for g in self.ge[-12:]:
            if g.fv & p.fv:
                d = p - g
                c = d.const()
                if (c is not None and c >= 0) or (c is None and self._nonneg(d, depth + 3)):
                    return True
        return False

    def atom_bounds(self, a):
        if a in self.lo or a in self.hi:
            return (self.lo.get(a), self.hi.get(a))
        if a.kind == "fn" and a.args[0].startswith("byte:"):
            return (ZERO, P(255))
        return None

    def decide(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.true:
            return True
        n = bnot(b)
        if n in self.true:
            return False
        k = b.kind
        if k == "lt":
            p = b.args[0]
            if p.is_int():
                if self.nonneg(-p - 1):
                    return True
                if self.nonneg(p):
                    return False
            elif self.true and (lt0(-p) in self.true or eq0(p) in self.true):
                return False
            return None
        if k == "eq":
            p = b.args[0]
            if p.is_int():
                if self.nonneg(p - 1) or self.nonneg(-p - 1):
                    return False
                if self.nonneg(p) and self.nonneg(-p):
                    return True
            elif self.true and (lt0(p) in self.true or lt0(-p) in self.true):
                return False
            return None
        if k == "not":
            r = self.decide(b.args[0])
            return None if r is None else not r
        if k == "and":
            un = False
            for x in b.args:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        if k == "or":
            un = False
            for x in b.args:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    un = True
            if un and len(b.args) <= 4:
                # (a or b): if assuming not a ... cheap check skipped
                pass
            return None if un else False
        if k == "exists":
            v, n_, body = b.args
            f = self.copy()
            s = fresh("e")
            f.bound(s, 0, n_ - 1)
            f.ge.append(n_ - 1)
            if f.decide(subst(body, {v: ap(s)})) is False:
                return False
            return None
        return None

    def simp(self, b):
        r = self.decide(b)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        if b.kind == "and":
            return band(*[self.simp(x) for x in b.args])
        if b.kind == "or":
            return bor(*[self.simp(x) for x in b.args])
        return b


def x_sym(x):
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("sym", "bv"):
            return m[0][0]
    return None


def _replace(p, a, v):
    out = ZERO
    for m, c in p.t.items():
        t = P(c)
        for b, e in m:
            x = v if b is a else ap(b)
            t = t * (x.pow(e) if isinstance(e, int) and e > 0 else power(x, e))
        out = out + t
    return out


Ctx.cur = Facts()


def facts():
    return Ctx.cur


def _dec(b):
    r = Ctx.cur.decide(b)
    return b if r is None else B(r)


class with_facts:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = Ctx.cur
        Ctx.cur = self.f

    def __exit__(self, *a):
        Ctx.cur = self.old


# ------------------------------------------------------------------ integer division
def _split_by(p, q):
    """p = q*a + r with q a single monomial term; returns (a, r)"""
    if len(q.t) != 1:
        # composite q: exact multiple?
        if p is q:
            return ONE, ZERO
        return _split_poly(p, q)
    (mq, cq), = q.t.items()
    a = {}
    r = {}
    for m, c in p.t.items():
        d = dict(m)
        ok = True
        for x, e in mq:
            if d.get(x, 0) >= e:
                d[x] -= e
                if not d[x]:
                    del d[x]
            else:
                ok = False
                break
        if ok and Fraction(c) % Fraction(cq) == 0:
            k = tuple(sorted(d.items(), key=lambda x: x[0].id))
            a[k] = a.get(k, 0) + Fraction(c) / cq
        else:
            r[m] = c
    return _mkpoly(a), _mkpoly(r)


def _split_poly(p, q):
    """polynomial division by leading term of q, tracking quotient"""
    lm, lc = max(((m, c) for m, c in q.t.items()), key=lambda mc: (sum(e for _, e in mc[0]), tuple((a.id, e) for a, e in mc[0])))
    a = ZERO
    rest = p
    for _ in range(12):
        hit = None
        for m, c in rest.t.items():
            d = dict(m)
            ok = True
            for x, e in lm:
                if d.get(x, 0) >= e:
                    d[x] -= e
                    if not d[x]:
                        del d[x]
                else:
                    ok = False
                    break
            if ok and Fraction(c) % Fraction(lc) == 0:
                hit = _mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): Fraction(c) / lc})
                break
        if hit is None:
            break
        a = a + hit
        rest = rest - hit * q
    return a, rest


def idiv(p, q):
    p = P(p)
    q = P(q)
    cp, cq = p.const(), q.const()
    if cq is not None:
        if cq == 0:
            return unk("division by zero", "i")
        if cp is not None:
            n = abs(cp) // abs(cq)
            return P(n if (cp >= 0) == (cq > 0) else -n)
        if cq == 1:
            return p
    if p is ZERO:
        return ZERO
    if p is q:
        return ONE
    if cp is not None and abs(cp) >= 1 << 62:
        # declared assumption: symbolic sizes stay far below the range of size_t
        return ap(INF) * (1 if cp > 0 else -1)
    f = Ctx.cur
    a, r = _split_by(p, q)
    if r is ZERO:
        return a
    if a is not ZERO:
        if f.nonneg(r):
            if f.nonneg(q - 1 - r):
                return a
            if f.nonneg(p):
                return a + ap(mk_atom("div", (r, q), "i"))
        if r.is_const() and cq is not None and f.nonneg(p):
            k = r.const() // cq
            return idiv_simple(p, q, a + k, r - k * q)
        if f.nonneg(p) and f.nonneg(r + q) and not r.is_const():
            # r in [-q, ...): try a-1
            r2 = r + q
            if f.nonneg(q - 1 - r2):
                return a - 1
    else:
        if f.nonneg(p) and f.nonneg(q - 1 - p):
            return ZERO
    # (x / m) / n = x / (m n)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "div":
            x, d = m[0][0].args
            if f.nonneg(x) and f.nonneg(d) and f.nonneg(q):
                return idiv(x, d * q)
    return ap(mk_atom("div", (p, q), "i"))


def idiv_simple(p, q, a, r):
    if r is ZERO:
        return a
    if Ctx.cur.nonneg(r) and Ctx.cur.nonneg(q - 1 - r):
        return a
    return ap(mk_atom("div", (p, q), "i"))


def imod(p, q):
    """C++ remainder, always written p - q*(p/q)"""
    p = P(p)
    q = P(q)
    cp, cq = p.const(), q.const()
    if cq is not None:
        if cq == 0:
            return unk("modulo by zero", "i")
        if cp is not None:
            r = abs(cp) % abs(cq)
            return P(r if cp >= 0 else -r)
        if cq == 1:
            return ZERO
    if p is ZERO or p is q:
        return ZERO
    f = Ctx.cur
    if f.nonneg(p) and len(p.t) > 1:
        a, r = _split_by(p, q)
        if a is not ZERO and f.nonneg(r):
            p = r
    return p - q * idiv(p, q)


def rebuild(p):
    """the same polynomial simplified again under the current facts"""
    return _Sub({a: ap(a) for a in p.fv if a.kind == "sym"}).poly(p)


# ------------------------------------------------------------------ zero test
def is_zero(p, budget=6):
    """polynomial identity by clearing denominators (PolyAtom powers)"""
    for _ in range(budget):
        if p is ZERO:
            return True
        exps = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "pa":
                    exps.setdefault(a, []).append(e)
        if not exps:
            return False
        progress = False
        for a in exps:
            es = [dict(m).get(a, 0) for m in p.t]
            lo = min(es)
            if lo < 0 or (lo == 0 and any(isinstance(e, int) and e > 0 for e in es)) or lo > 0:
                new = ZERO
                for m, c in p.t.items():
                    d = dict(m)
                    e = d.pop(a, 0) - lo
                    rest = _mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
                    if isinstance(e, Fraction) and e.denominator == 1:
                        e = int(e)
                    if e == 0:
                        t = rest
                    elif isinstance(e, int) or e.denominator == 1:
                        t = rest
                        for _ in range(int(e)):
                            t = t * a.args[0]
                            if len(t.t) > 20000:
                                return False
                    else:
                        fl = int(e)
                        t = rest * _mkpoly({((a, e - fl),): 1})
                        for _ in range(fl):
                            t = t * a.args[0]
                    new = new + t
                    if len(new.t) > 20000:
                        return False
                if new is not p:
                    p = new
                    progress = True
                    break
        if not progress:
            return p is ZERO
    return p is ZERO


# ------------------------------------------------------------------ printing
def atom_str(a, d=0):
    if d > 6:
        return "…"
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k == "bv":
        return "β%s" % a.args[0]
    if k == "inf":
        return "∞"
    if k == "unk":
        return "UNKNOWN(%s)" % (a.args[1],)
    if k == "el":
        return "%s[%s]" % (a.args[0].label(), poly_str(a.args[1], d + 1))
    if k == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(poly_str(x, d + 1) if isinstance(x, Poly) else str(x) for x in a.args[1:]))
    if k == "ite":
        return "(%s ? %s : %s)" % (bool_str(a.args[0], d + 1), poly_str(a.args[1], d + 1), poly_str(a.args[2], d + 1))
    if k == "ind":
        return "[%s]" % bool_str(a.args[0], d + 1)
    if k in ("div", "mod"):
        return "(%s %s %s)" % (poly_str(a.args[0], d + 1), "/" if k == "div" else "%", poly_str(a.args[1], d + 1))
    if k == "pa":
        return "(%s)" % poly_str(a.args[0], d + 1)
    if k in ("sum", "max", "amax", "lamax"):
        return "%s{%s<%s}(%s)" % (k, atom_str(a.args[0]), poly_str(a.args[1], d + 1), poly_str(a.args[2], d + 1))
    return "%s%r" % (k, a.args)


def poly_str(p, d=0):
    if not p.t:
        return "0"
    if d > 6:
        return "…"
    out = []
    for i, (m, c) in enumerate(p.t.items()):
        if i > 12:
            out.append("…")
            break
        fs = []
        if c != 1 or not m:
            if isinstance(c, Fraction) and c.denominator > 1000000:
                fs.append(repr(float(c)))
            else:
                fs.append(str(c))
        for a, e in m:
            fs.append(atom_str(a, d) + ("" if e == 1 else "^%s" % e))
        out.append("*".join(fs))
    return " + ".join(out)


def bool_str(b, d=0):
    k = b.kind
    if d > 6:
        return "…"
    if k == "c":
        return "true" if b.args[0] else "false"
    if k == "lt":
        return poly_str(b.args[0], d + 1) + " < 0"
    if k == "eq":
        return poly_str(b.args[0], d + 1) + " == 0"
    if k == "not":
        return "!(" + bool_str(b.args[0], d + 1) + ")"
    if k == "and":
        return "(" + " && ".join(bool_str(x, d + 1) for x in b.args) + ")"
    if k == "or":
        return "(" + " || ".join(bool_str(x, d + 1) for x in b.args) + ")"
    if k == "exists":
        return "∃%s<%s: %s" % (b.args[0], b.args[1], bool_str(b.args[2], d + 1))
    return "%s%s" % (k, b.args)
