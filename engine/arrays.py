"""Array contents as chains of symbolic region writes.

A content object is immutable.  Kinds
  zero / const(Poly) / undef / sym(name) / hole(id) : bases
  Layer(prev, add, binders, guard, idx, val)        : for all binder values with
        guard, cell idx := val  (or += val), in any order (writes of one Set
        layer are pairwise disjoint, which is proved when the layer is made)
  Rec(system, j)                                    : j-th array of a loop system
"""
from terms import *
import terms as T

_ids = itertools.count(1)


class Arr:
    __slots__ = ("id", "fv", "unk", "lvl", "conds")
    conds0 = frozenset()

    def _init(self):
        self.id = next(_ids)
        self.conds = frozenset()

    def __repr__(self):
        return self.label()


class Base(Arr):
    __slots__ = ("kind", "name", "sort", "_fa", "key")
    cache = {}

    def __new__(cls, kind, name, sort="r"):
        k = (kind, name, sort)
        o = cls.cache.get(k)
        if o is None:
            o = object.__new__(cls)
            o._init()
            o.kind, o.name, o.sort = kind, name, sort
            o.key = None
            fv = set()
            if kind == "const":
                fv |= name.fv
            if kind == "hole":
                # a pseudo atom standing for the hole, so substitution can find it
                o.key = mk_atom("sym", ("hole%s" % name, ), "h")
                fv.add(o.key)
            o.fv = frozenset(fv)
            o.unk = kind == "unk"
            o.lvl = name.lvl if kind == "const" else 0
            cls.cache[k] = o
        return o

    def label(self):
        return {"const": "const(%s)" % (self.name,), "undef": "undef", "sym": str(self.name), "hole": "hole%s" % self.name, "unk": "?"}[self.kind]

    def read(self, idx):
        if self.kind == "const":
            return self.name
        if self.kind == "undef":
            return ap(mk_atom("el", (self, idx), self.sort))
        if self.kind == "unk":
            return unk("array contents: %s" % (self.name,), self.sort)
        return ap(mk_atom("el", (self, idx), self.sort))

    def subst(self, s):
        if self.kind == "hole":
            r = s.mp.get(self.key)
            return r if r is not None else self
        if self.kind == "const":
            p = s.poly(self.name)
            return self if p is self.name else Base("const", p, self.sort)
        return self


def const_arr(v, sort="r"):
    return Base("const", P(v), sort)


class Layer(Arr):
    __slots__ = ("prev", "add", "binders", "guard", "idx", "val", "mem", "sort")
    cache = {}

    def __new__(cls, prev, add, binders, guard, idx, val):
        # canonical binder names
        key = (prev.id, add, tuple((v.id, n.id) for v, n in binders), guard.id, idx.id, val.id)
        o = cls.cache.get(key)
        if o is not None:
            return o
        o = object.__new__(cls)
        o._init()
        o.prev, o.add, o.binders, o.guard, o.idx, o.val = prev, add, tuple(binders), guard, idx, val
        fv = set(guard.fv | idx.fv | val.fv)
        for v, n in binders:
            fv |= n.fv
        for v, n in binders:
            fv.discard(v)
        o.fv = frozenset(fv | prev.fv)
        o.unk = prev.unk or guard.unk or idx.unk or val.unk
        o.lvl = max(prev.lvl, guard.lvl, idx.lvl, val.lvl) + 1
        o.mem = {}
        o.sort = getattr(prev, "sort", "r")
        cls.cache[key] = o
        return o

    def label(self):
        return "arr%d" % self.id

    def describe(self, depth=0):
        s = self.prev.describe(depth) if isinstance(self.prev, Layer) else [self.prev.label()]
        s.append("  for %s if %s: [%s] %s %s" % (", ".join("%s<%s" % (v, n) for v, n in self.binders), self.guard, self.idx, "+=" if self.add else "=", self.val))
        return s

    def subst(self, s):
        if not (self.fv & s.keys):
            return self
        prev = s.any(self.prev)
        if not (self.guard.fv | self.idx.fv | self.val.fv | frozenset(x for v, n in self.binders for x in n.fv)) & s.keys:
            return Layer(prev, self.add, self.binders, self.guard, self.idx, self.val)
        # binders are globally unique symbols: no capture unless the mapping mentions them
        mp = {v: ap(fresh("l")) for v, n in self.binders}
        if mp:
            inner = T._Sub(mp)
            g, i, va = inner.bool(self.guard), inner.poly(self.idx), inner.poly(self.val)
            bs = [(next(iter(mp[v].t))[0][0], n) for v, n in self.binders]
        else:
            g, i, va, bs = self.guard, self.idx, self.val, list(self.binders)
        nbs = [(v, s.poly(n)) for v, n in bs]
        with with_facts(binder_facts(nbs)):
            g2, i2, v2 = s.bool(g), s.poly(i), s.poly(va)
        if g2 is FALSE:
            return prev
        return Layer(prev, self.add, nbs, g2, i2, v2)

    def read(self, idx):
        f = Ctx.cur
        key = (idx.id, id(f))
        r = self.mem.get(key)
        if r is not None:
            return r[0]
        r = self._read(idx)
        self.mem[key] = (r, f)
        return r

    def _read(self, idx):
        f = Ctx.cur
        if not self.binders:
            c = f.simp(eq(self.idx, idx))
            c = band(c, f.simp(self.guard))
            if c is FALSE:
                return self.prev.read(idx)
            if self.add:
                return self.prev.read(idx) + ite(c, self.val, ZERO)
            if c is TRUE:
                return self.val
            return ite(c, self.val, self.prev.read(idx))
        # quick disjointness: whole region before/after idx
        sol = solve(self.idx, self.binders, idx)
        if sol is None:
            if self.add:
                # indicator form
                with with_facts(binder_facts(self.binders)):
                    body = ind(band(self.guard, eq(self.idx, idx))) * self.val
                for v, n in reversed(self.binders):
                    body = mk_sum(v, n, body)
                return self.prev.read(idx) + body
            return ap(mk_atom("el", (self, idx), self.sort))
        mp, hit, free = sol
        hit = f.simp(hit)
        if hit is FALSE:
            return self.prev.read(idx)
        if free:
            if not self.add:
                # value written does not depend on the free binders?
                fvs = set(v for v, n in free)
                if (self.val.fv | self.guard.fv) & fvs:
                    return ap(mk_atom("el", (self, idx), self.sort))
                for v, n in free:
                    hit = band(hit, f.simp(gt(n, 0)))
                free = []
        ff = f.copy()
        if hit is not TRUE:
            ff.add(hit)
        for v, n in free:
            ff.bound(v, 0, n - 1)
        with with_facts(ff):
            val = subst(self.val, mp)
            g = ff.simp(subst(self.guard, mp))
        if self.add:
            body = val if g is TRUE else ind(g) * val
            for v, n in reversed(free):
                body = mk_sum(v, n, body)
            if hit is not TRUE:
                body = ite(hit, body, ZERO)
            return self.prev.read(idx) + body
        c = band(hit, g)
        if c is TRUE:
            return val
        if c is FALSE:
            return self.prev.read(idx)
        return ite(c, val, self.prev.read(idx))


def binder_facts(binders, base=None):
    f = (base or Ctx.cur).copy()
    for v, n in binders:
        f.bound(v, 0, n - 1)
        f.add_ge(n - 1)
    return f


def linear(p, vs):
    """p = c0 + sum c_v v with c's free of vs; None when not linear"""
    vset = set(vs)
    if not (p.fv & vset):
        return p, {}
    c0 = ZERO
    cs = {}
    for m, c in p.t.items():
        hit = None
        rest = []
        for a, e in m:
            if a in vset:
                if hit is not None or e != 1:
                    return None
                hit = a
            else:
                if a.fv & vset:
                    return None
                rest.append((a, e))
        t = T._mkpoly({tuple(rest): c})
        if hit is None:
            c0 = c0 + t
        else:
            cs[hit] = cs.get(hit, ZERO) + t
    return c0, cs


def solve(f, binders, idx):
    """binder values with f == idx.  returns (mapping, hit condition, free binders)"""
    vs = [v for v, n in binders]
    nn = dict(binders)
    lin = linear(f, vs)
    if lin is None:
        return None
    c0, cs = lin
    free = [(v, n) for v, n in binders if v not in cs]
    # bounds of other binders may mention binders: not supported
    for v, n in binders:
        if n.fv & set(vs):
            return None
    F = binder_facts(binders)
    rem = list(cs)
    r = idx - c0
    mp = {}
    hit = TRUE
    cur = Ctx.cur
    while rem:
        pick = None
        for v in rem:
            others = ZERO
            for w in rem:
                if w is not v:
                    others = others + cs[w] * (nn[w] - 1)
            if all(F.nonneg(cs[w]) for w in rem if w is not v) and F.nonneg(cs[v] - 1) and F.nonneg(cs[v] - 1 - others):
                pick = v
                break
        if pick is None:
            # negative unit stride, single binder
            if len(rem) == 1 and cs[rem[0]].const() in (-1,):
                v = rem[0]
                mp[v] = -r
                hit = band(hit, cur.simp(ge(-r, 0)), cur.simp(lt(-r, nn[v])))
                rem = []
                r = ZERO
                break
            return None
        c = cs[pick]
        if c is ONE:
            q = r
        else:
            if not rem[1:]:
                # exact division needed
                q = idiv(r, c)
            else:
                q = idiv(r, c)
        mp[pick] = q
        hit = band(hit, cur.simp(ge(q, 0)), cur.simp(lt(q, nn[pick])))
        r = r - c * q
        rem.remove(pick)
        # r must be >= 0 for truncating division to be floor: require r >= 0
        if rem or c is not ONE:
            h = cur.simp(ge(r, 0))
            hit = band(hit, h)
    if r is not ZERO:
        hit = band(hit, cur.simp(eq(r, 0)))
    return mp, hit, free


def write_cell(arr, idx, val, guard=TRUE):
    """one-cell assignment"""
    f = Ctx.cur
    old = arr.read(idx)
    if val is old:
        return arr
    # rmw as addition
    if len(old.t) == 1:
        (m, c), = old.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "el":
            d = val - old
            if not mentions(d, m[0][0]):
                return Layer(arr, True, (), guard, idx, d)
    # overwrite of same cell on top
    if isinstance(arr, Layer) and not arr.binders and not arr.add and arr.guard is TRUE and arr.idx is idx and guard is TRUE:
        return Layer(arr.prev, False, (), TRUE, idx, val)
    return Layer(arr, False, (), guard, idx, val)


def mentions(x, atom):
    """does term x contain the given atom"""
    seen = set()

    def go(x):
        if isinstance(x, Poly):
            if x.id in seen:
                return False
            seen.add(x.id)
            return any(go(a) for m in x.t for a, _ in m)
        if isinstance(x, Atom):
            if x is atom:
                return True
            if x.id in seen:
                return False
            seen.add(x.id)
            return any(go(y) for y in x.args if not isinstance(y, (str, int, tuple)))
        if isinstance(x, Bool):
            if x.id in seen:
                return False
            seen.add(x.id)
            return any(go(y) for y in x.args if not isinstance(y, (str, int)))
        if isinstance(x, Layer):
            if ("L", x.id) in seen:
                return False
            seen.add(("L", x.id))
            return go(x.prev) or go(x.guard) or go(x.idx) or go(x.val)
        return False
    return go(x)


def atoms_of(x, pred, out=None, seen=None):
    """all atoms satisfying pred inside x (not descending below hits)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen

    def go(x):
        if isinstance(x, (str, int, tuple)):
            return
        key = (type(x).__name__, x.id)
        if key in seen:
            return
        seen.add(key)
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    go(a)
        elif isinstance(x, Atom):
            if pred(x):
                out.append(x)
                return
            for y in x.args:
                if not isinstance(y, (str, int, tuple)):
                    go(y)
        elif isinstance(x, Bool):
            for y in x.args:
                if not isinstance(y, (str, int)):
                    go(y)
        elif isinstance(x, Layer):
            go(x.prev)
            go(x.guard)
            go(x.idx)
            go(x.val)
        elif hasattr(x, "terms"):
            for y in x.terms():
                go(y)
    go(x)
    return out


def chain(arr):
    """(base, layers oldest first)"""
    ls = []
    while isinstance(arr, Layer):
        ls.append(arr)
        arr = arr.prev
    ls.reverse()
    return arr, ls


def merge_arr(c, a, b):
    """contents equal to a when c holds and to b otherwise"""
    if a is b:
        return a
    ba, la = chain(a)
    bb, lb = chain(b)
    if ba is not bb:
        # different bases: whole-array selection, element-wise
        return Sel(c, a, b)
    i = 0
    while i < len(la) and i < len(lb) and la[i] is lb[i]:
        i += 1
    cur = la[i - 1] if i else ba
    ra, rb = la[i:], lb[i:]
    nc = bnot(c)
    # same-cell writes in both branches
    if len(ra) == 1 and len(rb) == 1 and not ra[0].binders and not rb[0].binders and ra[0].idx is rb[0].idx and ra[0].guard is TRUE and rb[0].guard is TRUE and not ra[0].add and not rb[0].add:
        return Layer(cur, False, (), TRUE, ra[0].idx, ite(c, ra[0].val, rb[0].val))
    for l in ra:
        cur = Layer(cur, l.add, l.binders, band(c, l.guard), l.idx, l.val)
    for l in rb:
        cur = Layer(cur, l.add, l.binders, band(nc, l.guard), l.idx, l.val)
    return cur


class Sel(Arr):
    __slots__ = ("c", "a", "b", "sort")
    cache = {}

    def __new__(cls, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        key = (c.id, a.id, b.id)
        o = cls.cache.get(key)
        if o is None:
            o = object.__new__(cls)
            o._init()
            o.c, o.a, o.b = c, a, b
            o.fv = c.fv | a.fv | b.fv
            o.unk = c.unk or a.unk or b.unk
            o.lvl = max(c.lvl, a.lvl, b.lvl) + 1
            o.sort = getattr(a, "sort", "r")
            cls.cache[key] = o
        return o

    def label(self):
        return "sel%d" % self.id

    def read(self, idx):
        c = Ctx.cur.simp(self.c)
        if c is TRUE:
            return self.a.read(idx)
        if c is FALSE:
            return self.b.read(idx)
        return ite(c, self.a.read(idx), self.b.read(idx))

    def subst(self, s):
        return Sel(s.bool(self.c), s.any(self.a), s.any(self.b))

    def terms(self):
        return [self.c, self.a, self.b]


class System:
    """simultaneous recurrence of a loop that has no closed form here.

    phis   : list of (kind, placeholder) kind in 's' (Poly atom), 'b' (Bool sym), 'a' (hole Base)
    init   : values before the loop
    upd    : values after one iteration (over placeholders and k)
    k, trip: iteration symbol, trip count (Poly) or None
    cond   : Bool over placeholders and k: another iteration is executed (None when trip given)
    post   : condition is tested after the iteration (do-while)
    stop   : Bool: iteration ends the loop early after taking upd_stop
    """
    __slots__ = ("id", "phis", "init", "upd", "k", "trip", "cond", "post", "stop", "fv", "unk", "lvl", "conds", "bound", "loc", "sizes")

    def __init__(self, phis, init, upd, k, trip, cond, post, stop, loc, sizes):
        self.id = next(_ids)
        self.phis, self.init, self.upd, self.k, self.trip, self.cond, self.post, self.stop, self.loc = phis, init, upd, k, trip, cond, post, stop, loc
        self.sizes = sizes
        b = {k}
        for kind, p in phis:
            b |= p.fv if not isinstance(p, Atom) else {p}
        self.bound = frozenset(b)
        fv = set()
        unk = False
        lvl = 0
        for x in list(init) + list(upd) + [trip, cond, stop] + list(sizes):
            if x is not None:
                fv |= x.fv
                unk = unk or x.unk
                lvl = max(lvl, x.lvl)
        for x in init:
            pass
        self.fv = frozenset(fv - self.bound) | frozenset(y for x in init for y in x.fv)
        self.unk = unk
        self.lvl = lvl + 1
        self.conds = frozenset()

    def subst(self, s):
        if not (self.fv & s.keys):
            return self
        mp = {a: v for a, v in s.mp.items() if a not in self.bound}
        s2 = T._Sub(mp)
        g = lambda x: None if x is None else s2.any(x)
        key = (self.id, tuple(sorted((a.id, v.id) for a, v in mp.items() if a in self.fv)))
        r = System.cache.get(key)
        if r is None:
            with with_facts(Facts(Ctx.cur)):
                r = System(self.phis, [s.any(x) for x in self.init], [g(x) for x in self.upd], self.k, g(self.trip), g(self.cond), self.post, g(self.stop), self.loc, [g(x) for x in self.sizes])
            System.cache[key] = r
        return r

    cache = {}

    def terms(self):
        return [x for x in list(self.init) + list(self.upd) + [self.trip, self.cond, self.stop] if x is not None]

    def label(self):
        return "loop@%s" % self.loc

    __repr__ = label


class RecArr(Arr):
    """array j of a loop system after the loop"""
    __slots__ = ("sys", "j", "sort")
    cache = {}

    def __new__(cls, sys, j, sort="r"):
        key = (sys.id, j)
        o = cls.cache.get(key)
        if o is None:
            o = object.__new__(cls)
            o._init()
            o.sys, o.j, o.sort = sys, j, sort
            o.fv, o.unk, o.lvl = sys.fv, sys.unk, sys.lvl + 1
            cls.cache[key] = o
        return o

    def label(self):
        return "%s.%d" % (self.sys.label(), self.j)

    def read(self, idx):
        return ap(mk_atom("el", (self, idx), self.sort))

    def subst(self, s):
        n = self.sys.subst(s)
        return self if n is self.sys else RecArr(n, self.j, self.sort)

    def terms(self):
        return self.sys.terms()


def rec_atom(sys, j, sort):
    return ap(mk_atom("rec", (sys, j), sort))


def rec_bool(sys, j):
    return T._mkbool("recb", (sys, j))


# ------------------------------------------------------------------ binder splitting
def poly_div_exact(p, q):
    if q is ONE:
        return p
    a, r = T._split_by(p, q)
    return a if r is ZERO else None


def div_strides(k, terms):
    """poly strides s of div(k, s) atoms in the terms"""
    ka = ap(k)
    hits = []
    seen = set()
    for t in terms:
        hits += atoms_of(t, lambda a: a.kind == "div" and k in a.fv, seen=seen)
    out = []
    for a in hits:
        x, d = a.args
        if x is not ka or k in d.fv:
            return None
        if d not in out:
            out.append(d)
    return out


def split_binder(k, n, terms):
    """replace k in [0,n) by mixed-radix digits that remove every div(k, s).
    returns (binders, mapping) or None"""
    ss = div_strides(k, terms)
    if not ss:
        return None
    ss = [ONE] + ss
    # order by divisibility
    order = []
    rem = list(ss)
    while rem:
        pick = None
        for s in rem:
            if all(o is s or poly_div_exact(o, s) is not None for o in rem):
                pick = s
                break
        if pick is None:
            return None
        order.append(pick)
        rem.remove(pick)
    radii = []
    for i, s in enumerate(order):
        nxt = order[i + 1] if i + 1 < len(order) else n
        q = poly_div_exact(nxt, s)
        if q is None:
            return None
        radii.append(q)
    bs = []
    kk = ZERO
    for s, r in zip(order, radii):
        d = fresh("d")
        bs.append((d, r))
        kk = kk + s * ap(d)
    bs.reverse()
    f = binder_facts(bs)
    with with_facts(f):
        out = [subst(t, {k: kk}) for t in terms]
    for t in out:
        if atoms_of(t, lambda a: a.kind == "div" and any(d in a.fv for d, _ in bs)):
            return None
    return bs, kk, out
