"""Abstract interpreter over the front end's resolved syntax trees.

One abstract state per program point; branches are joined with conditional
values, loops are summarised by recurrence solving (loops.py).
"""
import json
import sys
from fractions import Fraction
from terms import *
import terms as T
from arrays import *
import arrays as A
import fbounds as FB

sys.setrecursionlimit(200000)


class Dead(Exception):
    """the current path has no continuation"""


class Unsupported(Exception):
    pass


class NeedGlobal(Exception):
    """a variable with static storage is first used deep inside the program: initialise it up front"""


class DynStatic(Exception):
    """a static local variable whose initialiser uses other local variables: (variable, None) asks for its first value, (variable, value) supplies it"""


def pure_value(v):
    """does the value consist of the configuration alone?"""
    if isinstance(v, Poly):
        s = T.poly_str(v, -14)
        return "!" not in s and "\u2026" not in s
    if isinstance(v, T.Bool):
        s = T.bool_str(v, -14)
        return "!" not in s and "\u2026" not in s
    if isinstance(v, OpaqueV):
        return pure_value(v.data)
    if isinstance(v, tuple):
        return all(pure_value(x) for x in v)
    if isinstance(v, RngV):
        return pure_value(v.seed) and pure_value(v.ctr)
    return v is None or isinstance(v, (int, str))


def repr_value(v):
    if isinstance(v, Poly):
        return T.poly_str(v, -14)
    if isinstance(v, T.Bool):
        return T.bool_str(v, -14)
    if isinstance(v, OpaqueV):
        return (v.what, repr_value(v.data))
    if isinstance(v, tuple):
        return tuple(repr_value(x) for x in v)
    if isinstance(v, RngV):
        return (repr_value(v.seed), repr_value(v.ctr))
    return v


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Structural(Exception):
    pass


# ------------------------------------------------------------------ values
class StructV:
    __slots__ = ("rec", "f")

    def __init__(self, rec, f):
        self.rec = rec
        self.f = f

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return StructV(self.rec, f)

    def __repr__(self):
        return "S%s%r" % (self.rec, self.f)


class VecV:
    __slots__ = ("items", "sort")

    def __init__(self, items, sort=None):
        self.items = tuple(items)
        self.sort = sort

    def __repr__(self):
        return "V%r" % (self.items,)


class ArrV:
    __slots__ = ("c", "n", "sort")

    def __init__(self, c, n, sort):
        self.c = c
        self.n = n
        self.sort = sort

    def __repr__(self):
        return "A(%r;%r)" % (self.c, self.n)


class OptV:
    __slots__ = ("has", "val")

    def __init__(self, has, val):
        self.has = has
        self.val = val

    def __repr__(self):
        return "Opt(%r,%r)" % (self.has, self.val)


class TupleV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "T%r" % (self.items,)


class Place:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Place) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def sub(self, s):
        return Place(self.root, self.path + (s,))

    def __repr__(self):
        return "@%s%s" % (self.root, "".join("." + str(x) for x in self.path))


class PtrV:
    """pointer / iterator: to place itself (off None) or to element off of the array at place"""
    __slots__ = ("place", "off", "rev")

    def __init__(self, place, off=None, rev=False):
        self.place = place
        self.off = off
        self.rev = rev

    def __repr__(self):
        return "&%r%s" % (self.place, "" if self.off is None else "+%r" % self.off)


class UPtr:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "U(%r)" % (self.p,)


class MapV:
    __slots__ = ("items",)  # tuple of (key value, root)

    def __init__(self, items=()):
        self.items = tuple(items)


class LambdaV:
    __slots__ = ("op", "caps", "this")

    def __init__(self, op, caps, this):
        self.op = op
        self.caps = caps
        self.this = this


class FnV:
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid


class OpV:
    """library function object"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class OpaqueV:
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return "<%s>" % self.what


class LogV:
    """ordered effect log"""
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)


class RngV:
    __slots__ = ("seed", "ctr")

    def __init__(self, seed, ctr):
        self.seed = seed
        self.ctr = ctr


UNINIT = OpaqueV("uninit")
NULLP = OpaqueV("nullptr")


def byte_ite(p):
    """(condition, byte, constant) when p is the result of reading a character"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            k, x, y = m[0][0].args
            if y.is_const() and len(x.t) <= 2 and any(a.kind == "fn" and a.args[0].startswith("byte:") for n in x.t for a, _ in n):
                return k, x, y
            if x.is_const() and len(y.t) <= 2 and any(a.kind == "fn" and a.args[0].startswith("byte:") for n in y.t for a, _ in n):
                return bnot(k), y, x
    return None


def low_zeros(p):
    """number of low bits that are zero in every value of an integer polynomial"""
    w = 64
    for c in p.t.values():
        if not isinstance(c, int) or not c:
            return 0
        w = min(w, (c & -c).bit_length() - 1)
    return w if p.is_int() else 0


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.files = d["files"]
        self.records = d["records"]
        self.functions = d["functions"]
        self.fnrefs = d["fnrefs"]
        self.globals = d["globals"]
        self.unsupported = d["unsupported"]
        for k, f in self.functions.items():
            f["id"] = int(k)
        for k, f in self.fnrefs.items():
            f["id"] = int(k)
        self.byrec = {}
        for k, f in self.functions.items():
            if "rec" in f:
                self.byrec.setdefault(f["rec"], {}).setdefault(f["name"], []).append(f)
        self.fields = {}
        self.allfields = {}
        for k, r in self.records.items():
            self.fields[int(k)] = r.get("fields") or []

    def rec(self, r):
        return self.records[str(r)]

    def fn(self, fid):
        return self.functions.get(str(fid))

    def ref(self, fid):
        return self.fnrefs[str(fid)]

    def bases(self, r):
        out = []
        for t in self.rec(r).get("bases") or []:
            out.append(self.types[t]["r"])
        return out

    def all_fields(self, r):
        """fields including those of bases"""
        x = self.allfields.get(r)
        if x is None:
            x = []
            for b in self.bases(r):
                x += self.all_fields(b)
            x = x + list(self.fields[r])
            self.allfields[r] = x
        return x

    def find_methods(self, r, name):
        out = list(self.byrec.get(r, {}).get(name, []))
        if not out:
            for b in self.bases(r):
                out += self.find_methods(b, name)
        return out

    def overrider(self, r, mid):
        """final overrider of method mid for dynamic record r"""
        todo = [r]
        while todo:
            c = todo.pop(0)
            for m in self.rec(c).get("methods") or []:
                if m["id"] == mid or self._overrides(m, mid):
                    return m["id"]
            todo += self.bases(c)
        return mid

    def _overrides(self, m, mid, seen=None):
        for o in m.get("over") or []:
            if o == mid:
                return True
            om = self._method(o)
            if om and self._overrides(om, mid):
                return True
        return False

    def _method(self, mid):
        if not hasattr(self, "_mi"):
            self._mi = {}
            for k, r in self.records.items():
                for m in r.get("methods") or []:
                    self._mi[m["id"]] = m
        return self._mi.get(mid)

    def is_derived(self, r, base):
        return r == base or any(self.is_derived(b, base) for b in self.bases(r))

    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        """type without reference"""
        ty = self.types[t]
        if ty["k"] == "ref":
            return ty["to"]
        return t

    def sort(self, t):
        k = self.types[t]["k"]
        return {"bool": "b", "int": "i", "float": "r"}.get(k)

    def recname(self, t):
        ty = self.types[t]
        if ty["k"] == "rec":
            return self.rec(ty["r"])["q"]
        return None

    def tname(self, t):
        if not isinstance(t, int) or t < 0 or t >= len(self.types):
            return "..."
        return self.recname(self.strip(t)) or "?"

    def targs(self, r):
        return self.rec(r).get("targs") or []

    def filename(self, loc):
        """'fileid:line' -> path:line"""
        try:
            i, l = loc.split(":")
            return "%s:%s" % (self.files[int(i)], l)
        except Exception:
            return loc


class Counter:
    __slots__ = ("n",)

    def __init__(self, n=1):
        self.n = n

    def __next__(self):
        n = self.n
        self.n = n + 1
        return n


class Event:
    __slots__ = ("kind", "cond", "facts", "loc", "detail", "binders", "fn", "definite", "chain")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def __repr__(self):
        return "%s@%s[%s] if %s" % (self.kind, self.loc, self.detail, self.cond)


class Region:
    """one execution of a loop marked for parallel execution"""

    def __init__(self, loc, need, depth, shared, excl, clauses):
        self.loc, self.need, self.depth, self.shared, self.excl, self.clauses = loc, need, depth, shared, excl, clauses
        self.ids = []
        self.hdr = 0


class Interp:
    def __init__(self, prog, facts=None):
        self.p = prog
        self.S = {}
        self.pc = ()
        self.facts = facts or Facts()
        Ctx.cur = self.facts
        self.env = {}
        self.this = None
        self.nroot = Counter(1)
        self.events = []
        self.quiet = 0
        self.raw = False         # IEEE mode: floating-point operations are not simplified
        self.loops = []          # enclosing symbolic loops in final pass: (k, T)
        self.binders = []
        self.hoisting = False
        self.temps = []
        self.noexc = 0
        self.catches = None
        self.stack = []
        self.visited = set()
        self.calltree = []
        self.size_branches = 0      # undecided branches that depend on sizes only
        self.sites = {"deref": 0, "discharged": 0, "loops": 0, "calls": 0, "unrolled": 0, "branches": 0, "omp": 0}
        self.loopinfo = []
        self.hooks = {}
        self.names = {}
        self.rets = []
        self.brks = None
        self.conts = None
        self.gl = {}
        self.log_root = self.alloc(LogV())
        self.assumed = {}        # case splits: Bool -> value
        self.omp_depth = None
        self.collapse = 0
        self.omplog = False
        self.region = None
        self.ompguard = 0
        self.guards = 0
        self.iterk = ZERO
        self.maxdepth = 400
        self.retflag = [False]
        self.roots_of_call = []
        import stdlib
        self.std = stdlib.Std(self)
        import loops as L
        self.L = L

    # ---- state
    def alloc(self, v):
        r = next(self.nroot)
        self.S[r] = v
        return r

    def setfacts(self, f):
        self.facts = f
        Ctx.cur = f

    def snap(self):
        return (dict(self.S), self.pc, self.facts)

    def restore(self, s):
        self.S = dict(s[0])
        self.pc = s[1]
        self.setfacts(s[2])

    def where(self, loc):
        return self.p.filename(loc)

    # ---- events
    def event(self, kind, cond, loc, detail="", definite=False):
        if self.quiet:
            return
        self.events.append(Event(kind=kind, cond=band(*(self.pc + (cond,))), facts=self.facts, loc=self.where(loc), detail=detail, binders=tuple(self.binders), fn=self.stack[-1] if self.stack else "", definite=definite, chain=tuple(self.stack[-6:])))

    def check(self, bad, kind, loc, detail=""):
        """record that `bad` would be an error here; afterwards it is assumed false"""
        if not self.quiet:
            self.sites["deref"] += 1
        if bad is FALSE:
            if not self.quiet:
                self.sites["discharged"] += 1
            return
        d = self.facts.decide(bad)
        if d is False:
            if not self.quiet:
                self.sites["discharged"] += 1
            return
        if d is True:
            self.event(kind, TRUE, loc, detail, definite=True)
            raise Dead()
        self.event(kind, bad, loc, detail)
        f = self.facts.copy()
        f.add(bnot(bad))
        self.setfacts(f)

    def do_throw(self, what, loc):
        if self.catches is not None and not self.noexc:
            if self.binders or self.quiet:
                raise Unsupported("exception caught outside the loop that throws it")
            self.catches.append((self.snap(), what, loc))
            raise Dead()
        self.event("terminate" if self.noexc else "throw", TRUE, loc, what, definite=True)
        raise Dead()

    # ---- store access
    def get(self, pl, loc="?"):
        v = self.S.get(pl.root)
        if v is None:
            self.event("dangling", TRUE, loc, "access to destroyed object", definite=True)
            raise Dead()
        for s in pl.path:
            v = self.step(v, s, loc)
        if self.region is not None:
            self.touch("read", pl, v, loc)
        return v

    def touch(self, rw, pl, v, loc):
        """log an access to shared memory in an iteration of a parallel loop"""
        R = self.region
        if self.quiet or self.ompguard or pl.root not in R.shared or pl.root in R.excl:
            return
        if R.hdr:
            if rw == "write":
                R.excl.add(pl.root)
            return
        if not R.ids:
            return
        if rw == "read" and not isinstance(v, (Poly, Bool)) and v is not UNINIT:
            return
        if any(s in ("c", "n", "log") for s in pl.path):
            return
        self.event("omp-access", TRUE, loc, (R, tuple(R.ids), rw, pl.root, tuple(pl.path)))

    def step(self, v, s, loc):
        if isinstance(s, int):
            if not isinstance(v, StructV):
                raise Unsupported("field of %r at %s" % (type(v).__name__, self.where(loc)))
            return v.f[s]
        if s == "o":
            if v.val is None:
                self.check(TRUE, "empty-optional", loc, "value of empty optional")
            if v.has is not TRUE:
                self.check(bnot(v.has), "empty-optional", loc, "value of empty optional")
            return v.val
        if s == "c":
            return v.c
        if s == "n":
            return v.n
        if s == "h":
            return v.has
        if s == "p":
            return v.off
        if s == "seed":
            return v.seed
        if s == "ctr":
            return v.ctr
        if s == "log":
            return v
        k, i = s
        if k == "x":
            return self.elem(v, i, loc)
        if k == "t":
            return v.items[i]
        raise Unsupported("step %r" % (s,))

    def elem(self, v, i, loc):
        if isinstance(v, ArrV):
            self.check(bor(lt0(i), ge(i, v.n)), "oob", loc, "index %s, size %s" % (T.poly_str(i, 3), T.poly_str(v.n, 3)))
            x = v.c.read(i)
            return T.B(ne0(x)) if v.sort == "b" else x
        if isinstance(v, VecV):
            n = len(v.items)
            c = i.const()
            if c is not None:
                if c < 0 or c >= n:
                    self.check(TRUE, "oob", loc, "index %s, size %d" % (c, n))
                return v.items[int(c)]
            self.check(bor(lt0(i), ge(i, n)), "oob", loc, "index %s, size %d" % (T.poly_str(i, 3), n))
            if n == 0:
                raise Dead()
            r = v.items[-1]
            for j in range(n - 2, -1, -1):
                r = self.merge_val(eq(i, j), v.items[j], r, None, None)
            return r
        if isinstance(v, OpaqueV) and v is UNINIT:
            raise Unsupported("element of uninitialised aggregate")
        raise Unsupported("element of %s at %s" % (type(v).__name__, self.where(loc)))

    def put(self, pl, val, loc="?"):
        r = self.S.get(pl.root)
        if r is None:
            self.event("dangling", TRUE, loc, "write to destroyed object", definite=True)
            raise Dead()
        if self.region is not None:
            self.touch("write", pl, val, loc)
        if not pl.path:
            self.S[pl.root] = val
        else:
            self.S[pl.root] = self._put(r, pl.path, 0, val, loc)

    def _put(self, v, path, i, val, loc):
        if i == len(path):
            return val
        s = path[i]
        last = i + 1 == len(path)
        if isinstance(s, int):
            if not isinstance(v, StructV):
                raise Unsupported("store to field of %s at %s" % (type(v).__name__, self.where(loc)))
            return v.set(s, val if last else self._put(v.f.get(s), path, i + 1, val, loc))
        if s == "o":
            if v.has is not TRUE and not last:
                self.check(bnot(v.has), "empty-optional", loc, "value of empty optional")
            return OptV(v.has, val if last else self._put(v.val, path, i + 1, val, loc))
        if s == "c":
            return ArrV(val, v.n, v.sort)
        if s == "n":
            return ArrV(v.c, val, v.sort)
        if s == "h":
            return OptV(val, v.val)
        if s == "p":
            return PtrV(v.place, val, v.rev)
        if s == "seed":
            return RngV(val, v.ctr)
        if s == "ctr":
            return RngV(v.seed, val)
        if s == "log":
            return val
        k, ix = s
        if k == "t":
            its = list(v.items)
            its[ix] = val if last else self._put(its[ix], path, i + 1, val, loc)
            return TupleV(its)
        if isinstance(v, ArrV):
            self.check(bor(lt0(ix), ge(ix, v.n)), "oob", loc, "write index %s, size %s" % (T.poly_str(ix, 3), T.poly_str(v.n, 3)))
            if not last:
                raise Unsupported("nested array element")
            if isinstance(val, Bool):
                val = ind(val)
            if val is UNINIT:
                val = ap(mk_atom("el", (Base("undef", "uninit", v.sort), ZERO), v.sort))
            return ArrV(write_cell(v.c, ix, val), v.n, v.sort)
        if isinstance(v, VecV):
            n = len(v.items)
            c = ix.const()
            its = list(v.items)
            if c is not None:
                if c < 0 or c >= n:
                    self.check(TRUE, "oob", loc, "write index %s, size %d" % (c, n))
                c = int(c)
                its[c] = val if last else self._put(its[c], path, i + 1, val, loc)
                return VecV(its, v.sort)
            self.check(bor(lt0(ix), ge(ix, n)), "oob", loc, "write index %s, size %d" % (T.poly_str(ix, 3), n))
            for j in range(n):
                nv = val if last else self._put(its[j], path, i + 1, val, loc)
                its[j] = self.merge_val(eq(ix, j), nv, its[j], None, None)
            return VecV(its, v.sort)
        raise Unsupported("store to element of %s at %s" % (type(v).__name__, self.where(loc)))

    # ---- pointers
    def deref(self, p, loc):
        """place a pointer designates"""
        if isinstance(p, UPtr):
            p = p.p
        if p is NULLP:
            self.check(TRUE, "null-deref", loc, "null pointer")
        if p is UNINIT:
            self.check(TRUE, "uninit", loc, "uninitialised pointer")
        if isinstance(p, Place):
            return p
        if not isinstance(p, PtrV):
            raise Unsupported("deref of %r at %s" % (type(p).__name__, self.where(loc)))
        if p.off is None:
            return p.place
        return p.place.sub(("x", p.off if not p.rev else p.off - 1))

    def ptr_add(self, p, n, loc):
        if p.off is None:
            if n is ZERO:
                return p
            # pointer to a single object: treat place as element if its last step is an index
            if p.place.path and isinstance(p.place.path[-1], tuple) and p.place.path[-1][0] == "x":
                return PtrV(Place(p.place.root, p.place.path[:-1]), p.place.path[-1][1] + n, p.rev)
            raise Unsupported("arithmetic on object pointer at %s" % self.where(loc))
        return PtrV(p.place, p.off - n if p.rev else p.off + n, p.rev)

    def canon_ptr(self, p):
        """(place, off) canonical form"""
        if isinstance(p, UPtr):
            p = p.p
        if isinstance(p, Place):
            p = PtrV(p)
        if p.off is None and p.place.path and isinstance(p.place.path[-1], tuple) and p.place.path[-1][0] == "x":
            return Place(p.place.root, p.place.path[:-1]), p.place.path[-1][1]
        return p.place, p.off

    def ptr_eq(self, a, b):
        if isinstance(a, UPtr):
            a = a.p
        if isinstance(b, UPtr):
            b = b.p
        if a is NULLP or b is NULLP:
            return T.B((a is NULLP) and (b is NULLP))
        if isinstance(a, (PtrV, Place)) and isinstance(b, (PtrV, Place)):
            pa, oa = self.canon_ptr(a)
            pb, ob = self.canon_ptr(b)
            if pa != pb:
                return FALSE
            if oa is None or ob is None:
                if oa is None and ob is None:
                    return TRUE
                return eq(oa if oa is not None else ZERO, ob if ob is not None else ZERO)
            return eq(oa, ob)
        raise Unsupported("pointer comparison %s %s" % (type(a).__name__, type(b).__name__))

    # ---- joins
    def merge_val(self, c, a, b, SA, SB):
        if a is b:
            return a
        if isinstance(a, Bool) and isinstance(b, Bool):
            return bite(c, a, b)
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            return ite(c, P(a), P(b))
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is StructV and a.rec == b.rec:
                f = {}
                for k in a.f.keys() | b.f.keys():
                    if k not in a.f:
                        f[k] = b.f[k]
                    elif k not in b.f:
                        f[k] = a.f[k]
                    else:
                        x, y = a.f[k], b.f[k]
                        f[k] = x if x is y else self.merge_val(c, x, y, SA, SB)
                return StructV(a.rec, f)
            if ta is VecV and len(a.items) == len(b.items):
                return VecV([x if x is y else self.merge_val(c, x, y, SA, SB) for x, y in zip(a.items, b.items)], a.sort)
            if ta is TupleV and len(a.items) == len(b.items):
                return TupleV([x if x is y else self.merge_val(c, x, y, SA, SB) for x, y in zip(a.items, b.items)])
            if ta is ArrV:
                return ArrV(merge_arr(c, a.c, b.c), ite(c, a.n, b.n), a.sort)
            if ta is OptV:
                if a.has is FALSE:
                    v = b.val
                elif b.has is FALSE:
                    v = a.val
                else:
                    v = self.merge_val(c, a.val, b.val, SA, SB)
                return OptV(bite(c, a.has, b.has), v)
            if ta is PtrV and a.rev == b.rev:
                pa, oa = self.canon_ptr(a)
                pb, ob = self.canon_ptr(b)
                if pa == pb and (oa is None) == (ob is None):
                    return PtrV(pa, None if oa is None else ite(c, oa, ob), a.rev)
                raise Split(c)
            if ta is UPtr:
                if isinstance(a.p, PtrV) and isinstance(b.p, PtrV):
                    if a.p.place == b.p.place:
                        return a
                    ra, rb = a.p.place, b.p.place
                    if SA is not None and not ra.path and not rb.path and ra.root in SA and rb.root in SB:
                        n = next(self.nroot)
                        self.S[n] = self.merge_val(c, SA[ra.root], SB[rb.root], SA, SB)
                        return UPtr(PtrV(Place(n), a.p.off))
                elif a.p is NULLP and b.p is NULLP:
                    return a
                raise Split(c)
            if ta is RngV:
                return RngV(ite(c, a.seed, b.seed), ite(c, a.ctr, b.ctr))
            if ta is OpaqueV:
                if a.what == b.what:
                    return a if a.data == b.data else OpaqueV(a.what, None)
            if ta is LambdaV and a.op == b.op and a.this == b.this:
                caps = {}
                for k in a.caps:
                    x, y = a.caps[k], b.caps[k]
                    if isinstance(x, Place) or isinstance(y, Place):
                        if x != y:
                            raise Split(c)
                        caps[k] = x
                    else:
                        caps[k] = self.merge_val(c, x, y, SA, SB)
                return LambdaV(a.op, caps, a.this)
            if ta is MapV and len(a.items) == len(b.items) and all(x[1] == y[1] for x, y in zip(a.items, b.items)):
                return a
            if ta is LogV:
                return self.merge_log(c, a, b)
            if ta is Place and a == b:
                return a
        raise Split(c)

    def merge_log(self, c, a, b):
        i = 0
        while i < len(a.items) and i < len(b.items) and a.items[i] is b.items[i]:
            i += 1
        ra, rb = a.items[i:], b.items[i:]
        return LogV(a.items[:i] + (("if", c, ra, rb),))

    def merge_states(self, c, sa, sb):
        """sa when c else sb; both (S, pc, facts)"""
        SA, SB = sa[0], sb[0]
        out = {}
        self.S = out
        for r, v in SA.items():
            w = SB.get(r)
            if w is None:
                out[r] = v
            elif w is v:
                out[r] = v
        for r, w in SB.items():
            if r not in SA:
                out[r] = w
        for r, v in SA.items():
            w = SB.get(r)
            if w is not None and w is not v:
                out[r] = self.merge_val(c, v, w, SA, SB)
        return out

    def join(self, pre, sa, sb, c=None, extra=None):
        """join two states that split from pre (S,pc,facts). sets current state.
        extra: list of (va, vb) value pairs to merge, returned"""
        na = pre[1]
        ra = sa[1][len(na):]
        rb = sb[1][len(na):]
        i = 0
        while i < len(ra) and i < len(rb) and ra[i] is rb[i]:
            i += 1
        base = na + ra[:i]
        ra, rb = ra[i:], rb[i:]
        if c is None:
            c = ra[0] if ra else None
            if c is None:
                c = bnot(rb[0]) if rb else TRUE
            elif rb and rb[0] is not bnot(c):
                c = band(*ra)
        S = self.merge_states(c, sa, sb)
        vals = None
        if extra is not None:
            vals = [self.merge_val(c, x, y, sa[0], sb[0]) if x is not None and y is not None else (x if y is None else y) for x, y in extra]
            S = self.S
        full = bor(band(*ra), band(*rb))
        self.S = S
        if full is TRUE:
            self.pc = base
            f = pre[2] if not i else None
            if f is None:
                f = pre[2].copy()
                for x in base[len(na):]:
                    f.add(x)
            self.setfacts(f)
        else:
            self.pc = base + (full,)
            f = pre[2].copy()
            for x in base[len(na):]:
                f.add(x)
            f.add(full)
            self.setfacts(f)
        return vals

    def assume_pc(self, c):
        """enter a path where c holds"""
        if c is TRUE:
            return
        if c is FALSE:
            raise Dead()
        self.pc = self.pc + (c,)
        f = self.facts.copy()
        f.add(c)
        self.setfacts(f)

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = self.facts.decide(c)
        if d is None and self.assumed:
            v = self.assumed.get(c)
            if v is not None:
                return v
        return d

    def branch(self, c, fa, fb, want=False):
        """run fa under c and fb under not c, join.  returns joined value if want"""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        if not self.quiet:
            self.sites["branches"] += 1
        if c.fv and all(getattr(x, "sort", None) == "i" for x in c.fv):
            self.size_branches += 1
        pre = self.snap()
        sa = sb = None
        va = vb = None
        try:
            self.assume_pc(c)
            va = fa()
            sa = self.snap()
        except Dead:
            pass
        self.restore(pre)
        try:
            self.assume_pc(bnot(c))
            vb = fb()
            sb = self.snap()
        except Dead:
            pass
        if sa is None and sb is None:
            raise Dead()
        if sb is None:
            self.restore(sa)
            return va
        if sa is None:
            self.restore(sb)
            return vb
        if want:
            return self.join(pre, sa, sb, c, [(va, vb)])[0]
        self.join(pre, sa, sb, c)
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """rvalue"""
        return getattr(self, "e_" + e[0])(e)

    def lv(self, e):
        """place designated by a glvalue expression"""
        m = getattr(self, "l_" + e[0], None)
        if m is None:
            # prvalue used as glvalue: temporary
            v = self.ev(e)
            if isinstance(v, Place) and self.is_refcall(e):
                return v
            r = self.alloc(v)
            self.temps.append(r)
            return Place(r)
        return m(e)

    def is_refcall(self, e):
        return e[0] in ("call", "icall")

    def discard(self, e):
        k = e[0]
        if k in ("var", "fld", "int", "flt", "str"):
            return
        if hasattr(self, "l_" + k) and k not in ("call", "cond", "cast", "bin", "un", "casg"):
            self.lv(e)
            return
        if k == "cast" and e[3] in ("ToVoid", "NoOp", "LValueToRValue"):
            return self.discard(e[4])
        if k == "bin" and e[3] == "=":
            self.lv(e)
            return
        if k == "bin" and e[3] == ",":
            self.discard(e[4])
            self.discard(e[5])
            return
        if k == "cond":
            c = self.cond(e[3])
            self.branch(c, lambda: self.discard(e[4]), lambda: self.discard(e[5]))
            return
        self.ev(e)

    def cond(self, e):
        v = self.ev(e)
        return self.tobool(v, e[2])

    def tobool(self, v, loc="?"):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Poly):
            return ne0(v)
        if v is NULLP:
            return FALSE
        if isinstance(v, (PtrV, Place)):
            return TRUE
        if isinstance(v, UPtr):
            return self.tobool(v.p, loc)
        if isinstance(v, OptV):
            return v.has
        if v is UNINIT:
            self.check(TRUE, "uninit", loc, "uninitialised value")
        if isinstance(v, OpaqueV):
            if v.what == "stream":
                return self.std.stream_ok(v)
        raise Unsupported("condition of %s at %s" % (type(v).__name__, self.where(loc)))

    def e_int(self, e):
        if self.p.types[e[1]]["k"] == "bool":
            return T.B(e[3] == "1")
        return P(int(e[3]))

    def e_flt(self, e):
        return self.rounded(P(Fraction(e[3])), e[1]) if self.raw else P(Fraction(e[3]))

    def e_str(self, e):
        return OpaqueV("cstr", e[3])

    def l_str(self, e):
        r = self.alloc(OpaqueV("cstr", e[3]))
        self.temps.append(r)
        return Place(r)

    def e_null(self, e):
        return NULLP

    def e_opaque(self, e):
        return OpaqueV("opaque", None)

    l_opaque = None

    def e_this(self, e):
        return PtrV(self.this)

    def e_zero(self, e):
        return self.zero(e[1])

    def zero(self, t):
        ty = self.p.types[t]
        k = ty["k"]
        if k == "bool":
            return FALSE
        if k in ("int", "float"):
            return ZERO
        if k in ("ptr", "nullptr", "memptr"):
            return NULLP
        if k == "rec":
            return self.default_construct(t, "?")
        if k == "arr":
            s = self.p.sort(ty["to"])
            if s:
                return ArrV(const_arr(0, s), P(ty["n"]), s)
            return VecV([self.zero(ty["to"]) for _ in range(ty["n"])])
        return UNINIT

    def e_unsup(self, e):
        raise Unsupported("%s at %s" % (e[3], self.where(e[2])))

    l_unsup = e_unsup

    # variables
    def l_var(self, e):
        vid = e[3]
        pl = self.env.get(vid)
        if pl is not None:
            return pl
        return self.global_place(vid, e)

    def global_place(self, vid, e):
        r = self.gl.get(vid)
        if r is not None:
            if isinstance(r, Place):
                return r
            if r not in self.S:
                raise Unsupported("global initialised on another path")
            return Place(r)
        g = self.p.globals.get(str(vid))
        if g is None:
            raise Unsupported("variable %s at %s" % (e[4], self.where(e[2])))
        if self.stack and not self.hoisting:
            raise NeedGlobal(vid, e)
        if not g["user"]:
            v = OpaqueV("global", g["q"])
            if "ostream" in self.p.types[g["t"]]["s"]:
                v = OpaqueV("ostream")
            r = self.alloc(v)
        elif "init" in g and g["init"] is not None:
            r = self.alloc(UNINIT)
            save = (self.env, self.this)
            self.env, self.this = {}, None
            try:
                self.init_place(Place(r), g["t"], g["init"])
            except Unsupported as x:
                if str(x).startswith("variable ") and vid not in self.dyn:
                    raise DynStatic(vid, None)
                raise
            finally:
                self.env, self.this = save
        else:
            r = self.alloc(self.zero(g["t"]))
        self.gl[vid] = r
        return Place(r)

    def e_var(self, e):
        return self.load(self.l_var(e), e[1], e[2])

    def load(self, pl, t, loc):
        v = self.get(pl, loc)
        if v is UNINIT:
            self.check(TRUE, "uninit", loc, "read of uninitialised value")
        if isinstance(v, Poly) and not self.quiet and len(v.t) == 1:
            (m, c), = v.t.items()
            if len(m) == 1 and m[0][0].kind == "el" and isinstance(m[0][0].args[0], Base) and m[0][0].args[0].kind == "undef":
                self.event("uninit", TRUE, loc, "read of uninitialised array element")
        return v

    # fields
    def l_fld(self, e):
        if e[4]:
            base = self.deref(self.ev(e[3]), e[2])
        else:
            base = self.lv(e[3])
        nm = e[5]
        if str(e[7]) in self.p.records and not self.p.rec(e[7]).get("user"):
            if nm in ("first", "second"):
                return self.resolve_ref(base.sub(("t", 0 if nm == "first" else 1)), e)
            raise Unsupported("library field %s" % nm)
        return self.resolve_ref(base.sub(e[6]), e)

    def resolve_ref(self, pl, e):
        """a reference member designates its referent"""
        v = self.S.get(pl.root)
        if v is None:
            return pl
        for s in pl.path[:-1]:
            v = self.step(v, s, e[2])
        s = pl.path[-1]
        if isinstance(v, StructV):
            if s not in v.f:
                raise Unsupported("field %s missing at %s" % (e[5], self.where(e[2])))
            w = v.f[s]
        elif isinstance(v, TupleV):
            w = v.items[s[1]]
        else:
            raise Unsupported("field %s of %s at %s" % (e[5], type(v).__name__, self.where(e[2])))
        if isinstance(w, Place):
            return w
        return pl

    def e_fld(self, e):
        return self.load(self.l_fld(e), e[1], e[2])

    def e_fnref(self, e):
        return FnV(e[3])

    def l_fnref(self, e):
        r = self.alloc(FnV(e[3]))
        self.temps.append(r)
        return Place(r)

    # subscripts
    def l_idx(self, e):
        b = self.ev(e[3])
        i = self.num(self.ev(e[4]))
        if isinstance(b, Poly):
            b, i = self.ev(e[4]), b
        return self.deref(self.ptr_add(b, i, e[2]) if isinstance(b, PtrV) else b, e[2])

    def e_idx(self, e):
        return self.load(self.l_idx(e), e[1], e[2])

    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            return ind(v)
        raise Unsupported("number expected, got %s" % type(v).__name__)

    # unary
    def e_un(self, e):
        op = e[3]
        if op in ("++", "--"):
            pl = self.lv(e[5])
            old = self.load(pl, e[1], e[2])
            one = ONE if op == "++" else P(-1)
            if isinstance(old, PtrV):
                new = self.ptr_add(old, one, e[2])
            else:
                new = self.wrap(self.num(old) + one, e[1], e[2])
            self.put(pl, new, e[2])
            return old if e[4] else new
        if op == "&":
            pl = self.lv(e[5])
            pr = pl.path
            return PtrV(pl)
        if op == "*":
            return self.load(self.l_un(e), e[1], e[2])
        v = self.ev(e[5])
        if op == "-":
            return -self.num(v)
        if op == "+":
            return v
        if op == "!":
            return bnot(self.tobool(v, e[2]))
        if op == "~":
            return fn("bitnot", self.num(v), sort="i")
        raise Unsupported("unary %s" % op)

    def l_un(self, e):
        op = e[3]
        if op == "*":
            return self.deref(self.ev(e[5]), e[2])
        if op in ("++", "--"):
            pl = self.lv(e[5])
            old = self.load(pl, e[1], e[2])
            one = ONE if op == "++" else P(-1)
            self.put(pl, self.ptr_add(old, one, e[2]) if isinstance(old, PtrV) else self.wrap(self.num(old) + one, e[1], e[2]), e[2])
            return pl
        raise Unsupported("lvalue unary %s" % op)

    def wrap(self, v, t, loc):
        """value of an unsigned expression"""
        ty = self.p.types[t]
        if ty["k"] == "int" and ty["u"]:
            c = v.const()
            if c is not None:
                return P(int(c) % (1 << ty["w"])) if isinstance(c, int) else v
            i = byte_ite(v)
            if i is not None:
                d = self.facts.decide(i[0])
                if d is not None:
                    return self.wrap(i[1] if d else i[2], t, loc)
            if self.quiet == 0 and not self.facts.nonneg(v):
                if self.facts.nonneg(-v - 1):
                    return v + (1 << ty["w"])
                return ite(lt0(v), v + (1 << ty["w"]), v)
        return v

    def e_casg(self, e):
        return self.load(self.l_casg(e), e[1], e[2])

    def l_casg(self, e):
        # rhs is sequenced before lhs
        r = self.ev(e[5])
        pl = self.lv(e[4])
        old = self.load(pl, e[1], e[2])
        if isinstance(old, PtrV):
            n = self.num(r)
            new = self.ptr_add(old, n if e[3] == "+" else -n, e[2])
        else:
            lt_ = e[7]
            ct = e[6]
            a = self.convert(old, e[1], lt_, e[2])
            new = self.arith(e[3], a, r, ct, e[2])
            new = self.convert(new, ct, e[1], e[2])
        self.put(pl, new, e[2])
        return pl

    def to_width(self, v, t):
        """a constant reduced to the range of an integer type"""
        ty = self.p.types[t]
        c = v.const()
        if ty["k"] != "int" or c is None or not isinstance(c, int):
            return v
        c %= 1 << ty["w"]
        return P(c - (1 << ty["w"]) if not ty["u"] and c >> (ty["w"] - 1) else c)

    def convert(self, v, tf, tt, loc):
        kf, kt = self.p.types[tf]["k"], self.p.types[tt]["k"]
        if kf == kt or not isinstance(v, (Poly, Bool)):
            if self.raw and kt == "float":
                if self.p.types[tf]["w"] == 64 and self.p.types[tt]["w"] == 32 and v.const() is None:
                    return fn("f:narrow", v)
                return self.rounded(v, tt)
            if kf == "int" and kt == "int" and isinstance(v, Poly):
                if self.p.types[tt]["u"] and not self.p.types[tf]["u"]:
                    return self.wrap(v, tt, loc)
                return self.to_width(v, tt)
            return v
        if kt == "bool":
            return self.tobool(v, loc)
        if kt == "int" and kf == "float":
            return self.f2i(v)
        if isinstance(v, Bool):
            return ind(v)
        return v

    def f2i(self, v):
        c = v.const()
        if c is not None:
            import math
            return P(int(math.trunc(c)))
        if v.is_int():
            return v
        return fn("trunc", v, sort="i")

    def rounded(self, v, t):
        """IEEE mode: a constant as a value of the type"""
        ty = self.p.types[t]
        c = v.const() if isinstance(v, Poly) else None
        if c is None or ty["k"] != "float":
            return v
        r = FB.rnd(c, ty["w"])
        return P(Fraction(r)) if abs(r) <= FB.MAX[64] else v

    def fop(self, op, a, b, w=32):
        """floating-point operation; in IEEE mode it stays one operation"""
        if self.raw and (op != "*" or (a is not ONE and b is not ONE)):
            ca, cb = a.const(), b.const()
            if ca is None or cb is None or (op == "/" and cb == 0):
                return fn(("f" if w == 32 else "d") + op, a, b)
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
            return P(Fraction(FB.rnd(r.const(), w)))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if b is ZERO:
            return ap(mk_atom("fn", ("div0", a), "r"))
        return a / b

    def arith(self, op, a, b, t, loc):
        k = self.p.types[t]["k"]
        a = self.num(a)
        b = self.num(b)
        if k == "float" and self.raw and op in ("+", "-", "*", "/"):
            return self.fop(op, a, b, self.p.types[t]["w"])
        if op == "+":
            return self.wrap(a + b, t, loc)
        if op == "-":
            return self.wrap(a - b, t, loc)
        if op == "*":
            return self.wrap(a * b, t, loc) if k == "int" else a * b
        if op == "/":
            if k == "int":
                self.check(eq0(b), "div0", loc, "integer division by zero")
                return idiv(a, b)
            if b is ZERO:
                return ap(mk_atom("fn", ("div0", a), "r"))
            return a / b
        if op == "%":
            self.check(eq0(b), "div0", loc, "integer modulo by zero")
            return imod(a, b)
        if op in ("<<", ">>") and b.const() is not None:
            if op == "<<":
                return self.to_width(a * (1 << int(b.const())), t)
            return idiv(a, P(1 << int(b.const())))
        if op in ("&", "|", "^", "<<", ">>"):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                import operator as o
                return P({"&": o.and_, "|": o.or_, "^": o.xor}[op](int(ca), int(cb)))
            if op == "&" and cb is not None and cb >= 0 and (int(cb) & (int(cb) + 1)) == 0 and self.facts.nonneg(a):
                return imod(a, b + 1)
            if op in ("|", "^"):
                for x, y in ((a, b), (b, a)):
                    w = low_zeros(x)
                    if w and self.facts.nonneg(y) and self.facts.nonneg((1 << w) - 1 - y):
                        return x + y
            return fn("bit" + op, a, b, sort="i")
        raise Unsupported("operator %s" % op)

    CMP = {"<", ">", "<=", ">=", "==", "!="}

    def compare(self, op, a, b, loc):
        if isinstance(a, (PtrV, UPtr)) or isinstance(b, (PtrV, UPtr)) or a is NULLP or b is NULLP or isinstance(a, Place):
            if op == "==":
                return self.ptr_eq(a, b)
            if op == "!=":
                return bnot(self.ptr_eq(a, b))
            pa, oa = self.canon_ptr(a)
            pb, ob = self.canon_ptr(b)
            if pa != pb:
                raise Unsupported("ordering of unrelated pointers")
            a, b = (oa, ob) if not a.rev else (ob, oa)
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("==", "!="):
            r = bor(band(a, b), band(bnot(a), bnot(b)))
            return r if op == "==" else bnot(r)
        a = self.num(a)
        b = self.num(b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            i = byte_ite(x)
            if i is not None and y.is_const():
                c, u, v = i
                with with_facts(self.facts):
                    p, q = [self.facts.simp(self.compare1(op, z, y) if not flip else self.compare1(op, y, z)) for z in (u, v)]
                return bor(band(c, p), band(bnot(c), q))
        return self.compare1(op, a, b)

    def compare1(self, op, a, b):
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eq(a, b)
        return bnot(eq(a, b))

    def e_bin(self, e):
        op = e[3]
        if op == "=":
            return self.load(self.l_bin(e), e[1], e[2])
        if op == "&&":
            a = self.cond(e[4])
            return self.shortcut(a, e[5], True)
        if op == "||":
            a = self.cond(e[4])
            return self.shortcut(a, e[5], False)
        if op == ",":
            self.discard(e[4])
            return self.ev(e[5])
        a = self.ev(e[4])
        b = self.ev(e[5])
        if op in self.CMP:
            for x, i in ((a, 4), (b, 5)):
                if x is UNINIT:
                    self.check(TRUE, "uninit", e[2], "uninitialised value")
            return self.compare(op, a, b, e[2])
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if op == "-" and isinstance(b, PtrV):
                pa, oa = self.canon_ptr(a)
                pb, ob = self.canon_ptr(b)
                if pa != pb:
                    raise Unsupported("difference of unrelated pointers")
                d = (oa or ZERO) - (ob or ZERO)
                return -d if a.rev else d
            if isinstance(b, PtrV):
                a, b = b, a
            n = self.num(b)
            return self.ptr_add(a, n if op == "+" else -n, e[2])
        return self.arith(op, a, b, e[1], e[2])

    def shortcut(self, a, eb, isand):
        d = self.decide(a)
        if d is not None:
            if d is isand:
                return self.cond(eb)
            return T.B(not isand)
        pre = self.snap()
        val = None
        try:
            self.assume_pc(a if isand else bnot(a))
            val = self.cond(eb)
            sa = self.snap()
        except Dead:
            sa = None
        if sa is None:
            self.restore(pre)
            self.assume_pc(bnot(a) if isand else a)
            return T.B(not isand)
        changed = any(pre[0].get(r) is not v for r, v in sa[0].items() if r in pre[0]) or sa[1] != pre[1] + (a if isand else bnot(a),)
        if not changed:
            s = self.S
            self.restore(pre)
            self.S = s
            return band(a, val) if isand else bor(a, val)
        sb = (dict(pre[0]), pre[1] + (bnot(a) if isand else a,), pre[2])
        self.join(pre, sa, sb, a if isand else bnot(a))
        return band(a, val) if isand else bor(a, val)

    def l_bin(self, e):
        op = e[3]
        if op == "=":
            r = self.ev(e[5])
            pl = self.lv(e[4])
            self.put(pl, r, e[2])
            return pl
        if op == ",":
            self.discard(e[4])
            return self.lv(e[5])
        raise Unsupported("lvalue binary %s" % op)

    def e_cond(self, e):
        c = self.cond(e[3])
        d = self.decide(c)
        if d is not None:
            return self.ev(e[4] if d else e[5])
        return self.branch(c, lambda: self.ev(e[4]), lambda: self.ev(e[5]), want=True)

    def l_cond(self, e):
        c = self.cond(e[3])
        d = self.decide(c)
        if d is not None:
            return self.lv(e[4] if d else e[5])
        # glvalue conditional on a symbolic condition: materialise the selected value (read-only use)
        ty = self.p.types[e[1]]
        if self.p.sort(e[1]):
            v = self.branch(c, lambda: self.load(self.lv(e[4]), e[1], e[2]), lambda: self.load(self.lv(e[5]), e[1], e[2]), want=True)
            r = self.alloc(v)
            self.temps.append(r)
            return Place(r)
        raise Split(c)

    # casts
    def e_cast(self, e):
        k = e[3]
        s = e[4]
        if k == "LValueToRValue":
            return self.load(self.lv(s), e[1], e[2])
        if k in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "BitCast", "Dependent"):
            return self.ev(s)
        if k in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            return self.ev(s)
        if k == "IntegralCast":
            v = self.ev(s)
            if isinstance(v, Bool):
                return ind(v)
            return self.convert(self.num(v), s[1], e[1], e[2])
        if k in ("IntegralToFloating", "FloatingCast"):
            v = self.num(self.ev(s))
            if self.raw and k == "FloatingCast":
                return self.convert(v, s[1], e[1], e[2])
            return self.rounded(v, e[1]) if self.raw else v
        if k == "FloatingToIntegral":
            return self.f2i(self.num(self.ev(s)))
        if k in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return self.tobool(self.ev(s), e[2])
        if k == "FloatingToBoolean":
            return ne0(self.num(self.ev(s)))
        if k == "ArrayToPointerDecay":
            if s[0] == "str":
                return OpaqueV("cstr", s[3])
            return PtrV(self.lv(s), ZERO)
        if k in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(s)
        if k == "ToVoid":
            self.discard(s)
            return None
        if k == "NullToPointer":
            return NULLP
        if k in ("PointerToIntegral", "IntegralToPointer"):
            return self.ev(s)
        if k == "BooleanToSignedIntegral":
            return ind(self.tobool(self.ev(s)))
        raise Unsupported("cast %s at %s" % (k, self.where(e[2])))

    def l_cast(self, e):
        k = e[3]
        if k in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
            return self.lv(e[4])
        v = self.ev(e)
        if isinstance(v, Place):
            return v
        r = self.alloc(v)
        self.temps.append(r)
        return Place(r)

    def e_mat(self, e):
        return self.load(self.l_mat(e), e[1], e[2])

    def l_mat(self, e):
        r = self.alloc(UNINIT)
        self.temps.append(r)
        self.init_place(Place(r), e[1], e[3])
        return Place(r)

    # construction
    def init_place(self, pl, t, e):
        """initialise the object at pl of type t from prvalue expression e"""
        if e is None:
            return
        while e[0] == "cast" and e[3] in ("NoOp", "ConstructorConversion", "UserDefinedConversion") and self.p.types[e[1]]["k"] == "rec":
            e = e[4]
        if e[0] == "ctor":
            self.construct(pl, e)
            return
        if e[0] == "ilist" and self.p.types[t]["k"] == "rec":
            self.put(pl, self.e_ilist(e))
            return
        self.put(pl, self.ev(e), e[2])

    def e_ctor(self, e):
        r = self.alloc(UNINIT)
        self.construct(Place(r), e)
        v = self.S.pop(r)
        return v

    def construct(self, pl, e):
        fid = e[3]
        ref = self.p.ref(fid)
        args = e[4]
        loc = e[2]
        if not ref["user"]:
            v = self.std.construct(e[1], ref, args, loc, pl)
            if v is not None:
                self.put(pl, v, loc)
            return
        if e[6] and len(args) == 1 and args[0][0] in ("var", "cast", "mat") and ref.get("ctor") in ("move", "copy"):
            src = args[0]
            while src[0] == "cast" and src[3] == "NoOp":
                src = src[4]
            if src[0] == "var" and src[3] in self.env and self.env[src[3]].root in self.owned():
                rt = self.env[src[3]]
                if not rt.path:
                    self.put(pl, self.S[rt.root])
                    self.S[rt.root] = OpaqueV("moved")
                    return
        t = e[1]
        rec = self.p.types[t]["r"]
        f = self.p.fn(fid)
        if f is None:
            if ref.get("ctor") in ("copy", "move") and len(args) == 1:
                src = self.lv(args[0])
                self.put(pl, (self.copy_value if ref["ctor"] == "copy" else self.move_value)(src, t, loc))
                return
            if ref.get("ctor") == "default" or not args:
                self.put(pl, self.blank(rec))
                if e[5]:
                    self.put(pl, self.zero_struct(rec))
                return
            raise Unsupported("constructor %s without body" % ref["q"])
        av = self.args(ref["pt"], args)
        self.run_ctor(pl, rec, f, av, loc, zero=e[5])

    def owned(self):
        return self.roots_of_call[-1] if self.roots_of_call else ()

    def blank(self, rec):
        f = {}
        for x in self.p.all_fields(rec):
            f[x["id"]] = self.blank_value(x["t"])
        return StructV(rec, f)

    def zero_struct(self, rec):
        f = {}
        for x in self.p.all_fields(rec):
            f[x["id"]] = self.zero(x["t"])
        return StructV(rec, f)

    def blank_value(self, t):
        ty = self.p.types[t]
        if ty["k"] == "rec":
            r = self.p.rec(ty["r"])
            if r.get("user"):
                # default member construction
                cs = self.ctors(ty["r"], 0)
                return self.blank(ty["r"]) if not cs else UNINIT
            return UNINIT
        if ty["k"] == "arr":
            s = self.p.sort(ty["to"])
            if s:
                return ArrV(Base("undef", "local%d" % next(A._ids), s), P(ty["n"]), s)
            return VecV([self.blank_value(ty["to"]) for _ in range(ty["n"])])
        return UNINIT

    def ctors_any(self, rec):
        nm = self.p.rec(rec)["name"]
        return [f for f in self.p.byrec.get(rec, {}).get(nm, []) if "inits" in f]

    def ctors(self, rec, n):
        nm = self.p.rec(rec)["name"]
        return [f for f in self.p.byrec.get(rec, {}).get(nm, []) if len(f["params"]) == n]

    def default_construct(self, t, loc):
        ty = self.p.types[t]
        if ty["k"] != "rec":
            return self.zero(t)
        rec = ty["r"]
        if not self.p.rec(rec).get("user"):
            return self.std.default(t, loc)
        cs = self.ctors(rec, 0)
        if cs:
            r = self.alloc(UNINIT)
            self.run_ctor(Place(r), rec, cs[0], [], loc)
            return self.S.pop(r)
        f = {}
        for x in self.p.all_fields(rec):
            f[x["id"]] = self.zero(x["t"]) if self.p.types[x["t"]]["k"] == "rec" else UNINIT
        return StructV(rec, f)

    def run_ctor(self, pl, rec, f, av, loc, zero=False):
        if self.p.types is None:
            return
        cur = self.S.get(pl.root)
        base = None
        # constructing a base subobject keeps the derived fields
        try:
            cur = self.get(pl)
        except Exception:
            cur = None
        if not (isinstance(cur, StructV) and self.p.is_derived(cur.rec, rec) and cur.rec != rec):
            self.put(pl, self.zero_struct(rec) if zero else self.blank(rec))
        self.call(f, pl, av, loc, ctor=True)

    def run_inits(self, f, pl):
        for i in f.get("inits") or []:
            if i["k"] == "delegate":
                self.init_place_keep(pl, i["init"])
            elif i["k"] == "base":
                e = i["init"]
                if e is None:
                    continue
                if e[0] == "ctor":
                    ref = self.p.ref(e[3])
                    if not ref["user"]:
                        continue
                    bf = self.p.fn(e[3])
                    brec = self.p.types[i["t"]]["r"]
                    if bf is None:
                        if ref.get("ctor") in ("copy", "move"):
                            src = self.lv(e[4][0])
                            for x in self.p.all_fields(brec):
                                self.put(pl.sub(x["id"]), self.get(src.sub(x["id"])))
                        continue
                    av = self.args(ref["pt"], e[4])
                    self.call(bf, pl, av, e[2], ctor=True)
                else:
                    raise Unsupported("base initialiser %s" % e[0])
            else:
                ty = self.p.types[i["t"]]
                fp = pl.sub(i["id"])
                e = i["init"]
                if ty["k"] == "ref":
                    self.put(fp, self.lv(e))
                elif e is not None and e[0] == "arrcopy":
                    self.put(fp, self.get(self.lv(e[3])))
                else:
                    self.init_place(fp, i["t"], e)

    def init_place_keep(self, pl, e):
        if e[0] == "ctor":
            ref = self.p.ref(e[3])
            f = self.p.fn(e[3])
            av = self.args(ref["pt"], e[4])
            self.call(f, pl, av, e[2], ctor=True)
        else:
            raise Unsupported("delegating initialiser")

    def e_new(self, e):
        t, isarr, size, init = e[3], e[4], e[5], e[6]
        if e[7]:
            raise Unsupported("placement new")
        if isarr:
            n = self.num(self.ev(size))
            s = self.p.sort(t)
            if not s:
                c = n.const()
                if c is None:
                    raise Unsupported("new of symbolic record array")
                r = self.alloc(VecV([self.default_construct(t, e[2]) for _ in range(int(c))]))
                return PtrV(Place(r), ZERO)
            z = init is not None and init[0] in ("zero", "ilist")
            r = self.alloc(ArrV(const_arr(0, s) if z else Base("undef", "new%d@%s" % (next(A._ids), e[2]), s), n, s))
            return PtrV(Place(r), ZERO)
        r = self.alloc(UNINIT)
        if init is not None:
            self.init_place(Place(r), t, init)
        return PtrV(Place(r))

    def e_delete(self, e):
        p = self.ev(e[3])
        self.free(p, e[2])
        return None

    def free(self, p, loc):
        if p is NULLP:
            return
        if p is UNINIT:
            self.check(TRUE, "uninit", loc, "delete of uninitialised pointer")
        if isinstance(p, UPtr):
            p = p.p
            if p is NULLP:
                return
        r = p.place.root
        if r not in self.S or p.place.path:
            self.event("double-free", TRUE, loc, "delete of an object that is not owned", definite=True)
            raise Dead()
        v = self.S[r]
        self.destroy_value(v)
        self.S.pop(r, None)

    def destroy_value(self, v, depth=0):
        """release what a dying object owns"""
        if isinstance(v, StructV):
            for x in v.f.values():
                if isinstance(x, (StructV, UPtr, OptV, VecV, TupleV)):
                    self.destroy_value(x, depth + 1)
        elif isinstance(v, UPtr):
            if isinstance(v.p, PtrV):
                r = v.p.place.root
                w = self.S.get(r)
                if w is not None:
                    self.destroy_value(w, depth + 1)
                    self.S.pop(r, None)
                elif not self.quiet:
                    self.event("double-free", TRUE, "?", "object released twice", definite=False)
        elif isinstance(v, OptV):
            if v.val is not None:
                self.destroy_value(v.val, depth + 1)
        elif isinstance(v, (VecV, TupleV)):
            for x in v.items:
                if isinstance(x, (StructV, UPtr, OptV, VecV, TupleV)):
                    self.destroy_value(x, depth + 1)

    def e_throw(self, e):
        t = "rethrow"
        if e[3] is not None:
            t = self.p.types[e[3][1]]["s"]
        self.do_throw(t.split("#")[0], e[2])

    def e_ilist(self, e):
        ty = self.p.types[e[1]]
        if ty["k"] == "arr":
            xs = []
            for x in e[3]:
                r = self.alloc(UNINIT)
                self.init_place(Place(r), ty["to"], x)
                xs.append(self.S.pop(r))
            while len(xs) < ty["n"]:
                xs.append(self.zero(ty["to"]))
            return VecV(xs)
        if ty["k"] == "rec":
            rec = ty["r"]
            q = self.p.rec(rec)["q"]
            if not self.p.rec(rec).get("user"):
                return self.std.from_ilist(e)
            f = {}
            fs = self.p.all_fields(rec)
            for x, y in zip(fs, e[3]):
                if self.p.types[x["t"]]["k"] == "ref":
                    f[x["id"]] = self.lv(y)
                    continue
                r = self.alloc(UNINIT)
                self.init_place(Place(r), x["t"], y)
                f[x["id"]] = self.S.pop(r)
            for x in fs[len(e[3]):]:
                f[x["id"]] = self.zero(x["t"])
            return StructV(rec, f)
        if len(e[3]) == 1:
            return self.ev(e[3][0])
        if not e[3]:
            return self.zero(e[1])
        raise Unsupported("init list")

    def e_stdil(self, e):
        # std::initializer_list over a materialised array
        v = self.lv(e[3])
        return PtrVList(v)

    def e_lambda(self, e):
        caps = {}
        this = None
        for c in e[5]:
            if c["k"] == "this":
                this = self.this
            elif c["k"] == "var":
                if c["byref"]:
                    caps[c["id"]] = self.lv(c["init"])
                else:
                    r = self.alloc(UNINIT)
                    self.init_place(Place(r), c["ft"], c["init"])
                    caps[c["id"]] = self.S.pop(r)
                    if isinstance(caps[c["id"]], Place):
                        pass
            else:
                raise Unsupported("capture")
        return LambdaV(e[4], caps, this)

    def e_arrcopy(self, e):
        return self.get(self.lv(e[3]))

    # ------------------------------------------------------------------ copies
    def copy_value(self, src, t, loc):
        """copy-construct a value of type t from the object at src"""
        t = self.p.strip(t)
        ty = self.p.types[t]
        if ty["k"] == "rec":
            rec = ty["r"]
            if self.p.rec(rec).get("user"):
                f = self.special(rec, "copy")
                if f is not None and not f["implicit"]:
                    r = self.alloc(UNINIT)
                    self.run_ctor(Place(r), rec, f, [src], loc)
                    return self.S.pop(r)
                v = self.get(src, loc)
                if isinstance(v, StructV):
                    if v.rec != rec and not self.p.is_derived(v.rec, rec):
                        raise Unsupported("copy of unrelated record")
                    out = {}
                    for x in self.p.all_fields(rec):
                        w = v.f[x["id"]]
                        out[x["id"]] = w if isinstance(w, (Poly, Bool, Place, PtrV)) or w is UNINIT else self.copy_value(src.sub(x["id"]), x["t"], loc)
                    return StructV(rec, out)
                if isinstance(v, LambdaV):
                    return v
                raise Unsupported("copy of %s" % type(v).__name__)
            return self.std.copy(src, t, loc)
        return self.get(src, loc)

    def special(self, rec, kind):
        nm = self.p.rec(rec)["name"]
        for f in self.p.byrec.get(rec, {}).get(nm, []):
            if len(f["params"]) == 1:
                ty = self.p.types[f["params"][0]["t"]]
                if ty["k"] == "ref" and self.p.types[ty["to"]]["k"] == "rec" and self.p.types[ty["to"]]["r"] == rec:
                    if (kind == "move") == bool(ty["rv"]):
                        return f
        return None

    def special_assign(self, rec, kind):
        for f in self.p.byrec.get(rec, {}).get("operator=", []):
            if len(f["params"]) == 1:
                ty = self.p.types[f["params"][0]["t"]]
                if ty["k"] == "ref" and self.p.types[ty["to"]]["k"] == "rec" and self.p.types[ty["to"]]["r"] == rec:
                    if (kind == "move") == bool(ty["rv"]):
                        return f
        return None

    def has_method_decl(self, rec, kind):
        pass

    def move_value(self, src, t, loc):
        t = self.p.strip(t)
        ty = self.p.types[t]
        if ty["k"] == "rec":
            rec = ty["r"]
            if self.p.rec(rec).get("user"):
                f = self.special(rec, "move")
                if f is not None and not f["implicit"]:
                    r = self.alloc(UNINIT)
                    self.run_ctor(Place(r), rec, f, [src], loc)
                    return self.S.pop(r)
                if f is None:
                    fc = self.special(rec, "copy")
                    if fc is not None and not fc["implicit"] and not self.declares_move(rec):
                        return self.copy_value(src, t, loc)
                v = self.get(src, loc)
                if isinstance(v, StructV):
                    out = {}
                    for x in self.p.all_fields(rec):
                        w = v.f[x["id"]]
                        out[x["id"]] = w if isinstance(w, (Poly, Bool, Place, PtrV)) or w is UNINIT else self.move_value(src.sub(x["id"]), x["t"], loc)
                    return StructV(rec, out)
                if isinstance(v, LambdaV):
                    return v
                raise Unsupported("move of %s" % type(v).__name__)
            return self.std.move(src, t, loc)
        return self.get(src, loc)

    def declares_move(self, rec):
        r = self.p.rec(rec)
        for m in r.get("methods") or []:
            if m["name"] == r["name"] and m["np"] == 1 and not m["deleted"]:
                rf = self.p.fnrefs.get(str(m["id"]))
                if rf and rf.get("ctor") == "move":
                    return True
        return False

    def assign_value(self, dst, src, t, loc, move):
        """*dst = *src for objects of type t"""
        t = self.p.strip(t)
        ty = self.p.types[t]
        if ty["k"] == "rec":
            rec = ty["r"]
            if self.p.rec(rec).get("user"):
                f = self.special_assign(rec, "move" if move else "copy")
                if f is None and move and self.special_assign(rec, "copy") is not None and not self.special_assign(rec, "copy")["implicit"] and not self.declares_move_assign(rec):
                    f = self.special_assign(rec, "copy")
                if f is not None and not f["implicit"]:
                    self.call(f, dst, [src], loc)
                    return
                v = self.get(src, loc)
                for x in self.p.all_fields(rec):
                    self.assign_value(dst.sub(x["id"]), src.sub(x["id"]), x["t"], loc, move)
                return
            self.std.assign(dst, src, t, loc, move)
            return
        self.put(dst, self.get(src, loc), loc)

    def declares_move_assign(self, rec):
        for m in self.p.rec(rec).get("methods") or []:
            if m["name"] == "operator=" and not m["deleted"]:
                rf = self.p.fnrefs.get(str(m["id"]))
                if rf and rf.get("ma"):
                    return True
        return False

    # ------------------------------------------------------------------ calls
    def args(self, pts, args):
        out = []
        for i, a in enumerate(args):
            if i < len(pts):
                pt = self.p.types[pts[i]]
                if pt["k"] == "ref":
                    out.append(self.lv(a))
                    continue
                t = pts[i]
            else:
                t = a[1]
            if self.p.types[t]["k"] == "rec":
                r = self.alloc(UNINIT)
                self.init_place(Place(r), t, a)
                out.append(self.S.pop(r))
            else:
                out.append(self.ev(a))
        return out

    def e_call(self, e):
        r = self.do_call(e)
        if isinstance(r, Place):
            if "_Bit_reference" in self.p.types[e[1]].get("s", ""):
                return r
            return self.load(r, e[1], e[2])
        return r

    def l_call(self, e):
        r = self.do_call(e)
        if isinstance(r, Place):
            return r
        x = self.alloc(r)
        self.temps.append(x)
        return Place(x)

    def do_call(self, e):
        fid, obj, arrow, virt, args = e[3], e[4], e[5], e[6], e[7]
        ref = self.p.ref(fid)
        loc = e[2]
        if not ref["user"]:
            return self.std.call(e, ref)
        if ref["n"].startswith("vf_") and self.p.fn(fid) is None:
            return self.hook(ref, args, e)
        this = None
        if obj is not None and not ref.get("static"):
            if arrow:
                this = self.deref(self.ev(obj), loc)
            else:
                this = self.lv(obj)
        elif obj is not None:
            self.discard(obj)
        if this is not None and virt:
            v = self.get(this, loc)
            if isinstance(v, StructV):
                nid = self.p.overrider(v.rec, fid)
                if nid != fid:
                    fid = nid
                    ref = self.p.fnrefs.get(str(fid), ref)
        f = self.p.fn(fid)
        if f is None:
            if this is not None and (ref.get("ca") or ref.get("ma")):
                src = self.lv(args[0])
                self.assign_value(this, src, self.rec_type(ref["rec"], this), loc, ref.get("ma"))
                return this
            if ref["n"].startswith("~"):
                return None
            if this is not None and isinstance(self.get(this, loc), LambdaV):
                return self.call_value(self.get(this, loc), self.args(ref["pt"], args), loc)
            raise Unsupported("function without body: %s at %s" % (ref["q"], self.where(loc)))
        if f["implicit"] and (ref.get("ca") or ref.get("ma")):
            src = self.lv(args[0])
            self.assign_value(this, src, self.rec_type(ref["rec"], this), loc, ref.get("ma"))
            return this
        if this is not None:
            v = self.S.get(this.root)
            try:
                tv = self.get(this, loc)
            except Dead:
                raise
            if isinstance(tv, LambdaV):
                return self.call_value(tv, self.args(ref["pt"], args), loc, f)
        av = self.args(ref["pt"], args)
        return self.call(f, this, av, loc)

    def rec_type(self, rec, pl=None):
        """type id of a record"""
        if not hasattr(self, "_rt"):
            self._rt = {}
            for i, t in enumerate(self.p.types):
                if t and t["k"] == "rec" and (t["r"] not in self._rt or not t["c"]):
                    self._rt[t["r"]] = i
        return self._rt[rec]

    def e_icall(self, e):
        c = self.ev(e[3])
        av = [self.ev(a) if self.p.sort(a[1]) else self.lv(a) for a in e[4]]
        return self.call_value(c, av, e[2])

    def lambda_body(self, c, av):
        """the instance of a generic lambda's call operator that fits the arguments"""
        fs = [f for f in self.p.find_methods(self.p.ref(c.op)["rec"], "operator()")
              if len(f["params"]) == len(av) and f.get("body") is not None]
        if len(fs) > 1:
            def fits(f):
                for p, a in zip(f["params"], av):
                    t = self.p.types[p["t"]]
                    k = self.p.types[t["to"]]["k"] if t["k"] == "ref" else t["k"]
                    v = self.S.get(a.root) if isinstance(a, Place) and not a.path else a
                    if isinstance(v, StructV) and k != "rec" or isinstance(v, (Poly, Bool)) and k == "rec":
                        return False
                    if isinstance(v, Poly) and k in ("int", "float") and v.is_int() != (k == "int"):
                        return False
                return True
            fs = [f for f in fs if fits(f)]
        if len(fs) != 1:
            raise Unsupported("generic lambda with %d candidate bodies" % len(fs))
        return fs[0]

    def call_value(self, c, av, loc, f=None):
        """call a callable value; av: values or places"""
        if isinstance(c, Place):
            c = self.get(c, loc)
        if isinstance(c, PtrV):
            c = self.get(self.deref(c, loc), loc)
        if isinstance(c, LambdaV):
            f = f or self.p.fn(c.op) or self.lambda_body(c, av)
            env = {}
            for k, v in c.caps.items():
                if isinstance(v, Place):
                    env[k] = v
                else:
                    env[k] = Place(self.alloc(v))
            return self.call(f, c.this, self.fit(f, av, loc), loc, env=env, this_is=True)
        if isinstance(c, FnV):
            f = self.p.fn(c.fid)
            if f is None:
                return self.std.call_fn(self.p.ref(c.fid), av, loc)
            return self.call(f, None, self.fit(f, av, loc), loc)
        if isinstance(c, OpV):
            return self.std.call_op(c.name, [self.get(a, loc) if isinstance(a, Place) else a for a in av], loc)
        if isinstance(c, StructV):
            for f in self.p.find_methods(c.rec, "operator()"):
                if len(f["params"]) == len(av):
                    r = self.alloc(c)
                    return self.call(f, Place(r), self.fit(f, av, loc), loc)
        if isinstance(c, OpaqueV) and c.what == "function":
            if c.data is None:
                self.do_throw("std::bad_function_call", loc)
            return self.call_value(c.data, av, loc)
        raise Unsupported("call of %s at %s" % (type(c).__name__, self.where(loc)))

    def fit(self, f, av, loc):
        out = []
        for p, a in zip(f["params"], av):
            if self.p.types[p["t"]]["k"] == "ref":
                if not isinstance(a, Place):
                    a = Place(self.alloc(a))
                out.append(a)
            else:
                if isinstance(a, Place):
                    a = self.copy_value(a, p["t"], loc)
                k = self.p.types[p["t"]]["k"]
                if isinstance(a, Bool) and k in ("int", "float"):
                    a = ind(a)
                elif isinstance(a, Poly) and k == "bool":
                    a = self.tobool(a)
                elif isinstance(a, Poly) and k == "int" and not a.is_int():
                    a = self.f2i(a)
                out.append(a)
        return out

    def call(self, f, this, av, loc, ctor=False, env=None, this_is=False):
        if len(self.stack) > self.maxdepth:
            raise Unsupported("call depth")
        self.sites["calls"] += 1
        if f["id"] not in self.visited:
            self.visited.add(f["id"])
            self.calltree.append((len(self.stack), f["id"]))
        self.stack.append(f["q"])
        save = (self.env, self.this, self.rets, self.brks, self.conts, self.temps, self.collapse)
        own = set()
        self.roots_of_call.append(own)
        depth_exc = self.noexc
        if f.get("noexcept"):
            self.noexc += 1
        e2 = dict(env) if env else {}
        for p, a in zip(f["params"], av):
            if self.p.types[p["t"]]["k"] == "ref":
                if not isinstance(a, Place):
                    a = Place(self.alloc(a))
                e2[p["id"]] = a
            else:
                r = self.alloc(a)
                own.add(r)
                e2[p["id"]] = Place(r)
        self.env = e2
        self.this = this
        self.rets = []
        self.brks = self.conts = None
        self.temps = []
        self.collapse = 0
        scope = self.scope
        self.scope = None
        self.retflag.append(self.p.types[f["rt"]]["k"] == "ref" if "rt" in f else False)
        pre = self.snap()
        fell = None
        try:
            try:
                if ctor:
                    self.run_inits(f, this)
                    self.flush_temps(0)
                if f["body"] is not None:
                    self.stmt(f["body"])
                fell = self.snap()
            except Dead:
                fell = None
            rets = self.rets
        finally:
            self.env, self.this, self.rets, self.brks, self.conts, self.temps, self.collapse = save
            self.roots_of_call.pop()
            self.noexc = depth_exc
            self.stack.pop()
            self.scope = scope
            self.retflag.pop()
        states = [(s, v) for s, v in rets]
        if fell is not None:
            states.append((fell, None))
        if not states:
            raise Dead()
        s, v = states[-1]
        if len(states) == 1:
            self.restore(s)
        else:
            for s2, v2 in reversed(states[:-1]):
                vals = self.join(pre, s2, s, None, [(v2, v)])
                v = vals[0]
                s = self.snap()
        # drop parameters
        for r in own:
            x = self.S.pop(r, None)
            if x is not None and isinstance(x, (StructV, UPtr, OptV, VecV)):
                self.destroy_value(x)
        return v

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        getattr(self, "s_" + s[0])(s)

    def flush_temps(self, mark):
        while len(self.temps) > mark:
            r = self.temps.pop()
            v = self.S.pop(r, None)
            if v is not None and isinstance(v, (StructV, UPtr, OptV, VecV)):
                self.destroy_value(v)

    def s_expr(self, s):
        m = len(self.temps)
        self.discard(s[2])
        self.flush_temps(m)

    def s_null(self, s):
        pass

    def s_block(self, s):
        saved = self.env
        self.env = dict(saved)
        mark = len(self.temps)
        locs = []
        old = getattr(self, "scope", None)
        self.scope = locs
        try:
            for x in s[2]:
                self.stmt(x)
        finally:
            self.scope = old
            self.env = saved
        self.leave(locs)
        self.flush_temps(mark)

    def leave(self, locs):
        for r in reversed(locs):
            v = self.S.pop(r, None)
            if v is not None and isinstance(v, (StructV, UPtr, OptV, VecV, TupleV)):
                self.destroy_value(v)

    def s_decl(self, s):
        for d in s[2]:
            self.declare(d)

    def declare(self, d):
        if d.get("static") and d["id"] in self.dyn:
            if d["id"] in self.dynseen:
                return
            # the first execution of the declaration
            r = self.alloc(UNINIT)
            self.init_place(Place(r), d["t"], self.p.globals[str(d["id"])]["init"])
            v = self.S[r]
            if not pure_value(v):
                raise Unsupported("static variable %s initialised with a value that varies" % d["name"])
            if d["id"] not in self.gl:
                raise DynStatic(d["id"], v)
            if repr_value(v) != repr_value(self.dyn[d["id"]]):
                raise Unsupported("static variable %s initialised differently" % d["name"])
            self.dynseen.add(d["id"])
            return
        if d.get("static"):
            self.global_place(d["id"], ["var", d["t"], d["loc"], d["id"], d["name"]])
            return
        ty = self.p.types[d["t"]]
        mark = len(self.temps)
        if ty["k"] == "ref":
            pl = self.lv(d["init"])
            self.env[d["id"]] = pl
            # lifetime extension: keep temporaries until the scope ends
            self.extend_list(self.S.get(pl.root), mark)
            if self.temps[mark:] and any(r == pl.root for r in self.temps[mark:]):
                self.temps.remove(pl.root)
                if self.scope is not None:
                    self.scope.append(pl.root)
            self.flush_temps(mark)
            for b in d.get("holding") or []:
                self.declare(b)
            return
        r = self.alloc(self.blank_value(d["t"]) if ty["k"] in ("arr",) else UNINIT)
        self.names[d["id"]] = d["name"]
        self.env[d["id"]] = Place(r)
        if self.roots_of_call:
            self.roots_of_call[-1].add(r)
        if self.scope is not None:
            self.scope.append(r)
        if d.get("init") is not None:
            self.init_place(Place(r), d["t"], d["init"])
            self.extend_list(self.S.get(r), mark)
        elif ty["k"] == "rec":
            self.S[r] = self.default_construct(d["t"], d["loc"])
        for b in d.get("holding") or []:
            self.declare(b)
        self.flush_temps(mark)

    scope = None

    def extend_list(self, v, mark):
        """the array behind an initializer_list lives as long as the list that is declared with it"""
        if isinstance(v, PtrVList) and any(r == v.place.root for r in self.temps[mark:]):
            self.temps.remove(v.place.root)
            if self.scope is not None:
                self.scope.append(v.place.root)

    def s_ret(self, s):
        v = None
        mark = len(self.temps)
        if s[2] is not None:
            e = s[2]
            f = self.cur_ret_ref()
            if f:
                v = self.lv(e)
                if any(r == v.root for r in self.temps[mark:]):
                    self.event("dangling", TRUE, s[1], "reference to a temporary returned", definite=False)
                self.temps[mark:] = [r for r in self.temps[mark:] if r != v.root]
            elif self.p.types[e[1]]["k"] == "rec":
                r = self.alloc(UNINIT)
                self.init_place(Place(r), e[1], e)
                v = self.S.pop(r)
            elif self.p.types[e[1]]["k"] == "void":
                self.discard(e)
            else:
                v = self.ev(e)
        self.flush_temps(mark)
        self.rets.append((self.snap(), v))
        raise Dead()

    def cur_ret_ref(self):
        return self.retflag[-1]

    def tempset(self):
        return set(self.temps)

    def varname(self, vid):
        return self.names.get(vid)

    def s_if(self, s):
        saved = self.env
        self.env = dict(saved)
        locs = []
        old = self.scope
        self.scope = locs
        try:
            self.stmt(s[2])
            self.stmt(s[3])
            m = len(self.temps)
            c = self.cond(s[4])
            self.flush_temps(m)
            self.branch(c, lambda: self.sub(s[5]), lambda: self.sub(s[6]))
        finally:
            self.scope = old
            self.env = saved
        self.leave(locs)

    def sub(self, s):
        if s is None:
            return
        if s[0] == "block":
            self.stmt(s)
        else:
            self.s_block(["block", s[1], [s]])

    def s_for(self, s, omp=None):
        saved = self.env
        self.env = dict(saved)
        locs = []
        old = self.scope
        self.scope = locs
        opened = self.open_region(omp, s[1])
        nest = self.collapse
        try:
            self.header(lambda: self.stmt(s[2]))
            if opened:
                self.region.excl |= set(self.S) - self.region.shared
            cond = (lambda: self.header(lambda: self.full(s[3]))) if s[3] is not None else (lambda: TRUE)
            inc = (lambda: self.header(lambda: self.expr_stmt(s[4]))) if s[4] is not None else (lambda: None)
            self.L.run_loop(self, s[1], cond, lambda: self.iteration(nest, lambda: self.sub(s[5])), inc, omp=omp)
        finally:
            self.collapse = nest
            self.close_region(opened)
            self.scope = old
            self.env = saved
        self.leave(locs)

    def open_region(self, omp, loc):
        if omp is None or not self.omplog or self.region is not None or self.quiet or "parallel" not in omp["name"] and not omp["name"].startswith("for"):
            return False
        self.collapse = max(1, int(omp.get("collapse") or 1))
        names = [v for c in ("private", "firstprivate", "lastprivate", "linear", "reduction") for v in omp.get(c) or []]
        self.region = Region(self.where(loc), self.collapse, len(self.binders), frozenset(self.S), {self.env[v].root for v in names if v in self.env}, omp)
        return True

    def close_region(self, opened):
        if opened:
            self.region = None
            self.collapse = 0

    def header(self, f):
        """init, condition and increment of a parallel loop are not part of its iterations"""
        R = self.region
        if R is None or not self.collapse:
            return f()
        saved, self.collapse = self.collapse, 0
        R.hdr += 1
        try:
            return f()
        finally:
            R.hdr -= 1
            self.collapse = saved

    def iteration(self, nest, body):
        R = self.region
        if R is None or not nest:
            return body()
        R.ids.append(self.iterk)
        self.collapse = nest - 1
        try:
            return body()
        finally:
            R.ids.pop()
            self.collapse = nest

    def full(self, e):
        m = len(self.temps)
        c = self.cond(e)
        self.flush_temps(m)
        return c

    def expr_stmt(self, e):
        m = len(self.temps)
        self.discard(e)
        self.flush_temps(m)

    def s_while(self, s):
        if s[4] is not None:
            raise Unsupported("condition variable in while")
        self.L.run_loop(self, s[1], lambda: self.full(s[2]), lambda: self.sub(s[3]), lambda: None)

    def s_do(self, s):
        self.L.run_loop(self, s[1], lambda: self.full(s[3]), lambda: self.sub(s[2]), lambda: None, post=True)

    def s_rfor(self, s, omp=None):
        saved = self.env
        self.env = dict(saved)
        locs = []
        old = self.scope
        self.scope = locs
        try:
            self.stmt(s[2])
            self.stmt(s[3])
            self.stmt(s[4])
            self.stmt(s[5])

            def body():
                self.s_block(["block", s[1], [s[8], s[9]]])
            opened = self.open_region(omp, s[1])
            nest = self.collapse
            try:
                self.L.run_loop(self, s[1], lambda: self.header(lambda: self.full(s[6])), lambda: self.iteration(nest, body), lambda: self.header(lambda: self.expr_stmt(s[7])), omp=omp)
            finally:
                self.collapse = nest
                self.close_region(opened)
        finally:
            self.scope = old
            self.env = saved
        self.leave(locs)

    def s_omp(self, s):
        name, cl, st = s[2], s[3], s[4]
        cl = dict(cl)
        cl["name"] = name
        cl["loc"] = s[1]
        if not self.quiet:
            self.sites["omp"] += 1
        if st is None:
            return
        if st[0] == "for" and ("for" in name or "simd" in name):
            self.s_for(st, omp=cl)
        elif st[0] == "rfor" and "for" in name:
            self.s_rfor(st, omp=cl)
        else:
            # critical / atomic / parallel regions: executed as ordinary code
            if name in ("critical", "atomic", "single", "master"):
                self.ompguard += 1
                self.guards += 1
                try:
                    self.stmt(st)
                finally:
                    self.ompguard -= 1
            else:
                self.stmt(st)

    def s_break(self, s):
        self.brks.append(self.snap())
        raise Dead()

    def s_continue(self, s):
        self.conts.append(self.snap())
        raise Dead()

    def s_try(self, s):
        """a try block of a witness: exceptions thrown inside continue in the matching handler"""
        pre = self.snap()
        env, scope, stack = self.env, getattr(self, "scope", None), list(self.stack)
        old, self.catches = self.catches, []
        states = []
        try:
            try:
                self.stmt(s[2])
                states.append(self.snap())
            except Dead:
                pass
            thrown = self.catches
        finally:
            self.catches = old
        for st, what, loc in thrown:
            h = None
            for x in s[3]:
                if self.catch_matches(self.p.tname(x["t"]), what):
                    h = x
                    break
            self.restore(st)
            self.env = dict(env)
            if h is None:
                try:
                    self.do_throw(what, loc)
                except Dead:
                    continue
            try:
                if "var" in h and h["var"].get("id") is not None:
                    self.env[h["var"]["id"]] = Place(self.alloc(OpaqueV("exception", what)))
                self.stmt(h["body"])
                states.append(self.snap())
            except Dead:
                pass
            finally:
                self.env = env
        if not states:
            raise Dead()
        if len(states) == 1:
            self.restore(states[0])
            return
        self.restore(states[-1])
        s0 = states[-1]
        for s1 in reversed(states[:-1]):
            self.join(pre, s1, s0)
            s0 = self.snap()

    def catch_matches(self, t, what):
        if "..." in t or t == "std::exception":
            return True
        base = {"std::invalid_argument": "logic_error", "std::out_of_range": "logic_error", "std::length_error": "logic_error", "std::domain_error": "logic_error",
                "std::overflow_error": "runtime_error", "std::range_error": "runtime_error", "std::underflow_error": "runtime_error"}
        w = what.split("<")[0]
        return w in t or base.get(w, "\0") in t

    def s_switch(self, s):
        v = self.num(self.ev(s[2]))
        body = s[3]
        if body[0] != "block":
            raise Unsupported("switch body")
        # flatten cases
        items = []

        def flat(x):
            labels = []
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "case":
                    labels.append(self.num(self.ev(x[2])))
                    x = x[3]
                else:
                    labels.append(None)
                    x = x[2]
            return labels, x
        for x in body[2]:
            items.append(flat(x))
        consts = [l for ls, _ in items for l in ls if l is not None]
        saved = (self.brks, self.env)
        self.brks = []
        self.env = dict(self.env)
        pre = self.snap()
        outs = []
        entries = [(i, l) for i, (ls, _) in enumerate(items) for l in ls]
        has_default = any(l is None for _, l in entries)
        taken_any = FALSE
        try:
            for i, l in entries:
                c = eq(v, l) if l is not None else band(*[bnot(eq(v, x)) for x in consts])
                d = self.decide(c)
                if d is False:
                    continue
                self.restore(pre)
                try:
                    if d is not True:
                        self.assume_pc(c)
                    for _, st in items[i:]:
                        self.stmt(st)
                    outs.append(self.snap())
                except Dead:
                    pass
                if d is True:
                    break
            else:
                if not has_default:
                    self.restore(pre)
                    c = band(*[bnot(eq(v, x)) for x in consts])
                    if self.decide(c) is not False:
                        self.assume_pc(c)
                        outs.append(self.snap())
            outs += self.brks
        finally:
            self.brks, self.env = saved
        if not outs:
            raise Dead()
        s0 = outs[-1]
        self.restore(s0)
        for s1 in reversed(outs[:-1]):
            self.join(pre, s1, s0)
            s0 = self.snap()

    def s_case(self, s):
        raise Unsupported("case outside switch block")

    s_default = s_case

    def s_unsup(self, s):
        raise Unsupported("%s at %s" % (s[2], self.where(s[1])))

    # ------------------------------------------------------------------ witness hooks
    def hook(self, ref, args, e):
        h = self.hooks.get(ref["n"])
        if h is None:
            raise Unsupported("hook %s" % ref["n"])
        return h(self, ref, args, e)


class PtrVList:
    """std::initializer_list value"""
    __slots__ = ("place",)

    def __init__(self, place):
        self.place = place


def ne0(p):
    return bnot(eq0(p))
