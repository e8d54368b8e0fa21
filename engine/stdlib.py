"""Meaning of the standard library for the abstract interpreter."""
from contextlib import contextmanager
from interp import *
import interp as IN
import terms as T
import arrays as A
import fbounds as FB
from fractions import Fraction

CLIST = ("vector", "array", "deque", "list")


def is_cont(q):
    return q in ("std::vector", "std::array", "std::deque")


def p_width(p, ref):
    """width of the first floating parameter of a library function"""
    for t in ref.get("pt") or ():
        ty = p.types[p.strip(t)]
        if ty["k"] == "float":
            return ty["w"]
    return 64


def std_tanh(x):
    if x is ZERO:
        return ZERO
    e = fexp(x * 2)
    return (e - 1) / (e + 1)


INT_LIMITS = {}


class Std:
    def __init__(self, I):
        self.I = I
        self.p = I.p

    @contextmanager
    def over(self, b, n):
        """evaluate a body once for an arbitrary b in [0,n)"""
        I = self.I
        old = I.facts
        I.setfacts(A.binder_facts([(b, P(n))], old))
        I.binders.append((b, P(n)))
        try:
            yield
        finally:
            I.binders.pop()
            I.setfacts(old)

    # ------------------------------------------------------------ helpers
    def throw_if(self, c, what, loc):
        I = self.I
        if c is FALSE:
            return
        I.branch(c, lambda: I.do_throw(what, loc), lambda: None)

    def rec_of(self, t):
        ty = self.p.types[self.p.strip(t)]
        return ty["r"] if ty["k"] == "rec" else None

    def q_of(self, t):
        r = self.rec_of(t)
        return self.p.rec(r)["q"] if r is not None else None

    def targ(self, t, i=0):
        r = self.rec_of(t)
        return self.p.targs(r)[i]

    def elem_type(self, t):
        return self.targ(t, 0)

    def vsort(self, t):
        return self.p.sort(self.elem_type(t))

    def size(self, v):
        if isinstance(v, VecV):
            return P(len(v.items))
        if isinstance(v, ArrV):
            return v.n
        if v is UNINIT:
            raise Unsupported("size of uninitialised container")
        if isinstance(v, OpaqueV) and v.what == "moved":
            return ZERO
        raise Unsupported("size of %s" % type(v).__name__)

    def val(self, a, loc="?"):
        return self.I.get(a, loc) if isinstance(a, Place) else a

    def deep_copy(self, v, t, loc):
        """copy of a value already loaded (scalars inside containers)"""
        return v

    # ------------------------------------------------------------ construction
    def make_n(self, n, t, mk, loc):
        """container of n elements"""
        I = self.I
        s = self.vsort(t)
        c = n.const()
        if c is not None and (c < 0 or c > 10 ** 12):
            I.do_throw("std::length_error", loc)
        if c is not None and c <= 64:
            if s is not None:
                v = mk()
                return VecV([v] * int(c), s)
            return VecV([mk() for _ in range(int(c))])
        if s is None:
            raise Unsupported("container of symbolically many objects at %s" % I.where(loc))
        I.check(lt0(n), "bad-size", loc, "negative container size")
        v = mk()
        return ArrV(const_arr(P(v) if not isinstance(v, Bool) else ind(v), s), n, s)

    def construct(self, t, ref, args, loc, place):
        I = self.I
        p = self.p
        q = self.q_of(t)
        ck = ref.get("ctor")
        pt = ref["pt"]
        nargs = len(args)
        if q is None:
            raise Unsupported("library constructor")
        if ck in ("copy", "move") and nargs >= 1 and self.q_of(pt[0]) == q:
            src = I.lv(args[0])
            return self.copy(src, t, loc) if ck == "copy" else self.move(src, t, loc)
        if is_cont(q):
            et = self.elem_type(t)
            s = p.sort(et)
            args = [a for a, ptt in zip(args, pt) if self.q_of(ptt) != "std::allocator"]
            nargs = len(args)
            if nargs == 0:
                return VecV((), s)
            k0 = p.types[p.strip(pt[0])]["k"]
            q0 = self.q_of(pt[0])
            if q0 == "std::initializer_list":
                lst = I.ev(args[0])
                return self.from_list(lst, et, loc)
            if k0 == "int" and nargs == 1:
                n = I.num(I.ev(args[0]))
                return self.make_n(n, t, lambda: I.default_construct(et, loc) if p.types[et]["k"] == "rec" else I.zero(et), loc)
            if k0 == "int" and nargs == 2 and (q0 is None) and p.types[p.strip(pt[1])]["k"] != "ptr" and not self.same_iter(pt):
                n = I.num(I.ev(args[0]))
                pl = I.lv(args[1])
                if s is not None:
                    v = I.get(pl, loc)
                    v = self.fit_scalar(v, s)
                    return self.make_n(n, t, lambda: v, loc)
                return self.make_n(n, t, lambda: I.copy_value(pl, et, loc), loc)
            if nargs == 2:
                a, b = self.it_arg(args[0], pt[0]), self.it_arg(args[1], pt[1])
                return self.from_range(a, b, et, loc)
            if q0 == q:
                src = I.lv(args[0])
                return self.copy(src, t, loc) if not p.types[pt[0]].get("rv") else self.move(src, t, loc)
            raise Unsupported("container constructor at %s" % I.where(loc))
        if q == "std::optional":
            if nargs == 0:
                return OptV(FALSE, None)
            q0 = self.q_of(pt[0])
            if q0 == "std::nullopt_t":
                return OptV(FALSE, None)
            if q0 == "std::in_place_t":
                av, ats = self.eval_args(args[1:], pt[1:])
                return OptV(TRUE, self.make(self.targ(t), av, ats, loc))
            if q0 == "std::optional":
                src = I.lv(args[0])
                return self.copy(src, t, loc)
            av, ats = self.eval_args(args, pt)
            return OptV(TRUE, self.make(self.targ(t), av, ats, loc))
        if q == "std::unique_ptr":
            if nargs == 0:
                return UPtr(NULLP)
            k0 = p.types[pt[0]]["k"]
            if self.q_of(pt[0]) == "std::unique_ptr":
                src = I.lv(args[0])
                v = I.get(src, loc)
                I.put(src, UPtr(NULLP), loc)
                return v
            v = I.ev(args[0])
            if v is NULLP or k0 == "nullptr":
                return UPtr(NULLP)
            if isinstance(v, UPtr):
                return v
            return UPtr(v)
        if q in ("std::shared_ptr", "std::weak_ptr"):
            if nargs == 0:
                return NULLP
            if self.q_of(pt[0]) in ("std::shared_ptr",):
                src = I.lv(args[0])
                v = I.get(src, loc)
                if p.types[pt[0]].get("rv"):
                    I.put(src, NULLP, loc)
                return v
            if self.q_of(pt[0]) == "std::unique_ptr":
                src = I.lv(args[0])
                v = I.get(src, loc)
                I.put(src, UPtr(NULLP), loc)
                return v.p
            return I.ev(args[0])
        if q == "std::function":
            if nargs == 0:
                return OpaqueV("function", None)
            if p.types[pt[0]]["k"] == "nullptr":
                return OpaqueV("function", None)
            a = args[0]
            v = self.val(I.lv(a) if p.types[pt[0]]["k"] == "ref" else I.ev(a), loc)
            if isinstance(v, OpaqueV) and v.what == "function":
                return v
            return OpaqueV("function", v)
        if q == "std::reference_wrapper":
            if self.q_of(pt[0]) == q:
                return I.get(I.lv(args[0]), loc)
            return PtrV(I.lv(args[0]))
        if q in ("std::unordered_map", "std::map"):
            if nargs and self.q_of(pt[0]) == "std::initializer_list":
                raise Unsupported("map initializer list")
            return MapV()
        if q in ("std::pair", "std::tuple"):
            if nargs == 0:
                return self.default(t, loc)
            ta = p.targs(self.rec_of(t))
            if q == "std::tuple" and ta and isinstance(ta[0], list):
                ta = ta[0][1] if ta[0][:1] == ["pack"] else ta[0]
            if self.q_of(pt[0]) == q and nargs == 1:
                src = I.lv(args[0])
                return self.copy(src, t, loc)
            items = []
            for a, ptt, et in zip(args, pt, ta):
                if p.types[et]["k"] == "ref":
                    items.append(I.lv(a))
                    continue
                av, ats = self.eval_args([a], [ptt])
                items.append(self.make(et, av, ats, loc))
            return TupleV(items)
        if q == "std::initializer_list":
            return None if nargs else OpaqueV("opaque")
        if q.startswith("std::basic_string"):
            if q != "std::basic_string":
                for a in args:
                    self.I.ev(a) if not self.p.types[a[1]]["k"] == "rec" else self.I.lv(a)
                return OpaqueV("stringstream", None)
            if nargs and pt and p.types[pt[0]]["k"] == "ptr":
                v = I.ev(args[0])
                return OpaqueV("string", v.data if isinstance(v, OpaqueV) else None)
            for a, ptt in zip(args, pt):
                self.touch(a, ptt)
            return OpaqueV("string", "" if not args else None)
        if "mersenne_twister" in q or "linear_congruential" in q:
            if nargs == 0:
                return RngV(P(5489), ZERO)
            v = self.val(I.lv(args[0]) if p.types[pt[0]]["k"] == "ref" else I.ev(args[0]), loc)
            return RngV(v if isinstance(v, Poly) else unk("seed", "i"), ZERO)
        if q.endswith("_distribution"):
            av = [self.val(I.lv(a) if p.types[x]["k"] == "ref" else I.ev(a), loc) for a, x in zip(args, pt)]
            return OpaqueV("dist", (q, tuple(av), getattr(I, "reseeds", 0)))
        if q in ("std::plus", "std::minus", "std::multiplies", "std::divides", "std::greater", "std::less", "std::negate", "std::equal_to", "std::greater_equal", "std::less_equal", "std::not_equal_to", "std::modulus"):
            return OpV(q)
        if q in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::move_iterator"):
            if nargs:
                v = I.ev(args[0]) if p.types[pt[0]]["k"] != "ref" else I.get(I.lv(args[0]), loc)
                if q == "std::reverse_iterator" and isinstance(v, PtrV) and self.q_of(pt[0]) != q:
                    return PtrV(v.place, v.off, True)
                return v
            return UNINIT
        if q in ("std::basic_ifstream", "std::basic_fstream"):
            return self.open_file(self.file_args(args, pt, loc), ref)
        for a, ptt in zip(args, pt):
            self.touch(a, ptt)
        if "stream" in q:
            return OpaqueV("stream", None)
        return OpaqueV("obj:" + q, None)

    def same_iter(self, pt):
        return False

    def touch(self, a, t):
        """evaluate an argument for its effects"""
        try:
            if self.p.types[t]["k"] == "ref" or self.p.types[a[1]]["k"] == "rec":
                return self.I.lv(a)
            return self.I.ev(a)
        except AttributeError:
            return None

    def eval_args(self, args, pt):
        av, ats = [], []
        for a, t in zip(args, pt):
            av.append(self.I.lv(a) if self.p.types[t]["k"] == "ref" or self.p.types[t]["k"] == "rec" else self.I.ev(a))
            ats.append((self.p.strip(t), self.p.types[t]["k"] == "ref" and bool(self.p.types[t].get("rv"))))
        return av, ats

    def fit_scalar(self, v, s):
        if s == "b" and isinstance(v, Poly):
            return ne0(v)
        if s in ("i", "r") and isinstance(v, Bool):
            return ind(v)
        if s == "i" and isinstance(v, Poly) and not v.is_int():
            return self.I.f2i(v)
        return v

    def make(self, t, av, ats, loc):
        """construct an object of type t from evaluated arguments (library side construction)"""
        I, p = self.I, self.p
        ty = p.types[t]
        if ty["k"] != "rec":
            if not av:
                return I.zero(t)
            v = self.val(av[0], loc)
            s = p.sort(t)
            return self.fit_scalar(v, s) if s else v
        rec = ty["r"]
        if len(av) == 1:
            st, rv = ats[0]
            sr = p.types[st]["r"] if p.types[st]["k"] == "rec" else None
            if sr is not None and sr == rec:
                if not isinstance(av[0], Place):
                    return av[0]
                return I.move_value(av[0], t, loc) if rv else I.copy_value(av[0], t, loc)
        if not p.rec(rec).get("user"):
            q = p.rec(rec)["q"]
            if is_cont(q):
                if len(av) == 1 and p.types[ats[0][0]]["k"] == "int":
                    et = self.elem_type(t)
                    return self.make_n(I.num(self.val(av[0])), t, lambda: I.default_construct(et, loc) if p.types[et]["k"] == "rec" else I.zero(et), loc)
                if len(av) == 2 and p.types[ats[0][0]]["k"] == "int":
                    v = self.val(av[1])
                    return self.make_n(I.num(self.val(av[0])), t, lambda: v, loc)
                if len(av) == 1 and isinstance(self.val(av[0]), (VecV, ArrV)):
                    return self.val(av[0])
            if q == "std::function":
                v = self.val(av[0], loc)
                return v if isinstance(v, OpaqueV) else OpaqueV("function", v)
            if q in ("std::unique_ptr", "std::shared_ptr") and len(av) == 1:
                v = self.val(av[0], loc)
                if q == "std::unique_ptr":
                    if isinstance(av[0], Place):
                        I.put(av[0], UPtr(NULLP), loc)
                    return v if isinstance(v, UPtr) else UPtr(v)
                return v.p if isinstance(v, UPtr) else v
            if q == "std::optional":
                v = self.val(av[0], loc) if av else None
                if v is None:
                    return OptV(FALSE, None)
                return OptV(TRUE, self.make(self.targ(t), av, ats, loc))
            if q == "std::reference_wrapper":
                return PtrV(av[0])
            if not av:
                return self.default(t, loc)
            raise Unsupported("library construction of %s" % q)
        best = None
        for f in I.ctors_any(rec):
            n = len(f["params"])
            if n < len(av):
                continue
            extra = f["params"][len(av):]
            if any(x.get("def") is None for x in extra):
                continue
            score = 0
            ok = True
            for x, (st, rv) in zip(f["params"], ats):
                sc = self.compat(p.types[x["t"]], st, rv)
                if sc is None:
                    ok = False
                    break
                score += sc
            if ok and (best is None or score > best[0]):
                best = (score, f)
        if best is None:
            if not av:
                return I.default_construct(t, loc)
            raise Unsupported("no constructor of %s for library call at %s" % (p.rec(rec)["q"], I.where(loc)))
        f = best[1]
        vals = []
        for x, a, (st, rv) in zip(f["params"], av, ats):
            xt = p.types[x["t"]]
            if xt["k"] == "ref":
                if isinstance(a, Place) and self.compat(p.types[xt["to"]], st, rv, exact=True):
                    vals.append(a)
                else:
                    vals.append(Place(I.alloc(self.make(xt["to"], [a], [(st, rv)], loc))))
            elif xt["k"] == "rec":
                vals.append(self.make(x["t"], [a], [(st, rv)], loc))
            else:
                v = self.val(a, loc)
                s = p.sort(x["t"])
                vals.append(self.fit_scalar(v, s) if s else v)
        for x in f["params"][len(av):]:
            vals.append(I.ev(x["def"]) if p.types[x["t"]]["k"] != "ref" else I.lv(x["def"]))
        r = I.alloc(UNINIT)
        I.run_ctor(Place(r), rec, f, vals, loc)
        return I.S.pop(r)

    def compat(self, xt, st, rv, exact=False):
        p = self.p
        sc = 0
        if xt["k"] == "ref":
            if xt.get("rv") and not rv:
                return None
            if xt.get("rv"):
                sc = 1
            xt = p.types[xt["to"]]
        s = p.types[st]
        if xt["k"] == "rec" and s["k"] == "rec":
            if xt["r"] == s["r"]:
                return sc + 4
            if p.is_derived(s["r"], xt["r"]):
                return sc + 3
            if not exact and not p.rec(xt["r"]).get("user") and p.rec(xt["r"])["q"] == "std::function":
                return sc + 1
            return None
        if xt["k"] in ("int", "float", "bool") and s["k"] in ("int", "float", "bool"):
            return sc + (4 if xt["k"] == s["k"] else 2)
        if xt["k"] == s["k"]:
            return sc + 3
        return None

    def default(self, t, loc):
        q = self.q_of(t)
        p = self.p
        if is_cont(q):
            if q == "std::array":
                ta = p.targs(self.rec_of(t))
                n = int(ta[1][1])
                return VecV([self.I.zero(ta[0])] * n, p.sort(ta[0]))
            return VecV((), self.vsort(t))
        if q == "std::optional":
            return OptV(FALSE, None)
        if q == "std::unique_ptr":
            return UPtr(NULLP)
        if q in ("std::shared_ptr", "std::weak_ptr"):
            return NULLP
        if q == "std::function":
            return OpaqueV("function", None)
        if q in ("std::unordered_map", "std::map"):
            return MapV()
        if q in ("std::pair", "std::tuple"):
            ta = p.targs(self.rec_of(t))
            if q == "std::tuple" and ta and isinstance(ta[0], list):
                ta = ta[0][1] if ta[0][:1] == ["pack"] else ta[0]
            return TupleV([self.I.zero(x) for x in ta])
        if q == "std::basic_string":
            return OpaqueV("string", "")
        if q and ("mersenne_twister" in q):
            return RngV(P(5489), ZERO)
        if q and q.endswith("_distribution"):
            return OpaqueV("dist", (q, (), getattr(self.I, "reseeds", 0)))
        if q and "stringstream" in q:
            return OpaqueV("stringstream", None)
        if q in ("std::basic_ifstream", "std::basic_fstream"):
            return self.open_file([], None)
        if q and "stream" in q:
            return OpaqueV("stream", None)
        if q and q in ("std::plus", "std::minus", "std::multiplies", "std::divides", "std::greater", "std::less", "std::equal_to"):
            return OpV(q)
        return OpaqueV("obj:%s" % q, None)

    def from_list(self, lst, et, loc):
        I, p = self.I, self.p
        s = p.sort(et)
        if isinstance(lst, PtrVList):
            v = I.get(lst.place, loc)
            if s or not isinstance(v, VecV):
                return VecV(v.items, s) if isinstance(v, VecV) else v
            return VecV([I.copy_value(lst.place.sub(("x", P(i))), et, loc) for i in range(len(v.items))])
        if isinstance(lst, VecV):
            return VecV(lst.items, s)
        raise Unsupported("initializer list value %s" % type(lst).__name__)

    def it_arg(self, a, t):
        v = self.val(self.I.lv(a) if self.p.types[t]["k"] == "ref" else self.I.ev(a))
        return v

    def from_range(self, a, b, et, loc):
        I = self.I
        if not isinstance(a, PtrV):
            raise Unsupported("range of %s" % type(a).__name__)
        pa, oa = I.canon_ptr(a)
        pb, ob = I.canon_ptr(b)
        if pa != pb:
            raise Unsupported("range over different objects")
        if a.rev:
            src = I.get(pa, loc)
            n = (oa or ZERO) - (ob or ZERO)
            c = n.const()
            if c is None:
                raise Unsupported("reverse range of symbolic length")
            return VecV([self.elem_copy(pa, oa - 1 - i, et, loc) for i in range(int(c))], self.p.sort(et))
        oa = oa if oa is not None else ZERO
        n = ob - oa
        src = I.get(pa, loc)
        self.bounds(pa, oa, n, loc, "range")
        c = n.const()
        if c is not None and (isinstance(src, VecV) or c <= 16):
            return VecV([self.elem_copy(pa, oa + i, et, loc) for i in range(int(c))], self.p.sort(et))
        if isinstance(src, ArrV):
            if oa is ZERO and n is src.n:
                return src
            v = fresh("r")
            with with_facts(A.binder_facts([(v, n)])):
                x = src.c.read(oa + ap(v))
            return ArrV(Layer(Base("undef", "range%d" % next(A._ids), src.sort), False, ((v, n),), TRUE, ap(v), x), n, src.sort)
        raise Unsupported("range of symbolic length over objects")

    def elem_copy(self, pl, i, et, loc):
        if self.p.types[et]["k"] == "rec":
            return self.I.copy_value(pl.sub(("x", i)), et, loc)
        return self.fit_scalar(self.I.get(pl.sub(("x", i)), loc), self.p.sort(et))

    def from_ilist(self, e):
        """braced initialisation of a library aggregate"""
        I, p = self.I, self.p
        q = self.q_of(e[1])
        if q == "std::array":
            ta = p.targs(self.rec_of(e[1]))
            n = int(ta[1][1])
            inner = e[3]
            if len(inner) == 1 and inner[0][0] == "ilist":
                inner = inner[0][3]
            xs = []
            for x in inner:
                r = I.alloc(UNINIT)
                I.init_place(Place(r), ta[0], x)
                xs.append(I.S.pop(r))
            while len(xs) < n:
                xs.append(I.zero(ta[0]))
            return VecV(xs, p.sort(ta[0]))
        if not e[3]:
            return self.default(e[1], e[2])
        if q in ("std::pair", "std::tuple"):
            ta = p.targs(self.rec_of(e[1]))
            xs = []
            for x, t in zip(e[3], ta):
                r = I.alloc(UNINIT)
                I.init_place(Place(r), t, x)
                xs.append(I.S.pop(r))
            return TupleV(xs)
        for x in e[3]:
            self.touch(x, x[1])
        return OpaqueV("obj:%s" % q, None)

    # ------------------------------------------------------------ copy / move / assign
    def copy(self, src, t, loc):
        I, p = self.I, self.p
        q = self.q_of(t)
        v = I.get(src, loc)
        if is_cont(q):
            et = self.elem_type(t)
            if p.types[et]["k"] == "rec" and isinstance(v, VecV):
                return VecV([I.copy_value(src.sub(("x", P(i))), et, loc) for i in range(len(v.items))])
            if isinstance(v, OpaqueV):
                if v.what == "moved":
                    return VecV((), p.sort(et))
                if v is UNINIT:
                    I.check(TRUE, "uninit", loc, "copy of uninitialised container")
            return v
        if q == "std::optional":
            if isinstance(v, OptV):
                if v.has is FALSE:
                    return OptV(FALSE, None)
                et = self.targ(t)
                if p.types[et]["k"] == "rec":
                    # the payload is read under the engaged flag
                    if v.has is TRUE:
                        return OptV(TRUE, I.copy_value(src.sub("o"), et, loc))
                    save = I.facts
                    f = I.facts.copy()
                    f.add(v.has)
                    I.setfacts(f)
                    x = I.copy_value(src.sub("o"), et, loc)
                    I.setfacts(save)
                    return OptV(v.has, x)
                return v
        if q == "std::unique_ptr":
            raise Unsupported("copy of unique_ptr")
        if isinstance(v, MapV):
            ta = p.targs(self.rec_of(t))
            items = []
            for key, r in v.items:
                items.append((key, I.alloc(I.copy_value(Place(r), ta[1], loc))))
            return MapV(items)
        if isinstance(v, TupleV):
            ta = p.targs(self.rec_of(t))
            if q == "std::tuple" and ta and isinstance(ta[0], list):
                ta = ta[0][1] if ta[0][:1] == ["pack"] else ta[0]
            return TupleV([I.copy_value(src.sub(("t", i)), x, loc) if not isinstance(v.items[i], Place) else v.items[i] for i, x in enumerate(ta)])
        return v

    def moved(self, v, t):
        if isinstance(v, (VecV, ArrV)):
            q = self.q_of(t)
            if q == "std::array":
                return v
            return VecV((), self.vsort(t))
        if isinstance(v, UPtr):
            return UPtr(NULLP)
        if isinstance(v, MapV):
            return MapV()
        return v

    def move(self, src, t, loc):
        I, p = self.I, self.p
        q = self.q_of(t)
        v = I.get(src, loc)
        if q == "std::optional" and isinstance(v, OptV):
            et = self.targ(t)
            if v.has is FALSE or p.types[et]["k"] != "rec":
                return v
            if v.has is TRUE:
                return OptV(TRUE, I.move_value(src.sub("o"), et, loc))
            save = I.facts
            f = I.facts.copy()
            f.add(v.has)
            I.setfacts(f)
            x = I.move_value(src.sub("o"), et, loc)
            I.setfacts(save)
            return OptV(v.has, x)
        if q == "std::shared_ptr":
            I.put(src, NULLP, loc)
            return v
        if isinstance(v, TupleV):
            ta = p.targs(self.rec_of(t))
            if q == "std::tuple" and ta and isinstance(ta[0], list):
                ta = ta[0][1] if ta[0][:1] == ["pack"] else ta[0]
            return TupleV([I.move_value(src.sub(("t", i)), x, loc) if not isinstance(v.items[i], Place) else v.items[i] for i, x in enumerate(ta)])
        if is_cont(q) and isinstance(v, VecV) and q == "std::array":
            return self.copy(src, t, loc)
        m = self.moved(v, t)
        if m is not v:
            I.put(src, m, loc)
        return v

    def assign(self, dst, src, t, loc, move):
        I, p = self.I, self.p
        q = self.q_of(t)
        if q == "std::optional":
            d, s = I.get(dst, loc), I.get(src, loc)
            et = self.targ(t)
            if dst == src:
                return
            if isinstance(d, OptV) and isinstance(s, OptV) and d.has is TRUE and s.has is TRUE and p.types[et]["k"] == "rec":
                I.assign_value(dst.sub("o"), src.sub("o"), et, loc, move)
                return
        if dst == src:
            return
        v = (self.move if move else self.copy)(src, t, loc)
        old = I.S.get(dst.root)
        old = I.get(dst, loc)
        I.put(dst, v, loc)
        if isinstance(old, (UPtr, OptV, VecV, TupleV)):
            I.destroy_value(old)

    def stream_ok(self, v):
        return bunk("stream state")

    # ------------------------------------------------------------ calls
    def call(self, e, ref):
        I, p = self.I, self.p
        name = ref["n"]
        obj, arrow, args = e[4], e[5], e[7]
        loc = e[2]
        if "rec" in ref and not ref.get("static") and obj is not None:
            rq = p.rec(ref["rec"])["q"]
            if arrow:
                pl = I.deref(I.ev(obj), loc)
            else:
                pl = I.lv(obj)
            return self.method(rq, name, pl, obj, args, ref, e, loc)
        if "rec" in ref and ref.get("static"):
            rq = p.rec(ref["rec"])["q"]
            if rq == "std::numeric_limits":
                return self.limits(name, p.targs(ref["rec"])[0])
            if rq == "std::char_traits" and name == "eof":
                return P(-1)
            return self.free("%s::%s" % (rq, name), args, ref, e, loc)
        return self.free(ref["q"], args, ref, e, loc)

    def limits(self, name, t):
        ty = self.p.types[t]
        if ty["k"] == "int":
            w, u = ty["w"], ty["u"]
            return P({"max": (1 << w) - 1 if u else (1 << (w - 1)) - 1, "min": 0 if u else -(1 << (w - 1)), "lowest": 0 if u else -(1 << (w - 1)), "epsilon": 0}[name])
        dbl = ty.get("w") == 64 or "double" in ty["s"]
        if name in ("max", "infinity"):
            return ap(T.INF)
        if name == "lowest":
            return -ap(T.INF)
        if name == "epsilon":
            return P(Fraction(1, 1 << (52 if dbl else 23)))
        if name in ("min", "denorm_min"):
            return P(Fraction(1, 1 << (1022 if dbl else 126)))
        if name in ("quiet_NaN", "signaling_NaN"):
            return fn("nan")
        raise Unsupported("numeric_limits::%s" % name)

    def argv(self, a, t):
        """argument value (loaded when passed by reference)"""
        if self.p.types[t]["k"] == "ref":
            return self.I.get(self.I.lv(a), a[2])
        return self.I.ev(a)

    def method(self, rq, name, pl, obj, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        if isinstance(self.peek(pl), Place):
            pl = self.peek(pl)
        if is_cont(rq):
            return self.vec(name, pl, obj, args, ref, e, loc)
        if rq == "std::_Bit_reference":
            if name.startswith("operator bool") or name == "operator _Bool":
                return I.load(pl, e[1], loc)
            if name == "operator=":
                v = self.argv(args[0], pt[0])
                if isinstance(v, Place):
                    v = I.get(v, loc)
                I.put(pl, I.tobool(v), loc)
                return pl
            if name == "flip":
                I.put(pl, bnot(I.get(pl, loc)), loc)
                return None
        if rq in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Bit_iterator_base"):
            return self.iterator(name, pl, args, ref, e, loc)
        if rq == "std::initializer_list":
            v = I.get(pl, loc)
            if not isinstance(v, PtrVList):
                raise Unsupported("initializer_list %s" % type(v).__name__)
            if name == "begin":
                return PtrV(v.place, ZERO)
            n = self.size(I.get(v.place, loc))
            if name == "end":
                return PtrV(v.place, n)
            if name == "size":
                return n
        if rq in ("std::optional", "std::_Optional_base_impl", "std::_Optional_base"):
            return self.optional(name, pl, args, ref, e, loc, obj)
        if rq in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
            return self.smart(rq, name, pl, args, ref, e, loc)
        if rq in ("std::function",) or (name == "operator()" and isinstance(self.peek(pl), OpaqueV) and self.peek(pl).what == "function"):
            v = I.get(pl, loc)
            if name == "operator()":
                av = [I.lv(a) if p.types[t]["k"] == "ref" or p.types[t]["k"] == "rec" else I.ev(a) for a, t in zip(args, pt)]
                # arguments are passed by the signature's types
                return self.fcall(v, av, loc)
            if name == "operator bool":
                return T.B(isinstance(v, OpaqueV) and v.data is not None)
            if name == "operator=":
                w = self.val(I.lv(args[0]) if p.types[pt[0]]["k"] in ("ref", "rec") else I.ev(args[0]), loc)
                if w is NULLP:
                    w = OpaqueV("function", None)
                I.put(pl, w if isinstance(w, OpaqueV) and w.what == "function" else OpaqueV("function", w), loc)
                return pl
        if rq == "std::reference_wrapper":
            v = I.get(pl, loc)
            if name == "get" or name.startswith("operator "):
                return I.deref(v, loc)
            if name == "operator=":
                I.put(pl, I.get(I.lv(args[0]), loc), loc)
                return pl
        if rq in ("std::unordered_map", "std::map"):
            return self.map(name, pl, args, ref, e, loc)
        if rq.startswith("std::__detail::_Node") or rq.startswith("std::_Rb_tree"):
            return self.mapit(name, pl, args, ref, e, loc)
        if rq in ("std::pair", "std::tuple"):
            if name == "operator=":
                src = I.lv(args[0])
                sv = I.get(src, loc)
                dv = I.get(pl, loc)
                for i, x in enumerate(sv.items):
                    x = I.get(x, loc) if isinstance(x, Place) else x
                    d = dv.items[i]
                    I.put(d if isinstance(d, Place) else pl.sub(("t", i)), x, loc)
                return pl
            if name == "swap":
                o = I.lv(args[0])
                a, b = I.get(pl), I.get(o)
                I.put(pl, b)
                I.put(o, a)
                return None
        if "mersenne_twister" in rq or "linear_congruential" in rq:
            v = I.get(pl, loc)
            if name == "seed":
                s = self.argv(args[0], pt[0]) if args else P(5489)
                I.reseeds = getattr(I, "reseeds", 0) + 1
                I.put(pl, RngV(s if isinstance(s, Poly) else unk("seed", "i"), ZERO), loc)
                return None
            if name == "operator()":
                I.put(pl, RngV(v.seed, v.ctr + 1), loc)
                return fn("rng", v.seed, v.ctr, sort="i")
            if name == "discard":
                I.put(pl, RngV(v.seed, v.ctr + I.num(self.argv(args[0], pt[0]))), loc)
                return None
            if name in ("min", "max"):
                return ZERO if name == "min" else P((1 << 32) - 1)
        if rq.endswith("_distribution"):
            return self.dist(rq, name, pl, args, ref, e, loc)
        if rq in ("std::plus", "std::minus", "std::multiplies", "std::divides", "std::greater", "std::less", "std::negate", "std::equal_to", "std::less_equal", "std::greater_equal", "std::modulus", "std::not_equal_to") and name == "operator()":
            return self.call_op(rq, [self.argv(a, t) for a, t in zip(args, pt)], loc)
        if rq == "std::basic_string":
            return self.string(name, pl, args, ref, e, loc)
        if rq == "std::integral_constant":
            ta = p.targs(ref["rec"])
            return T.B(int(ta[1][1]) != 0) if p.types[ta[0]]["k"] == "bool" else P(int(ta[1][1]))
        if "stream" in rq or rq.startswith("std::basic_ios") or rq == "std::ios_base":
            return self.stream(name, pl, args, ref, e, loc)
        if rq == "std::random_device":
            for a in args:
                I.ev(a)
            return fn("random_device", P(next(A._ids)), sort="i")
        if isinstance(self.peek(pl), OpaqueV) and self.peek(pl).what.startswith("obj:"):
            for a, t in zip(args, pt):
                self.touch(a, t)
            return self.opaque_result(e, ref)
        raise Unsupported("%s::%s at %s" % (rq, name, I.where(loc)))

    def opaque_result(self, e, ref):
        t = ref["rt"]
        k = self.p.types[self.p.strip(t)]["k"]
        if k == "int":
            return unk("library result", "i")
        if k == "float":
            return unk("library result", "r")
        if k == "bool":
            return bunk("library result")
        if k == "void":
            return None
        return OpaqueV("obj:?", None)

    def peek(self, pl):
        try:
            v = self.I.S[pl.root]
            for s in pl.path:
                v = self.I.step(v, s, "?") if not (isinstance(s, tuple) and s[0] == "x") else self.I.elem(v, s[1], "?")
            return v
        except (KeyError, Dead, AttributeError):
            return None

    def fcall(self, v, av, loc):
        I = self.I
        if isinstance(v, OpaqueV) and v.what == "function":
            if v.data is None:
                I.do_throw("std::bad_function_call", loc)
            v = v.data
        return I.call_value(v, av, loc)

    # ---- vectors
    def vec(self, name, pl, obj, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        t = I.rec_type(ref["rec"])
        et = p.targs(ref["rec"])[0]
        s = p.sort(et)
        v = I.get(pl, loc)
        if isinstance(v, OpaqueV):
            if v.what == "moved":
                v = VecV((), s)
                I.put(pl, v, loc)
            elif v is UNINIT:
                raise Unsupported("uninitialised container at %s" % I.where(loc))
        n = self.size(v)
        if name == "size":
            return n
        if name == "empty":
            return eq0(n)
        if name in ("operator[]", "at"):
            i = I.num(self.argv(args[0], pt[0]))
            if name == "at":
                self.throw_if(I.facts.simp(bor(lt0(i), ge(i, n))), "std::out_of_range", loc)
            return pl.sub(("x", i))
        if name in ("begin", "cbegin", "data"):
            return PtrV(pl, ZERO)
        if name in ("end", "cend"):
            return PtrV(pl, n)
        if name in ("rbegin", "crbegin"):
            return PtrV(pl, n, True)
        if name in ("rend", "crend"):
            return PtrV(pl, ZERO, True)
        if name == "front":
            return pl.sub(("x", ZERO))
        if name == "back":
            return pl.sub(("x", n - 1))
        if name in ("push_back", "emplace_back"):
            av, ats = self.eval_args(args, pt)
            x = self.make(et, av, ats, loc)
            v = I.get(pl, loc)
            if isinstance(v, VecV):
                I.put(pl, VecV(v.items + (x,), s), loc)
            else:
                x = ind(x) if isinstance(x, Bool) else x
                I.put(pl, ArrV(write_cell(v.c, v.n, x), v.n + 1, v.sort), loc)
            return pl.sub(("x", n)) if name == "emplace_back" else None
        if name == "pop_back":
            I.check(eq0(n), "oob", loc, "pop_back on empty container")
            I.put(pl, VecV(v.items[:-1], s) if isinstance(v, VecV) else ArrV(v.c, v.n - 1, v.sort), loc)
            return None
        if name in ("reserve", "shrink_to_fit"):
            for a, x in zip(args, pt):
                self.touch(a, x)
            return None
        if name == "capacity":
            return n
        if name == "clear":
            I.put(pl, VecV((), s), loc)
            I.destroy_value(v)
            return None
        if name == "resize":
            m = I.num(self.argv(args[0], pt[0]))
            if len(args) > 1:
                apl = I.lv(args[1]) if p.types[pt[1]]["k"] == "ref" else None
                mk = (lambda: self.fit_scalar(I.get(apl, loc), s)) if s else (lambda: I.copy_value(apl, et, loc))
                if apl is None:
                    x = I.ev(args[1])
                    mk = lambda: x
            else:
                mk = lambda: I.zero(et) if p.types[et]["k"] != "rec" else I.default_construct(et, loc)
            if isinstance(v, VecV) and m.const() is not None:
                its = list(v.items[:int(m.const())])
                while len(its) < m.const():
                    its.append(mk())
                I.put(pl, VecV(its, s), loc)
                return None
            if isinstance(v, VecV) and not v.items:
                I.put(pl, self.make_n(m, t, mk, loc), loc)
                return None
            if isinstance(v, ArrV):
                if I.facts.decide(le(m, v.n)) is True:
                    I.put(pl, ArrV(v.c, m, v.sort), loc)
                    return None
                b = fresh("r")
                x = mk()
                x = ind(x) if isinstance(x, Bool) else x
                I.put(pl, ArrV(Layer(v.c, False, ((b, m - v.n),), TRUE, v.n + ap(b), x), m, v.sort), loc)
                return None
            raise Unsupported("resize at %s" % I.where(loc))
        if name == "assign":
            if self.q_of(pt[0]) == "std::initializer_list":
                I.put(pl, self.from_list(I.ev(args[0]), et, loc), loc)
                return None
            if p.types[p.strip(pt[0])]["k"] == "int":
                m = I.num(self.argv(args[0], pt[0]))
                x = self.fit_scalar(self.argv(args[1], pt[1]), s)
                I.put(pl, self.make_n(m, t, lambda: x, loc), loc)
                return None
            I.put(pl, self.from_range(self.it_arg(args[0], pt[0]), self.it_arg(args[1], pt[1]), et, loc), loc)
            return None
        if name == "operator=":
            if self.q_of(pt[0]) == "std::initializer_list":
                x = self.from_list(I.ev(args[0]), et, loc)
                I.put(pl, x, loc)
                return pl
            src = I.lv(args[0])
            self.assign(pl, src, t, loc, bool(ref.get("ma")) or (p.types[pt[0]]["k"] == "ref" and bool(p.types[pt[0]].get("rv"))))
            return pl
        if name == "insert":
            pos = self.it_arg(args[0], pt[0])
            off = pos.off
            c = self.konst(off) if off is not None else None
            if len(args) == 3:
                if p.types[p.strip(pt[1])]["k"] == "int" and self.q_of(pt[1]) is None:
                    m = I.num(self.argv(args[1], pt[1])).const()
                    x = self.argv(args[2], pt[2])
                    new = [x] * int(m) if m is not None else None
                else:
                    r = self.from_range(self.it_arg(args[1], pt[1]), self.it_arg(args[2], pt[2]), et, loc)
                    new = list(r.items) if isinstance(r, VecV) else None
                    if new is None and isinstance(v, VecV) and not v.items:
                        I.put(pl, r, loc)
                        return PtrV(pl, ZERO)
                    if new is None and isinstance(r, ArrV) and isinstance(v, (ArrV, VecV)) and s and off is n:
                        b = fresh("r")
                        base = v if isinstance(v, ArrV) else self.to_arr(v, s)
                        with with_facts(A.binder_facts([(b, r.n)])):
                            x = r.c.read(ap(b))
                        I.put(pl, ArrV(Layer(base.c, False, ((b, r.n),), TRUE, base.n + ap(b), x), base.n + r.n, s), loc)
                        return PtrV(pl, off)
            else:
                if self.q_of(pt[1]) == "std::initializer_list":
                    new = list(self.from_list(I.ev(args[1]), et, loc).items)
                else:
                    av, ats = self.eval_args(args[1:], pt[1:])
                    new = [self.make(et, av, ats, loc)]
            if new is None or c is None or not isinstance(v, VecV):
                raise Unsupported("insert at %s" % I.where(loc))
            I.check(T.B(c < 0 or c > len(v.items)), "oob", loc, "insert position")
            its = list(v.items)
            its[int(c):int(c)] = new
            I.put(pl, VecV(its, s), loc)
            return PtrV(pl, off)
        if name == "erase":
            pos = self.it_arg(args[0], pt[0])
            c = self.konst(pos.off)
            if not isinstance(v, VecV) or c is None:
                raise Unsupported("erase at %s" % I.where(loc))
            d = c + 1
            if len(args) > 1:
                d = self.konst(self.it_arg(args[1], pt[1]).off)
                if d is None:
                    raise Unsupported("erase at %s" % I.where(loc))
            I.check(T.B(c < 0 or d > len(v.items) or c > d), "oob", loc, "erase position")
            its = list(v.items)
            del its[int(c):int(d)]
            I.put(pl, VecV(its, s), loc)
            return PtrV(pl, pos.off)
        if name == "swap":
            o = I.lv(args[0])
            a, b = I.get(pl, loc), I.get(o, loc)
            I.put(pl, b, loc)
            I.put(o, a, loc)
            return None
        if name == "fill":
            x = self.fit_scalar(self.argv(args[0], pt[0]), s)
            I.put(pl, VecV([x] * len(v.items), s) if isinstance(v, VecV) else ArrV(const_arr(P(x), v.sort), v.n, v.sort), loc)
            return None
        raise Unsupported("vector::%s at %s" % (name, I.where(loc)))

    def konst(self, x):
        """value of x as a number; where x is a choice between cases each case is analysed on its own"""
        c = x.const()
        if c is None:
            it = [a for m in x.t for a, e in m if a.kind == "ite"]
            if it:
                raise Split(it[0].args[0])
        return c

    def to_arr(self, v, s):
        c = Base("undef", "vec%d" % next(A._ids), s)
        for i, x in enumerate(v.items):
            c = write_cell(c, P(i), P(x))
        return ArrV(c, P(len(v.items)), s)

    def iterator(self, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        v = I.get(pl, loc)
        pt = ref["pt"]
        if name == "operator*":
            return I.deref(v, loc)
        if name == "operator->":
            return PtrV(I.deref(v, loc))
        if name in ("operator++", "operator--"):
            one = ONE if name == "operator++" else P(-1)
            I.put(pl, I.ptr_add(v, one, loc), loc)
            return v if args else pl
        if name in ("operator+", "operator-"):
            n = self.argv(args[0], pt[0])
            n = I.num(n)
            return I.ptr_add(v, n if name == "operator+" else -n, loc)
        if name in ("operator+=", "operator-="):
            n = I.num(self.argv(args[0], pt[0]))
            I.put(pl, I.ptr_add(v, n if name == "operator+=" else -n, loc), loc)
            return pl
        if name == "operator[]":
            return I.deref(I.ptr_add(v, I.num(self.argv(args[0], pt[0])), loc), loc)
        if name == "base":
            if isinstance(v, PtrV) and v.rev:
                return PtrV(v.place, v.off)
            return v
        if name == "operator=":
            I.put(pl, self.argv(args[0], pt[0]), loc)
            return pl
        if name in ("operator==", "operator!=", "operator<"):
            return I.compare(name[8:], v, self.argv(args[0], pt[0]), loc)
        raise Unsupported("iterator %s" % name)

    # ---- optional
    def optional(self, name, pl, args, ref, e, loc, obj):
        I, p = self.I, self.p
        pt = ref["pt"]
        v = I.get(pl, loc)
        if isinstance(v, OpaqueV) and v.what == "moved":
            v = OptV(FALSE, None)
        if name in ("has_value", "operator bool", "_M_is_engaged"):
            return v.has
        if name in ("operator*", "operator->"):
            if v.val is None:
                I.check(TRUE, "empty-optional", loc, "dereference of an empty optional")
            if v.has is not TRUE:
                I.check(bnot(v.has), "empty-optional", loc, "dereference of an empty optional")
            return pl.sub("o") if name == "operator*" else PtrV(pl.sub("o"))
        if name == "value":
            if v.val is None:
                I.do_throw("std::bad_optional_access", loc)
            self.throw_if(bnot(v.has), "std::bad_optional_access", loc)
            return pl.sub("o")
        if name == "value_or":
            t = p.targs(ref["rec"])[0]
            if v.has is TRUE:
                return I.copy_value(pl.sub("o"), t, loc) if p.types[t]["k"] == "rec" else v.val
            av, ats = self.eval_args(args, pt)
            alt = self.make(t, av, ats, loc)
            if v.has is FALSE:
                return alt
            return I.merge_val(v.has, v.val, alt, None, None)
        if name == "reset":
            I.put(pl, OptV(FALSE, None), loc)
            if v.val is not None:
                I.destroy_value(v.val)
            return None
        et = p.targs(ref["rec"])[0] if p.targs(ref["rec"]) else None
        if name == "emplace":
            av, ats = self.eval_args(args, pt)
            if v.val is not None:
                I.destroy_value(v.val)
                I.put(pl, OptV(FALSE, None), loc)
            x = self.make(et, av, ats, loc)
            I.put(pl, OptV(TRUE, x), loc)
            return pl.sub("o")
        if name == "operator=":
            q0 = self.q_of(pt[0])
            if q0 == "std::nullopt_t":
                I.lv(args[0]) if False else None
                I.put(pl, OptV(FALSE, None), loc)
                if v.val is not None:
                    I.destroy_value(v.val)
                return pl
            if q0 == "std::optional":
                src = I.lv(args[0])
                self.assign(pl, src, I.rec_type(ref["rec"]), loc, p.types[pt[0]]["k"] == "ref" and bool(p.types[pt[0]].get("rv")))
                return pl
            av, ats = self.eval_args(args, pt)
            if v.has is TRUE and p.types[et]["k"] == "rec" and p.rec(p.types[et]["r"]).get("user") and p.types[ats[0][0]]["k"] == "rec" and p.types[ats[0][0]]["r"] == p.types[et]["r"]:
                src = av[0] if isinstance(av[0], Place) else Place(I.alloc(av[0]))
                I.assign_value(pl.sub("o"), src, et, loc, ats[0][1])
                return pl
            x = self.make(et, av, ats, loc)
            if v.val is not None:
                I.destroy_value(v.val)
            I.put(pl, OptV(TRUE, x), loc)
            return pl
        if name == "swap":
            o = I.lv(args[0])
            a, b = I.get(pl, loc), I.get(o, loc)
            I.put(pl, b, loc)
            I.put(o, a, loc)
            return None
        raise Unsupported("optional::%s" % name)

    # ---- smart pointers
    def smart(self, rq, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        v = I.get(pl, loc)
        if isinstance(v, OpaqueV) and v.what == "moved":
            v = UPtr(NULLP)
        tgt = v.p if isinstance(v, UPtr) else v
        if name == "get":
            return tgt
        if name == "operator*":
            return I.deref(tgt, loc)
        if name == "operator->":
            if tgt is NULLP:
                I.check(TRUE, "null-deref", loc, "member access through a null smart pointer")
            return tgt
        if name == "operator[]":
            if tgt is NULLP:
                I.check(TRUE, "null-deref", loc, "null smart pointer")
            i = I.num(self.argv(args[0], pt[0]))
            return I.deref(I.ptr_add(tgt, i, loc), loc)
        if name == "operator bool":
            return T.B(tgt is not NULLP)
        if name == "release":
            I.put(pl, UPtr(NULLP), loc)
            return tgt
        if name == "reset":
            n = I.ev(args[0]) if args else NULLP
            I.put(pl, UPtr(n) if isinstance(v, UPtr) else n, loc)
            if isinstance(v, UPtr):
                I.destroy_value(v)
            return None
        if name == "swap":
            o = I.lv(args[0])
            a, b = I.get(pl, loc), I.get(o, loc)
            I.put(pl, b, loc)
            I.put(o, a, loc)
            return None
        if name == "operator=":
            if p.types[pt[0]]["k"] == "nullptr":
                I.put(pl, UPtr(NULLP) if isinstance(v, UPtr) else NULLP, loc)
                if isinstance(v, UPtr):
                    I.destroy_value(v)
                return pl
            src = I.lv(args[0])
            if src == pl:
                return pl
            x = I.get(src, loc)
            mv = p.types[pt[0]]["k"] == "ref" and bool(p.types[pt[0]].get("rv"))
            if isinstance(x, UPtr):
                I.put(src, UPtr(NULLP), loc)
                I.put(pl, x if isinstance(v, UPtr) else x.p, loc)
                if isinstance(v, UPtr):
                    I.destroy_value(v)
            else:
                if mv:
                    I.put(src, NULLP, loc)
                I.put(pl, x, loc)
            return pl
        if name == "use_count":
            return unk("use_count", "i")
        raise Unsupported("%s::%s" % (rq, name))

    # ---- maps
    def key_eq(self, a, b):
        if isinstance(a, (PtrV, UPtr)) or isinstance(b, (PtrV, UPtr)):
            if isinstance(a, Poly) or isinstance(b, Poly):
                return FALSE
            return self.I.ptr_eq(a, b)
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            if a.data is not None and b.data is not None:
                return T.B(a.data == b.data)
            raise Unsupported("string key")
        return eq(self.I.num(a), self.I.num(b))

    def find_key(self, m, key):
        for i, (k, r) in enumerate(m.items):
            c = self.key_eq(k, key)
            d = self.I.decide(c)
            if d is True:
                return i
            if d is None:
                raise Split(c)
        return None

    def map(self, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        m = I.get(pl, loc)
        if not isinstance(m, MapV):
            m = MapV()
        if name == "operator=":
            src = I.lv(args[0])
            t = I.rec_type(ref["rec"])
            self.assign(pl, src, t, loc, bool(p.types[pt[0]].get("rv")))
            return pl
        ta = p.targs(ref["rec"])
        if name in ("find", "count", "at", "operator[]", "contains"):
            key = self.argv(args[0], pt[0])
            i = self.find_key(m, key)
            if name == "find":
                return OpaqueV("mapit", (pl, i if i is not None else len(m.items)))
            if name == "count":
                return P(0 if i is None else 1)
            if name == "contains":
                return T.B(i is not None)
            if name == "at":
                if i is None:
                    I.do_throw("std::out_of_range", loc)
                return Place(m.items[i][1])
            if i is None:
                r = I.alloc(I.zero(ta[1]))
                I.put(pl, MapV(m.items + ((key, r),)), loc)
                return Place(r)
            return Place(m.items[i][1])
        if name in ("emplace", "try_emplace", "insert_or_assign"):
            av, ats = self.eval_args(args, pt)
            key = self.val(av[0], loc)
            i = self.find_key(m, key)
            if i is None:
                x = self.make(ta[1], av[1:], ats[1:], loc)
                r = I.alloc(x)
                m = I.get(pl, loc)
                I.put(pl, MapV(m.items + ((key, r),)), loc)
                return TupleV([OpaqueV("mapit", (pl, len(m.items))), TRUE])
            if name == "insert_or_assign":
                I.put(Place(m.items[i][1]), self.make(ta[1], av[1:], ats[1:], loc), loc)
            return TupleV([OpaqueV("mapit", (pl, i)), FALSE])
        if name == "insert":
            a = args[0]
            src = I.lv(a)
            tv = I.get(src, loc)
            if not isinstance(tv, TupleV):
                raise Unsupported("map insert")
            key = tv.items[0]
            i = self.find_key(m, key)
            if i is None:
                r = I.alloc(tv.items[1])
                I.put(pl, MapV(m.items + ((key, r),)), loc)
                return TupleV([OpaqueV("mapit", (pl, len(m.items))), TRUE])
            return TupleV([OpaqueV("mapit", (pl, i)), FALSE])
        if name in ("end", "cend"):
            return OpaqueV("mapit", (pl, len(m.items)))
        if name in ("begin", "cbegin"):
            return OpaqueV("mapit", (pl, 0))
        if name == "size":
            return P(len(m.items))
        if name == "empty":
            return T.B(not m.items)
        if name == "clear":
            I.put(pl, MapV(), loc)
            return None
        if name == "erase":
            k = self.argv(args[0], pt[0])
            i = k.data[1] if isinstance(k, OpaqueV) and k.what == "mapit" else self.find_key(m, k)
            if i is not None and i < len(m.items):
                I.put(pl, MapV(m.items[:i] + m.items[i + 1:]), loc)
            return P(1)
        if name in ("reserve", "rehash"):
            return None
        raise Unsupported("map::%s" % name)

    def mapit(self, name, pl, args, ref, e, loc):
        I = self.I
        v = I.get(pl, loc)
        mp, i = v.data
        if name in ("operator->", "operator*"):
            m = I.get(mp, loc)
            if i >= len(m.items):
                I.check(TRUE, "oob", loc, "dereference of a map end iterator")
            key, r = m.items[i]
            t = I.alloc(TupleV([key, Place(r)]))
            I.temps.append(t)
            return PtrV(Place(t)) if name == "operator->" else Place(t)
        if name == "operator++":
            nv = OpaqueV("mapit", (mp, i + 1))
            I.put(pl, nv, loc)
            return v if args else pl
        if name == "operator=":
            I.put(pl, self.argv(args[0], ref["pt"][0]), loc)
            return pl
        raise Unsupported("map iterator %s" % name)

    # ---- random numbers
    def dist(self, rq, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        d = I.get(pl, loc)
        if name == "reset":
            return None
        if name != "operator()":
            raise Unsupported("distribution %s" % name)
        eng = I.lv(args[0])
        g = I.get(eng, loc)
        if not isinstance(g, RngV):
            raise Unsupported("random engine %s" % type(g).__name__)
        I.put(eng, RngV(g.seed, g.ctr + 1), loc)
        q, a = d.data[:2]
        if q == "std::normal_distribution" and d.data[2] != getattr(I, "reseeds", 0):
            # the object outlived a seeding and may hand out the second value of a pair drawn before
            return (a[0] if a else ZERO) + (a[1] if len(a) > 1 else ONE) * fn("cached draw", g.seed, g.ctr)
        if q == "std::uniform_real_distribution":
            lo = a[0] if a else ZERO
            hi = a[1] if len(a) > 1 else ONE
            return lo + (hi - lo) * fn("U01", g.seed, g.ctr)
        if q == "std::normal_distribution":
            mu = a[0] if a else ZERO
            sd = a[1] if len(a) > 1 else ONE
            return mu + sd * fn("N01", g.seed, g.ctr)
        if q == "std::bernoulli_distribution":
            pr = a[0] if a else P(Fraction(1, 2))
            return lt(fn("U01", g.seed, g.ctr), pr)
        if q == "std::uniform_int_distribution":
            lo = a[0] if a else ZERO
            return lo + fn("UINT", g.seed, g.ctr, (a[1] if len(a) > 1 else ap(T.INF)) - lo, sort="i")
        return fn("dist:" + q, g.seed, g.ctr, *[x for x in a])

    # ---- strings and streams
    def string(self, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        for a, t in zip(args, ref["pt"]):
            self.touch(a, t)
        if name in ("operator=", "operator+=", "append", "assign"):
            I.put(pl, OpaqueV("string", None), loc)
            return pl
        v = I.get(pl, loc)
        if name in ("size", "length"):
            return P(len(v.data)) if isinstance(v, OpaqueV) and v.data is not None else unk("string length", "i")
        if name == "empty":
            return T.B(v.data == "") if isinstance(v, OpaqueV) and v.data is not None else bunk("string empty")
        if name in ("push_back", "clear", "pop_back", "resize"):
            I.put(pl, OpaqueV("string", None), loc)
            return None
        if name in ("operator[]", "at", "back", "front"):
            r = I.alloc(unk("char", "i"))
            I.temps.append(r)
            return Place(r)
        if name == "c_str":
            return OpaqueV("cstr", v.data if isinstance(v, OpaqueV) else None)
        return self.opaque_result(e, ref)

    # ---- input files: (path, open, position of the next read, bytes of the last read)
    def file_args(self, args, pt, loc):
        out = []
        for a, t in zip(args, pt):
            try:
                out.append(self.val(self.I.lv(a) if self.p.types[t]["k"] == "ref" else self.I.ev(a), loc))
            except Unsupported:
                out.append(None)
        return out

    def open_file(self, av, ref):
        I = self.I
        path = av[0].data if av and isinstance(av[0], OpaqueV) else None
        if not av:
            return TupleV([OpaqueV("file", None), FALSE, ZERO, ZERO])
        if path is None or path + "#" not in I.cfg:
            return OpaqueV("stream", None)
        ex = I.cfg.get(path + "?", ONE)
        return TupleV([OpaqueV("file", path), bnot(eq0(P(ex))), ZERO, ZERO])

    def file_len(self, path):
        return P(self.I.cfg[path + "#"])

    def byte(self, path, i):
        c = i.const()
        if c is not None:
            v = self.I.cfg.get("%s@%d" % (path, int(c)))
            if v is not None:
                return P(v)
            return fn("byte:" + path, i, sort="i")
        out = fn("byte:" + path, i, sort="i")
        for k, v in self.I.cfg.items():
            if k.startswith(path + "@"):
                j = P(int(k[len(path) + 1:]))
                d = self.I.facts.decide(eq(i, j))
                if d is not False:
                    out = ite(eq(i, j), P(v), out)
        return out

    def file(self, name, f, pl, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        path, op, pos, got = f.items[0].data, f.items[1], f.items[2], f.items[3]
        put = lambda i, v: I.put(pl.sub(("t", i)), v, loc)
        if name == "open":
            n = self.open_file(self.file_args(args, pt, loc), ref)
            if not isinstance(n, TupleV):
                raise Unsupported("reopened stream")
            I.put(pl, n, loc)
            return None
        if name == "is_open":
            return op
        if path is None:
            fail = TRUE
            L = ZERO
        else:
            L = self.file_len(path)
            fail = bor(bnot(op), lt(L, pos))
        if name == "bad":
            return FALSE
        if name in ("fail", "operator!"):
            return fail
        if name in ("good", "operator bool") or name.startswith("operator bool"):
            return bnot(fail)
        if name == "eof":
            return lt(L, pos)
        if name == "gcount":
            return got
        if name == "close":
            put(1, FALSE)
            return None
        if name == "exceptions" or name == "imbue":
            raise Unsupported("stream %s" % name)
        if path is None:
            raise Unsupported("read from an unopened stream")
        if name in ("get", "peek") and not args:
            ok = band(op, lt(pos, L))
            if name == "get":
                put(2, pos + 1)
                put(3, ind(ok))
            return ite(ok, self.byte(path, pos), P(-1))
        if name == "get" and len(args) == 1:
            d = I.lv(args[0])
            ok = band(op, lt(pos, L))
            put(2, pos + 1)
            put(3, ind(ok))
            b = self.byte(path, pos)
            I.put(d, ite(ok, ite(lt(b, 128), b, b - 256), I.get(d, loc)), loc)
            return pl
        if name == "ignore" and (not args or len(args) == 1):
            n = I.num(self.argv(args[0], pt[0])) if args else ONE
            put(2, pos + n)
            return pl
        if name == "seekg":
            v = [self.argv(a, t) for a, t in zip(args, pt)]
            if len(v) == 1 and isinstance(v[0], Poly):
                put(2, ite(fail, pos, v[0]))
                return pl
            raise Unsupported("relative seek")
        if name == "tellg":
            return ite(fail, P(-1), pos)
        if name == "read":
            n = I.num(self.argv(args[1], pt[1]))
            a = args[0]
            while a and a[0] in ("cast", "mat"):
                a = a[4] if a[0] == "cast" else a[3]
            dst = I.ev(args[0])
            tt = p.types[p.strip(a[1])]
            et = p.types[tt["to"]] if "to" in tt else None
            self.read_bytes(path, pos, n, dst, et, band(op, le(pos + n, L)), loc)
            put(2, pos + n)
            put(3, ite(band(op, le(pos + n, L)), n, ite(lt(pos, L), L - pos, ZERO)))
            return pl
        raise Unsupported("stream %s" % name)

    def read_bytes(self, path, pos, n, dst, et, ok, loc):
        I = self.I
        if et is None or et["k"] != "int":
            raise Unsupported("read into memory of another type")
        w = et["w"] // 8

        def cell(i):
            v = ZERO
            for j in range(w):
                v = v + self.byte(path, pos + i * w + j) * (1 << (8 * j))
            if not et["u"]:
                v = ite(lt(v, 1 << (8 * w - 1)), v, v - (1 << (8 * w)))
            return v
        if isinstance(dst, PtrV) and dst.off is None:
            if n.const() != w:
                raise Unsupported("read of an object in parts")
            I.put(dst.place, ite(ok, cell(0), I.get(dst.place, loc)) if isinstance(I.get(dst.place, loc), Poly) else cell(0), loc)
            return
        pd, od = self.region(dst, loc)
        m = n if w == 1 else idiv(n, P(w))
        self.bounds(pd, od, m, loc, "read to")
        d = I.get(pd, loc)
        c = m.const()
        if isinstance(d, VecV):
            if c is None:
                raise Unsupported("read of symbolic length to a small container")
            for i in range(int(c)):
                old = I.elem(d, od + i, loc)
                v = cell(P(i))
                I.put(pd.sub(("x", od + i)), ite(ok, v, old) if isinstance(old, Poly) else v, loc)
            return
        if not isinstance(d, ArrV):
            raise Unsupported("read")
        b = fresh("r")
        with with_facts(A.binder_facts([(b, m)])):
            v = cell(ap(b))
        I.put(pd, ArrV(Layer(d.c, False, ((b, m),), ok, od + ap(b), v), d.n, d.sort), loc)

    def stream(self, name, pl, args, ref, e, loc):
        I, p = self.I, self.p
        f = self.peek(pl)
        if isinstance(f, TupleV) and f.items and isinstance(f.items[0], OpaqueV) and f.items[0].what == "file":
            return self.file(name, f, pl, args, ref, e, loc)
        for a, t in zip(args, ref["pt"]):
            self.touch(a, t)
        if name == "str":
            if args:
                return None
            return OpaqueV("string", None)
        if p.types[ref["rt"]]["k"] == "ref":
            return pl
        return self.opaque_result(e, ref)

    # ------------------------------------------------------------ free functions
    def call_fn(self, ref, av, loc):
        """library function called through a function value"""
        av = [self.val(a, loc) for a in av]
        r = self.math(ref["n"], av, ref, loc)
        if r is not None:
            return r
        raise Unsupported("library function value %s" % ref["q"])

    def call_op(self, name, a, loc):
        I = self.I
        n = name.split("::")[-1]
        if n in ("plus", "minus", "multiplies", "divides", "modulus"):
            x, y = I.num(a[0]), I.num(a[1])
            if n != "modulus":
                if I.raw and x.is_int() and y.is_int():
                    raise Unsupported("function object on whole numbers in IEEE mode")
                return I.fop({"plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}[n], x, y)
            return imod(x, y)
        if n == "negate":
            return -I.num(a[0])
        if n in ("greater", "less", "equal_to", "greater_equal", "less_equal", "not_equal_to"):
            return I.compare({"greater": ">", "less": "<", "equal_to": "==", "greater_equal": ">=", "less_equal": "<=", "not_equal_to": "!="}[n], a[0], a[1], loc)
        raise Unsupported("function object %s" % name)

    def math(self, n, a, ref, loc):
        I = self.I
        n = n[10:] if n.startswith("__builtin_") else n
        if n in ("expf", "logf", "sqrtf", "tanhf", "powf", "fabsf", "sinf", "cosf", "log1pf", "expm1f", "fmaxf", "fminf", "floorf", "ceilf", "roundf", "log2f", "log10f", "coshf", "sinhf", "erff", "expl", "logl", "sqrtl"):
            n = n[:-1]
        if not a:
            return None
        if not isinstance(a[0], (Poly, Bool)):
            return None
        x = I.num(a[0])
        if I.raw:
            w = "d" if ref is None or p_width(self.p, ref) == 64 else "f"
            if n in FB.FUNCS and len(a) == 1:
                return fn(w + ":" + n, x)
            if n in ("pow", "hypot", "fmod") and len(a) == 2:
                return fn(w + ":" + n, x, I.num(a[1]))
            if n == "fma":
                return I.fop("+", I.fop("*", x, I.num(a[1]), 64), I.num(a[2]), 64 if w == "d" else 32)
            if n in ("isnan", "isinf", "isfinite"):
                return bnot(T.eq0(fn(w + ":" + n, x, sort="i")))
        if n == "exp":
            return fexp(x)
        if n == "exp2":
            return fexp(x * fn("log", P(2)))
        if n == "expm1":
            return fexp(x) - 1
        if n == "log":
            return fn("log", x)
        if n == "log1p":
            return fn("log", x + 1)
        if n == "log2":
            return fn("log", x) / fn("log", P(2))
        if n == "log10":
            return fn("log", x) / fn("log", P(10))
        if n == "sqrt":
            return fn("sqrt", x)
        if n == "cbrt":
            return power(x, Fraction(1, 3))
        if n == "tanh":
            return std_tanh(x)
        if n == "cosh":
            return (fexp(x) + fexp(-x)) / 2
        if n == "sinh":
            return (fexp(x) - fexp(-x)) / 2
        if n in ("abs", "fabs", "labs", "llabs"):
            if x.is_const():
                return P(abs(x.const()))
            return ite(lt0(x), -x, x)
        if n == "pow":
            y = I.num(a[1])
            c = y.const()
            if c is not None:
                if isinstance(c, int) or c.denominator == 1:
                    c = int(c)
                    if c >= 0:
                        return x.pow(c)
                    return inv(x.pow(-c))
                return power(x, c)
            return fn("pow", x, y)
        if n in ("max", "fmax", "min", "fmin") and len(a) == 2:
            y = I.num(a[1])
            mx = n in ("max", "fmax")
            d = I.facts.decide(lt(x, y))
            if d is True:
                return y if mx else x
            if d is False:
                return x if mx else y
            if x.is_int() and y.is_int():
                d = I.facts.decide(lt(y, x))
                if d is False:
                    return y if mx else x
            return ite(lt(x, y), y, x) if mx else ite(lt(y, x), y, x)
        if n == "clamp" and len(a) == 3:
            lo, hi = I.num(a[1]), I.num(a[2])
            return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
        if n in ("floor", "ceil", "round", "trunc", "rint", "nearbyint"):
            if x.is_int():
                return x
            c = x.const()
            if c is not None:
                import math
                return P(int({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get(n, round)(c)))
            return fn(n, x)
        if n == "isnan":
            return FALSE
        if n == "isinf":
            return FALSE
        if n == "isfinite":
            return TRUE
        if n == "signbit":
            return lt0(x)
        if n == "copysign":
            y = I.num(a[1])
            return ite(lt0(y), -ite(lt0(x), -x, x), ite(lt0(x), -x, x))
        if n == "fma":
            return x * I.num(a[1]) + I.num(a[2])
        if n == "hypot":
            y = I.num(a[1])
            return fn("sqrt", x * x + y * y)
        if n == "fmod":
            return fn("fmod", x, I.num(a[1]))
        if n in ("sin", "cos", "tan", "atan", "asin", "acos", "erf", "erfc", "lgamma", "tgamma", "asinh", "acosh", "atanh"):
            return fn(n, x)
        return None

    def free(self, q, args, ref, e, loc):
        I, p = self.I, self.p
        n = ref["n"]
        pt = ref["pt"]
        short = q.split("::")[-1] if not n.startswith("operator") else n
        if short in ("move", "forward", "as_const") and len(args) == 1:
            return I.lv(args[0])
        if short in ("addressof", "__addressof"):
            return PtrV(I.lv(args[0]))
        if short in ("ref", "cref"):
            v = I.lv(args[0])
            x = self.peek(v)
            if self.q_of(pt[0]) == "std::reference_wrapper":
                return x
            return PtrV(v)
        if n.startswith("operator"):
            return self.operator(n, args, ref, e, loc)
        if short == "make_unique" or short == "make_shared" or short == "make_unique_for_overwrite":
            t = self.targ(ref["rt"], 0)
            ty = p.types[t]
            if ty["k"] == "arr" or ty["k"] == "iarr" or ty["s"].rstrip("0123456789#").endswith("[]"):
                et = ty["to"]
                m = I.num(self.argv(args[0], pt[0]))
                s = p.sort(et)
                if not s:
                    c = m.const()
                    if c is None:
                        raise Unsupported("array of objects")
                    r = I.alloc(VecV([I.default_construct(et, loc) for _ in range(int(c))]))
                else:
                    I.check(lt0(m), "bad-size", loc, "negative array size")
                    r = I.alloc(ArrV(const_arr(0, s) if short != "make_unique_for_overwrite" else Base("undef", "new%d" % next(A._ids), s), m, s))
                return UPtr(PtrV(Place(r), ZERO))
            av, ats = self.eval_args(args, pt)
            x = self.make(t, av, ats, loc)
            r = I.alloc(x)
            return UPtr(PtrV(Place(r))) if short != "make_shared" else PtrV(Place(r))
        if short == "make_optional":
            av, ats = self.eval_args(args, pt)
            return OptV(TRUE, self.make(self.targ(ref["rt"]), av, ats, loc))
        if short in ("make_pair", "make_tuple"):
            ta = p.targs(self.rec_of(ref["rt"]))
            if ta and isinstance(ta[0], list):
                ta = ta[0][1] if ta[0][:1] == ["pack"] else ta[0]
            items = []
            for a, x, t in zip(args, pt, ta):
                av, ats = self.eval_args([a], [x])
                items.append(self.make(t, av, ats, loc))
            return TupleV(items)
        if short in ("tie", "forward_as_tuple"):
            return TupleV([I.lv(a) for a in args])
        if short == "get" and len(args) == 1:
            src = I.lv(args[0])
            ta = ref.get("targs") or []
            idx = int(ta[0][1]) if ta and isinstance(ta[0], list) and ta[0] and ta[0][0] == "i" else None
            v = I.get(src, loc)
            if idx is not None and isinstance(v, TupleV):
                x = v.items[idx]
                return x if isinstance(x, Place) else src.sub(("t", idx))
            if idx is not None and isinstance(v, VecV):
                return src.sub(("x", P(idx)))
            raise Unsupported("std::get")
        if short in ("max", "min") and len(args) == 1 and self.q_of(pt[0]) == "std::initializer_list":
            lst = I.ev(args[0])
            v = I.get(lst.place, loc)
            r = v.items[0]
            for x in v.items[1:]:
                r = self.math(short, [r, x], ref, loc)
            return r
        if short in ("max", "min", "clamp") and len(args) in (2, 3):
            if short == "clamp" or len(args) == 2:
                return self.math(short, [self.argv(a, t) for a, t in zip(args, pt)], ref, loc)
            a, b = self.argv(args[0], pt[0]), self.argv(args[1], pt[1])
            cmp_ = self.argv(args[2], pt[2])
            if short == "max":
                return I.branch(I.call_value(cmp_, [a, b], loc), lambda: b, lambda: a, want=True)
            return I.branch(I.call_value(cmp_, [b, a], loc), lambda: b, lambda: a, want=True)
        if short == "minmax" and len(args) == 2:
            a, b = [self.argv(x, t) for x, t in zip(args, pt)]
            return TupleV([self.math("min", [a, b], ref, loc), self.math("max", [a, b], ref, loc)])
        if short in ("swap", "iter_swap"):
            a, b = I.lv(args[0]), I.lv(args[1])
            if short == "iter_swap":
                a, b = I.deref(I.get(a) if p.types[pt[0]]["k"] == "ref" else I.get(a), loc), I.deref(I.get(b), loc)
            va, vb = I.get(a, loc), I.get(b, loc)
            I.put(a, vb, loc)
            I.put(b, va, loc)
            return None
        if short == "exchange":
            a = I.lv(args[0])
            old = I.get(a, loc)
            av, ats = self.eval_args(args[1:], pt[1:])
            I.put(a, self.make(p.strip(pt[0]), av, ats, loc), loc)
            return old
        if short in ("begin", "cbegin", "end", "cend", "size", "data", "empty") and len(args) == 1 and q.startswith("std::"):
            src = I.lv(args[0])
            v = I.get(src, loc)
            if isinstance(v, PtrVList):
                src = v.place
                v = I.get(src, loc)
            if isinstance(v, StructV):
                for f in p.find_methods(v.rec, short.lstrip("c") if short not in ("size",) else short):
                    return I.call(f, src, [], loc)
            m = self.size(v)
            if short in ("begin", "cbegin", "data"):
                return PtrV(src, ZERO)
            if short in ("end", "cend"):
                return PtrV(src, m)
            return m if short == "size" else eq0(m)
        h = getattr(self, "alg_" + short, None)
        if h is not None and q.startswith("std::"):
            av = []
            for a, t in zip(args, pt):
                k = p.types[t]["k"]
                if k == "ref":
                    av.append(I.get(I.lv(a), a[2]))
                elif k == "rec":
                    r = I.alloc(UNINIT)
                    I.init_place(Place(r), t, a)
                    av.append(I.S.pop(r))
                else:
                    av.append(I.ev(a))
            return h(av, args, ref, e, loc)
        if short in ("__assert_fail", "abort", "terminate", "__assert", "quick_exit", "exit", "_Exit"):
            I.event("abort", TRUE, loc, "%s reached" % short, definite=True)
            raise Dead()
        if short in ("to_string", "setw", "setprecision", "put_time", "getline", "flush", "endl"):
            for a, t in zip(args, pt):
                self.touch(a, t)
            return OpaqueV("string", None) if short == "to_string" else OpaqueV("manip", None)
        if short in ("time", "clock", "rand"):
            for a, t in zip(args, pt):
                self.touch(a, t)
            return fn("clock", P(next(A._ids)), sort="i")
        if short in ("srand",):
            return None
        if short in ("omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads"):
            return unk(short, "i")
        av = []
        ok = all(p.sort(p.strip(t)) for t in pt)
        if ok:
            av = [self.argv(a, t) for a, t in zip(args, pt)]
            r = self.math(short, av, ref, loc)
            if r is not None:
                return r
        if short in ("memcpy", "memmove", "memset", "__builtin_memcpy", "__builtin_memset"):
            return self.memop(short, args, loc)
        raise Unsupported("library function %s at %s" % (q, I.where(loc)))

    def memop(self, short, args, loc):
        I, p = self.I, self.p

        def strip(a):
            while a[0] == "cast" and a[3] in ("BitCast", "NoOp"):
                a = a[4]
            return a
        d = I.ev(strip(args[0]))
        dt = p.types[p.types[strip(args[0])[1]].get("to", 0)]
        sz = {"float": 4, "double": 8}.get(dt["s"].replace("const ", ""), None) or (dt["w"] // 8 if dt["k"] == "int" else None)
        if sz is None:
            raise Unsupported("memory operation")
        nb = I.num(I.ev(args[2]))
        n = nb * Fraction(1, sz)
        if not n.is_int():
            raise Unsupported("partial memory operation")
        if short.endswith("memset"):
            v = I.num(I.ev(args[1]))
            if v is not ZERO:
                raise Unsupported("memset value")
            self.fill_region(d, n, ZERO, loc)
            return d
        s = I.ev(strip(args[1]))
        self.copy_region(s, n, d, loc)
        return d

    # ---- operators
    def operator(self, n, args, ref, e, loc):
        I, p = self.I, self.p
        pt = ref["pt"]
        op = n[8:]
        if op in ("<<", ">>"):
            pl = I.lv(args[0])
            v = self.peek(pl)
            if len(args) > 1:
                self.touch(args[1], pt[1])
            if op == ">>" and len(args) > 1:
                try:
                    tgt = I.lv(args[1])
                    s = p.sort(p.strip(pt[1]))
                    if s:
                        I.put(tgt, unk("input", s) if s != "b" else bunk("input"), loc)
                except Unsupported:
                    pass
            return pl
        vals = []
        pls = []
        for a, t in zip(args, pt):
            if p.types[t]["k"] == "ref":
                pl = I.lv(a)
                pls.append(pl)
                vals.append(I.get(pl, loc))
            else:
                pls.append(None)
                vals.append(I.ev(a))
        vals = [I.get(v, loc) if isinstance(v, Place) else v for v in vals]
        a = vals[0]
        b = vals[1] if len(vals) > 1 else None
        if op in ("==", "!="):
            r = self.equal(a, b, pls, pt, loc)
            return r if op == "==" else bnot(r)
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, PtrV) or isinstance(a, (Poly, Bool)):
                return I.compare(op, a, b, loc)
            if isinstance(a, VecV) and isinstance(b, VecV):
                return self.lex(op, a, b, loc)
        if op in ("+", "-"):
            if isinstance(a, OpaqueV):
                if a.what in ("string", "cstr") and isinstance(b, OpaqueV) and a.data is not None and b.data is not None and b.what in ("string", "cstr"):
                    return OpaqueV("string", a.data + b.data)
                return OpaqueV("string", None)
            if isinstance(b, OpaqueV):
                return OpaqueV("string", None)
            if isinstance(a, PtrV) and isinstance(b, PtrV):
                pa, oa = I.canon_ptr(a)
                pb, ob = I.canon_ptr(b)
                if pa != pb:
                    raise Unsupported("difference of unrelated iterators")
                return (ob - oa) if a.rev else (oa - ob)
            if isinstance(b, PtrV):
                a, b = b, a
            return I.ptr_add(a, I.num(b) if op == "+" else -I.num(b), loc)
        if op == "|":
            return fn("bit|", I.num(a), I.num(b), sort="i")
        raise Unsupported("library operator%s at %s" % (op, I.where(loc)))

    def lex(self, op, a, b, loc):
        I = self.I
        if op in (">", "<="):
            r = self.lex("<", b, a, loc)
            return r if op == ">" else bnot(r)
        if op == ">=":
            return bnot(self.lex("<", a, b, loc))
        r = T.B(len(a.items) < len(b.items))
        for x, y in reversed(list(zip(a.items, b.items))):
            r = bor(lt(x, y), band(eq(x, y), r))
        return r

    def equal(self, a, b, pls, pt, loc):
        I, p = self.I, self.p
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(b, OptV) and not isinstance(a, OptV):
                a, b = b, a
                pls = list(reversed(pls))
                pt = list(reversed(pt))
            if not isinstance(b, OptV):
                if self.q_of(pt[1]) == "std::nullopt_t" or (isinstance(b, OpaqueV) and b.what == "global"):
                    return bnot(a.has)
                if a.val is None:
                    return FALSE
                return band(a.has, self.eqv(a.val, b, loc))
            if a.val is None or b.val is None:
                return band(bnot(a.has), bnot(b.has))
            return bite(a.has, band(b.has, self.eqv(a.val, b.val, loc)), bnot(b.has))
        return self.eqv(a, b, loc)

    def eqv(self, a, b, loc):
        I, p = self.I, self.p
        if isinstance(a, VecV) and isinstance(b, VecV):
            if len(a.items) != len(b.items):
                return FALSE
            return band(*[self.eqv(x, y, loc) for x, y in zip(a.items, b.items)])
        if isinstance(a, (ArrV, VecV)) and isinstance(b, (ArrV, VecV)):
            v = fresh("q")
            n = self.size(a)
            with self.over(v, n):
                ra = a.c.read(ap(v)) if isinstance(a, ArrV) else I.num(I.elem(a, ap(v), loc))
                rb = b.c.read(ap(v)) if isinstance(b, ArrV) else I.num(I.elem(b, ap(v), loc))
                ne = bnot(eq(ra, rb))
            return band(eq(n, self.size(b)), bnot(bexists(v, n, ne)))
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            return I.compare("==", a, b, loc)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return band(*[self.eqv(x, y, loc) for x, y in zip(a.items, b.items)])
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            if a.what == "mapit" and b.what == "mapit":
                return T.B(a.data == b.data)
            if a.what in ("string", "cstr") and b.what in ("string", "cstr"):
                if a.data is not None and b.data is not None:
                    return T.B(a.data == b.data)
                return bunk("string comparison")
            if a.what == "function" or b.what == "function":
                f = a if a.what == "function" else b
                return T.B(f.data is None)
        if isinstance(a, (PtrV, UPtr, Place)) or isinstance(b, (PtrV, UPtr, Place)) or a is NULLP:
            return I.ptr_eq(a, b)
        if isinstance(a, StructV) and isinstance(b, StructV):
            for f in p.find_methods(a.rec, "operator=="):
                x, y = I.alloc(a), I.alloc(b)
                return I.tobool(I.call(f, Place(x), [Place(y)], loc))
        raise Unsupported("library comparison of %s and %s at %s" % (type(a).__name__, type(b).__name__, I.where(loc)))

    # ------------------------------------------------------------ iterators and algorithms
    def it_deref(self, root, loc):
        """place (or value) an iterator stored at root designates"""
        I, p = self.I, self.p
        v = I.S[root]
        if isinstance(v, PtrV):
            return I.deref(v, loc)
        if isinstance(v, OpaqueV) and v.what == "mapit":
            return self.mapit("operator*", Place(root), (), {"pt": []}, None, loc)
        if isinstance(v, StructV):
            for f in p.find_methods(v.rec, "operator*"):
                if not f["params"]:
                    return I.call(f, Place(root), [], loc)
        raise Unsupported("iterator dereference of %s" % type(v).__name__)

    def it_inc(self, root, loc):
        I, p = self.I, self.p
        v = I.S[root]
        if isinstance(v, PtrV):
            I.S[root] = I.ptr_add(v, ONE, loc)
            return
        if isinstance(v, OpaqueV) and v.what == "mapit":
            I.S[root] = OpaqueV("mapit", (v.data[0], v.data[1] + 1))
            return
        if isinstance(v, OpaqueV) and v.what == "back_inserter":
            return
        if isinstance(v, StructV):
            for f in p.find_methods(v.rec, "operator++"):
                if not f["params"]:
                    I.call(f, Place(root), [], loc)
                    return
        raise Unsupported("iterator increment of %s" % type(v).__name__)

    def it_ne(self, ra, rb, loc):
        I, p = self.I, self.p
        a, b = I.S[ra], I.S[rb]
        if isinstance(a, PtrV):
            return bnot(I.ptr_eq(a, b))
        if isinstance(a, OpaqueV):
            return T.B(a.data != b.data)
        if isinstance(a, StructV):
            for nm, neg in (("operator!=", False), ("operator==", True)):
                for f in p.find_methods(a.rec, nm):
                    r = I.tobool(I.call(f, Place(ra), [Place(rb)], loc))
                    return bnot(r) if neg else r
        raise Unsupported("iterator comparison of %s" % type(a).__name__)

    def it_store(self, root, val, loc):
        I = self.I
        v = I.S[root]
        if isinstance(v, OpaqueV) and v.what == "back_inserter":
            pl = v.data
            w = I.get(pl, loc)
            if isinstance(w, VecV):
                I.put(pl, VecV(w.items + (val,), w.sort), loc)
            else:
                I.put(pl, ArrV(write_cell(w.c, w.n, P(val)), w.n + 1, w.sort), loc)
            return
        d = self.it_deref(root, loc)
        if not isinstance(d, Place):
            raise Unsupported("store through a value iterator")
        I.put(d, val, loc)

    def each(self, first, last, others, body, loc, extra=()):
        """for (; first != last; ++first, ++others...) body(roots)"""
        I = self.I
        rs = [I.alloc(first)] + [I.alloc(o) for o in others]
        rl = I.alloc(last)
        ex = [I.alloc(x) for x in extra]

        def inc():
            for r in rs:
                self.it_inc(r, loc)
        I.L.run_loop(I, loc, lambda: self.it_ne(rs[0], rl, loc), lambda: body(rs, ex), inc)
        out = [I.S.pop(r) for r in rs]
        vals = [I.S.pop(r) for r in ex]
        I.S.pop(rl, None)
        return out, vals

    def load_it(self, r, loc):
        d = self.it_deref(r, loc)
        return self.I.load(d, 0, loc) if isinstance(d, Place) else d

    def callf(self, f, av, loc):
        I = self.I
        if isinstance(f, OpaqueV) and f.what == "function":
            return self.fcall(f, av, loc)
        r = I.call_value(f, av, loc)
        return I.get(r, loc) if isinstance(r, Place) else r

    def alg_back_inserter(self, av, args, ref, e, loc):
        return OpaqueV("back_inserter", self.I.lv(args[0]))

    def alg_transform(self, av, args, ref, e, loc):
        I = self.I
        if len(av) == 4:
            first, last, out, f = av

            def body(rs, ex):
                d = self.it_deref(rs[0], loc)
                r = self.callf(f, [d], loc)
                self.it_store(rs[1], self.cast_out(rs[1], r), loc)
            o, _ = self.each(first, last, [out], body, loc)
            return o[1]
        first, last, second, out, f = av

        def body(rs, ex):
            a = self.it_deref(rs[0], loc)
            b = self.it_deref(rs[1], loc)
            r = self.callf(f, [a, b], loc)
            self.it_store(rs[2], self.cast_out(rs[2], r), loc)
        o, _ = self.each(first, last, [second, out], body, loc)
        return o[2]

    def cast_out(self, root, r):
        if isinstance(r, Place):
            r = self.I.get(r)
        return r

    def alg_for_each(self, av, args, ref, e, loc):
        f = av[2]
        self.each(av[0], av[1], [], lambda rs, ex: self.callf_void(f, [self.it_deref(rs[0], loc)], loc), loc)
        return f

    def callf_void(self, f, a, loc):
        if isinstance(f, OpaqueV) and f.what == "function":
            f = f.data
        self.I.call_value(f, a, loc)

    def alg_accumulate(self, av, args, ref, e, loc):
        I, p = self.I, self.p
        f = av[3] if len(av) > 3 else None
        t = p.strip(ref["pt"][2])
        s = p.sort(t)
        init = av[2]
        if s is None:
            raise Unsupported("accumulate of objects")

        def body(rs, ex):
            a = I.S[ex[0]]
            x = self.load_it(rs[0], loc)
            if f is None:
                r = I.fop("+", I.num(a), I.num(x), p.types[t]["w"]) if s == "r" else I.num(a) + I.num(x)
            else:
                r = self.callf(f, [a, x], loc)
            if s == "i":
                r = I.f2i(I.num(r)) if not I.num(r).is_int() else I.num(r)
            I.S[ex[0]] = r
        _, vals = self.each(av[0], av[1], [], body, loc, (self.fit_scalar(init, s),))
        return vals[0]

    alg_reduce = alg_accumulate

    def alg_inner_product(self, av, args, ref, e, loc):
        I = self.I

        def body(rs, ex):
            x, y = I.num(self.load_it(rs[0], loc)), I.num(self.load_it(rs[1], loc))
            I.S[ex[0]] = I.fop("+", I.num(I.S[ex[0]]), I.fop("*", x, y)) if I.raw else I.num(I.S[ex[0]]) + x * y
        if len(av) > 4:
            raise Unsupported("inner_product with functions")
        _, vals = self.each(av[0], av[1], [av[2]], body, loc, (av[3],))
        return vals[0]

    alg_transform_reduce = alg_inner_product

    def bounds(self, pl, off, n, loc, what):
        I = self.I
        v = I.get(pl, loc)
        m = self.size(v)
        bad = band(gt(n, 0), bor(lt0(off), lt(m, off + n)))
        I.check(bad, "oob", loc, "%s of %s elements at offset %s, size %s" % (what, T.poly_str(n, 3), T.poly_str(off, 3), T.poly_str(m, 3)))

    def region(self, it, loc):
        I = self.I
        if isinstance(it, UPtr):
            it = it.p
        if it is NULLP:
            I.check(TRUE, "null-deref", loc, "null range")
        if not isinstance(it, PtrV) or it.rev:
            raise Unsupported("range of %s" % type(it).__name__)
        pl, off = I.canon_ptr(it)
        if off is None:
            off = ZERO
        return pl, off

    def fill_region(self, it, n, val, loc):
        I = self.I
        pl, off = self.region(it, loc)
        if isinstance(I.facts.decide(le(n, 0)), bool) and I.facts.decide(le(n, 0)):
            return PtrV(pl, off)
        v = I.get(pl, loc)
        self.bounds(pl, off, n, loc, "fill")
        if isinstance(v, VecV):
            c, o = n.const(), off.const()
            if c is None or o is None:
                raise Unsupported("fill of symbolic range")
            its = list(v.items)
            for i in range(int(c)):
                its[int(o) + i] = self.fit_scalar(val, v.sort) if v.sort else val
            I.put(pl, VecV(its, v.sort), loc)
            return PtrV(pl, off + n)
        x = P(val) if isinstance(val, (Poly, int)) else ind(val)
        if off is ZERO and n is v.n:
            I.put(pl, ArrV(const_arr(x, v.sort), v.n, v.sort), loc)
        else:
            b = fresh("r")
            I.put(pl, ArrV(Layer(v.c, False, ((b, n),), TRUE, off + ap(b), x), v.n, v.sort), loc)
        return PtrV(pl, off + n)

    def alg_fill(self, av, args, ref, e, loc):
        a, b, x = av
        if not isinstance(a, (PtrV, UPtr)):
            self.each(a, b, [], lambda rs, ex: self.it_store(rs[0], x, loc), loc)
            return None
        pa, oa = self.I.canon_ptr(a)
        pb, ob = self.I.canon_ptr(b)
        if pa != pb:
            raise Unsupported("fill over different objects")
        self.fill_region(PtrV(pa, oa), ob - oa, x, loc)
        return None

    def alg_fill_n(self, av, args, ref, e, loc):
        a, n, x = av
        return self.fill_region(a, self.I.num(n), x, loc)

    def copy_region(self, src, n, dst, loc):
        I = self.I
        ps, os_ = self.region(src, loc)
        pd, od = self.region(dst, loc)
        if I.facts.decide(le(n, 0)) is True:
            return PtrV(pd, od)
        self.bounds(ps, os_, n, loc, "copy from")
        self.bounds(pd, od, n, loc, "copy to")
        s = I.get(ps, loc)
        d = I.get(pd, loc)
        c = n.const()
        if isinstance(s, VecV) and c is not None and not (c > 16 and isinstance(d, ArrV)):
            xs = [I.elem(s, os_ + i, loc) for i in range(int(c))]
            for i, x in enumerate(xs):
                I.put(pd.sub(("x", od + i)), x, loc)
            return PtrV(pd, od + n)
        if isinstance(d, VecV):
            if c is None:
                raise Unsupported("copy of symbolic length to a small container")
            for i in range(int(c)):
                I.put(pd.sub(("x", od + i)), I.elem(s, os_ + i, loc), loc)
            return PtrV(pd, od + n)
        if isinstance(s, VecV):
            # symbolic count from a literal list
            m = len(s.items)
            s = self.to_arr(s, d.sort)
        if not isinstance(s, ArrV) or not isinstance(d, ArrV):
            raise Unsupported("copy")
        if os_ is ZERO and od is ZERO and n is d.n and n is s.n:
            I.put(pd, ArrV(s.c, d.n, d.sort), loc)
        else:
            b = fresh("r")
            with with_facts(A.binder_facts([(b, n)])):
                x = s.c.read(os_ + ap(b))
            I.put(pd, ArrV(Layer(d.c, False, ((b, n),), TRUE, od + ap(b), x), d.n, d.sort), loc)
        return PtrV(pd, od + n)

    def alg_copy(self, av, args, ref, e, loc):
        a, b, d = av
        if isinstance(a, PtrV) and not a.rev and isinstance(d, (PtrV, UPtr)) and not getattr(d, "rev", False):
            pa, oa = self.I.canon_ptr(a)
            pb, ob = self.I.canon_ptr(b)
            if pa != pb:
                raise Unsupported("copy over different objects")
            v = self.I.get(pa, loc)
            if not (isinstance(v, VecV) and v.items and not isinstance(v.items[0], (Poly, Bool))):
                return self.copy_region(PtrV(pa, oa if oa is not None else ZERO), ob - (oa if oa is not None else ZERO), d, loc)
        o, _ = self.each(a, b, [d], lambda rs, ex: self.it_store(rs[1], self.load_it(rs[0], loc), loc), loc)
        return o[1]

    alg_move = alg_copy

    def alg_copy_n(self, av, args, ref, e, loc):
        return self.copy_region(av[0], self.I.num(av[1]), av[2], loc)

    def alg_reverse(self, av, args, ref, e, loc):
        I = self.I
        a, b = av
        pl, oa = self.region(a, loc)
        _, ob = self.region(b, loc)
        v = I.get(pl, loc)
        ca, cb = oa.const(), ob.const()
        if isinstance(v, VecV) and ca is not None and cb is not None:
            its = list(v.items)
            its[int(ca):int(cb)] = reversed(its[int(ca):int(cb)])
            I.put(pl, VecV(its, v.sort), loc)
            return None
        if isinstance(v, ArrV):
            n = ob - oa
            self.bounds(pl, oa, n, loc, "reverse")
            x = fresh("r")
            with with_facts(A.binder_facts([(x, n)])):
                y = v.c.read(ob - 1 - ap(x))
            I.put(pl, ArrV(Layer(v.c, False, ((x, n),), TRUE, oa + ap(x), y), v.n, v.sort), loc)
            return None
        raise Unsupported("reverse")

    def alg_sort(self, av, args, ref, e, loc):
        I = self.I
        a, b = av[0], av[1]
        pl, oa = self.region(a, loc)
        _, ob = self.region(b, loc)
        v = I.get(pl, loc)
        if not isinstance(v, VecV):
            raise Unsupported("sort of symbolic container")
        its = list(v.items)
        f = av[2] if len(av) > 2 else OpV("std::less")
        import functools

        def lessp(x, y):
            r = I.tobool(self.callf(f, [x, y], loc))
            d = I.decide(r)
            if d is None:
                raise Split(r)
            return d
        ca, cb = int(oa.const()), int(ob.const())
        sub = its[ca:cb]
        # insertion sort with the given order
        out = []
        for x in sub:
            j = len(out)
            while j > 0 and lessp(x, out[j - 1]):
                j -= 1
            out.insert(j, x)
        its[ca:cb] = out
        I.put(pl, VecV(its, v.sort), loc)
        return None

    alg_stable_sort = alg_sort

    def alg_unique(self, av, args, ref, e, loc):
        I = self.I
        pl, oa = self.region(av[0], loc)
        _, ob = self.region(av[1], loc)
        v = I.get(pl, loc)
        if not isinstance(v, VecV):
            raise Unsupported("unique")
        ca, cb = int(oa.const()), int(ob.const())
        out = []
        for x in v.items[ca:cb]:
            if out:
                d = I.decide(self.eqv(out[-1], x, loc))
                if d is None:
                    raise Unsupported("unique of symbolic values")
                if d:
                    continue
            out.append(x)
        its = list(v.items)
        its[ca:ca + len(out)] = out
        I.put(pl, VecV(its, v.sort), loc)
        return PtrV(pl, P(ca + len(out)))

    def alg_find(self, av, args, ref, e, loc):
        return self.find_generic(av, lambda x: self.eqv(x, av[2], loc), loc)

    def alg_find_if(self, av, args, ref, e, loc):
        return self.find_generic(av, lambda x: self.I.tobool(self.callf(av[2], [x], loc)), loc)

    def alg_find_if_not(self, av, args, ref, e, loc):
        return self.find_generic(av, lambda x: bnot(self.I.tobool(self.callf(av[2], [x], loc))), loc)

    def find_generic(self, av, pred, loc):
        I = self.I
        pl, oa = self.region(av[0], loc)
        _, ob = self.region(av[1], loc)
        v = I.get(pl, loc)
        n = (ob - oa).const()
        if n is not None:
            r = ob
            for i in range(int(n) - 1, -1, -1):
                r = ite(I.facts.simp(pred(I.elem(v, oa + i, loc))), oa + i, r)
            return PtrV(pl, r)
        b = fresh("f")
        with self.over(b, ob - oa):
            c = pred(I.elem(v, oa + ap(b), loc))
        E = bexists(b, ob - oa, c)
        j = mk_max(b, ob - oa, ind(c), "amax")
        return PtrV(pl, ite(E, oa + j, ob))

    def quant(self, av, loc, pred):
        I = self.I
        a = av[0]
        if isinstance(a, PtrV) and not a.rev:
            pl, oa = self.region(a, loc)
            _, ob = self.region(av[1], loc)
            v = I.get(pl, loc)
            n = (ob - oa).const()
            if n is not None:
                return bor(*[pred(I.elem(v, oa + i, loc)) for i in range(int(n))])
            b = fresh("q")
            with self.over(b, ob - oa):
                c = pred(I.elem(v, oa + ap(b), loc))
            return bexists(b, ob - oa, c)
        raise Unsupported("quantified algorithm")

    def alg_any_of(self, av, args, ref, e, loc):
        return self.quant(av, loc, lambda x: self.I.tobool(self.callf(av[2], [x], loc)))

    def alg_all_of(self, av, args, ref, e, loc):
        return bnot(self.quant(av, loc, lambda x: bnot(self.I.tobool(self.callf(av[2], [x], loc)))))

    def alg_none_of(self, av, args, ref, e, loc):
        return bnot(self.alg_any_of(av, args, ref, e, loc))

    def alg_count_if(self, av, args, ref, e, loc):
        I = self.I

        def body(rs, ex):
            c = I.tobool(self.callf(av[2], [self.load_it(rs[0], loc)], loc))
            I.S[ex[0]] = I.S[ex[0]] + ind(c)
        _, v = self.each(av[0], av[1], [], body, loc, (ZERO,))
        return v[0]

    def alg_count(self, av, args, ref, e, loc):
        I = self.I

        def body(rs, ex):
            I.S[ex[0]] = I.S[ex[0]] + ind(self.eqv(self.load_it(rs[0], loc), av[2], loc))
        _, v = self.each(av[0], av[1], [], body, loc, (ZERO,))
        return v[0]

    def alg_equal(self, av, args, ref, e, loc):
        I = self.I
        if len(av) == 4 and isinstance(av[3], PtrV):
            pa, oa = self.region(av[0], loc)
            _, ob = self.region(av[1], loc)
            pc, oc = self.region(av[2], loc)
            _, od = self.region(av[3], loc)
            c = eq(ob - oa, od - oc)
            d = I.decide(c)
            if d is False:
                return FALSE
            n = ob - oa
        else:
            pa, oa = self.region(av[0], loc)
            _, ob = self.region(av[1], loc)
            pc, oc = self.region(av[2], loc)
            n = ob - oa
            c = TRUE
        va, vb = I.get(pa, loc), I.get(pc, loc)
        pr = (lambda x, y: self.eqv(x, y, loc)) if len(av) == 3 or (len(av) == 4 and isinstance(av[3], PtrV)) else (lambda x, y: I.tobool(self.callf(av[-1], [x, y], loc)))
        k = n.const()
        if k is not None:
            return band(c, *[pr(I.elem(va, oa + i, loc), I.elem(vb, oc + i, loc)) for i in range(int(k))])
        if c is TRUE:
            self.bounds(pc, oc, n, loc, "comparison")
        b = fresh("q")
        with self.over(b, n):
            x = bnot(pr(I.elem(va, oa + ap(b), loc), I.elem(vb, oc + ap(b), loc)))
        return band(c, bnot(bexists(b, n, x)))

    def extremum(self, av, loc, kind):
        I = self.I
        pl, oa = self.region(av[0], loc)
        _, ob = self.region(av[1], loc)
        v = I.get(pl, loc)
        n = ob - oa
        if len(av) > 2:
            raise Unsupported("max_element with comparator")
        c = n.const()
        if c is not None and c == 0:
            return PtrV(pl, ob)
        if I.raw and c is not None and 0 < c <= 8:
            xs = [I.num(I.elem(v, oa + i, loc)) for i in range(int(c))]
            j, m = ZERO, xs[0]
            for i in range(1, len(xs)):
                b = lt(m, xs[i]) if kind == "max" else lt(xs[i], m)
                j, m = ite(b, P(i), j), ite(b, xs[i], m)
            return PtrV(pl, oa + j)
        b = fresh("m")
        with self.over(b, n):
            x = I.num(I.elem(v, oa + ap(b), loc))
        j = mk_max(b, n, x if kind == "max" else -x, "amax")
        if I.facts.nonneg(n - 1):
            return PtrV(pl, oa + j)
        return PtrV(pl, ite(eq0(n), ob, oa + j))

    def alg_max_element(self, av, args, ref, e, loc):
        return self.extremum(av, loc, "max")

    def alg_min_element(self, av, args, ref, e, loc):
        return self.extremum(av, loc, "min")

    def alg_iota(self, av, args, ref, e, loc):
        I = self.I
        pl, oa = self.region(av[0], loc)
        _, ob = self.region(av[1], loc)
        v = I.get(pl, loc)
        n = ob - oa
        if isinstance(v, VecV):
            its = list(v.items)
            for i in range(int(n.const())):
                its[int(oa.const()) + i] = av[2] + i
            I.put(pl, VecV(its, v.sort), loc)
            return None
        b = fresh("r")
        self.bounds(pl, oa, n, loc, "iota")
        I.put(pl, ArrV(Layer(v.c, False, ((b, n),), TRUE, oa + ap(b), av[2] + ap(b)), v.n, v.sort), loc)
        return None

    def alg_distance(self, av, args, ref, e, loc):
        pa, oa = self.I.canon_ptr(av[0])
        pb, ob = self.I.canon_ptr(av[1])
        if pa != pb:
            raise Unsupported("distance")
        return ob - oa if not av[0].rev else oa - ob

    def alg_next(self, av, args, ref, e, loc):
        return self.I.ptr_add(av[0], self.I.num(av[1]) if len(av) > 1 else ONE, loc)

    def alg_prev(self, av, args, ref, e, loc):
        return self.I.ptr_add(av[0], -(self.I.num(av[1]) if len(av) > 1 else ONE), loc)

    def alg_advance(self, av, args, ref, e, loc):
        I = self.I
        pl = I.lv(args[0])
        I.put(pl, I.ptr_add(av[0], I.num(av[1]), loc), loc)
        return None

    def alg_generate(self, av, args, ref, e, loc):
        f = av[2]
        r = self.I.alloc(f)
        self.each(av[0], av[1], [], lambda rs, ex: self.it_store(rs[0], self.callf(f, [], loc), loc), loc)
        return None

    def alg_generate_n(self, av, args, ref, e, loc):
        a, n, f = av
        return self.alg_generate([a, self.I.ptr_add(a, self.I.num(n), loc), f], args, ref, e, loc)

    def alg_swap_ranges(self, av, args, ref, e, loc):
        raise Unsupported("swap_ranges")

    def alg_partial_sum(self, av, args, ref, e, loc):
        I = self.I
        pl, oa = self.region(av[0], loc)
        _, ob = self.region(av[1], loc)
        v = I.get(pl, loc)
        pd, od = self.region(av[2], loc)
        n = (ob - oa).const()
        if n is None:
            raise Unsupported("partial_sum")
        f = av[3] if len(av) > 3 else OpV("std::plus")
        acc = None
        for i in range(int(n)):
            x = I.elem(v, oa + i, loc)
            acc = x if acc is None else self.callf(f, [acc, x], loc)
            I.put(pd.sub(("x", od + i)), acc, loc)
        return PtrV(pd, od + int(n))
