"""C01-C08: tensor algebra"""
from props import spec
from harness import Case, K, PROVED, AGREED, UNDECIDED, VIOLATED
from fractions import Fraction
from terms import *
import terms as T
from arrays import Base

NAMES = "NMKLQ"


def el(name, i, sort="r"):
    return ap(mk_atom("el", (Base("sym", name, sort), P(i)), sort))


def flat(dims, ix):
    r = ZERO
    for d, i in zip(dims, ix):
        r = r * d + i
    return r


def total(dims):
    r = ONE
    for d in dims:
        r = r * d
    return r


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x * power(y, -1)}


def bdim(k, pre, n):
    return [k.dim("%s%d" % (pre, i)) for i in range(n)]


def bread(name, dims, ix):
    """element of a broadcast operand at the result index"""
    own = ix[len(ix) - len(dims):]
    return el(name, flat(dims, [ZERO if d is ONE else i for d, i in zip(dims, own)]))


def patterns(r, s, tier):
    """per aligned dimension (from the right): 'e' equal, 'a' left is 1, 'b' right is 1, 'o' both 1"""
    import itertools
    m = min(r, s)
    allp = list(itertools.product("eab", repeat=m))
    if tier == "quick" and len(allp) > 9:
        keep = [p for i, p in enumerate(allp) if len(set(p)) == 1 or p in (("e", "a") * 2, ("a", "b") * 2, ("b", "e", "e"), ("e", "b", "a"), ("e", "e", "a"), ("a", "e", "e"), ("e", "b", "e"), ("b", "e", "e", "a"), ("e", "a", "e", "e"))]
        allp = keep
    allp.append(("o",) * m)
    return allp


def c01_cases(tier):
    out = []
    pairs = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (4, 4), (4, 1), (1, 4), (2, 4), (4, 2), (3, 4), (4, 3)]
    for r, s in pairs:
        for j, pt in enumerate(patterns(r, s, tier)):
            for o, (op, f) in enumerate(OPS.items()):
                if tier == "quick" and r * s > 2 and (j + o + r + s) % 2 and not (r == s == 2):
                    continue
                cfg = {}
                names = iter("NMKLQRST")
                lo = {}
                R = max(r, s)
                res = []
                for d in range(R):          # from the left of the result
                    i, jx = d - (R - r), d - (R - s)
                    n = next(names)
                    lo[n] = 1
                    if i >= 0 and jx >= 0:
                        c = pt[len(pt) - 1 - (R - 1 - d)]
                        cfg["a%d" % i] = 1 if c in "ao" else n
                        cfg["b%d" % jx] = 1 if c in "bo" else n
                        if c in "ab":
                            lo[n] = 2
                        res.append(1 if c == "o" else n)
                    elif i >= 0:
                        cfg["a%d" % i] = n
                        res.append(n)
                    else:
                        cfg["b%d" % jx] = n
                        res.append(n)

                def check(k, r=r, s=s, f=f, res=res):
                    k.returns()
                    a, b = bdim(k, "a", r), bdim(k, "b", s)
                    sh = []
                    for d in range(max(r, s)):
                        i, jx = d - (max(r, s) - r), d - (max(r, s) - s)
                        x = a[i] if i >= 0 else ONE
                        y = b[jx] if jx >= 0 else ONE
                        sh.append(y if x is ONE else x)
                    k.tensor("c", sh, lambda *ix: f(bread("a", a, ix), bread("b", b, ix)))
                out.append(Case("%s/%d-%d/%s" % (op, r, s, "".join(pt)), "%s_%d_%d" % (op, r, s), cfg, check, lo=lo, unit="c01.cpp"))
    # incompatible operands
    bad = [(1, 1, [("a0", "b0")]), (2, 2, [("a0", "b0")]), (2, 2, [("a1", "b1")]), (1, 2, [("a0", "b1")]), (2, 1, [("a1", "b0")]), (3, 3, [("a1", "b1")]), (3, 2, [("a1", "b0")]), (2, 3, [("a0", "b1")])]
    for r, s, mism in bad:
        for op in OPS:
            cfg = {}
            lo = {}
            R = max(r, s)
            for d in range(R):
                i, jx = d - (R - r), d - (R - s)
                n = "NMKL"[d]
                lo[n] = 1
                if i >= 0:
                    cfg["a%d" % i] = n
                if jx >= 0:
                    cfg["b%d" % jx] = n
            x, y = mism[0]
            m = cfg[x]
            cfg[y] = "W"
            lo[m] = 2
            lo["W"] = 2

            def facts(k, x=x, y=y):
                return [bnot(eq(k.dim(x), k.dim(y)))]
            out.append(Case("%s/%d-%d/mismatch-%s" % (op, r, s, x), "%s_%d_%d" % (op, r, s), cfg, lambda k: k.throws(), lo=lo, facts=facts, unit="c01.cpp", instances=[{"N": 2, "M": 3, "K": 2, "L": 2, "W": 5}, {"N": 3, "M": 2, "K": 4, "L": 2, "W": 6}]))
    return out


spec("C01", "For each operator, each pair of ranks up to 4 and each pattern of equal / size-1 dimensions, the abstract interpreter derives the result tensor of a witness call as a function of symbolic dimension sizes and operand elements (loops summarised by recurrence solving, branches joined) and compares it with the broadcast definition; mismatching sizes must end in an exception on every path.")(c01_cases)


# ------------------------------------------------------------------ C02
def arith_cfg(r, s, pt, names="NMKLQRST"):
    """dims of a (rank r) and b (rank s): per aligned dimension from the right e/a/b/o"""
    cfg, lo = {}, {}
    R = max(r, s)
    for d in range(R):
        i, j = d - (R - r), d - (R - s)
        n = names[d]
        lo[n] = 1
        if i >= 0 and j >= 0:
            c = pt[len(pt) - 1 - (R - 1 - d)]
            cfg["a%d" % i] = 1 if c in "ao" else n
            cfg["b%d" % j] = 1 if c in "bo" else n
            if c in "ab":
                lo[n] = 2
        elif i >= 0:
            cfg["a%d" % i] = n
        else:
            cfg["b%d" % j] = n
    return cfg, lo


def ranked(pre, r, names="NMKL"):
    return {"%s%d" % (pre, i): names[i] for i in range(r)}


def c02_cases(tier):
    import itertools
    out = []
    U = "c02.cpp"
    EQ = {"addeq": OPS["add"], "subeq": OPS["sub"], "muleq": OPS["mul"], "diveq": OPS["div"]}
    for r, s in [(1, 1), (2, 2), (2, 1), (3, 3), (3, 1), (3, 2), (4, 4), (4, 2)]:
        m = min(r, s)
        pts = list(itertools.product("eb", repeat=m))
        if tier == "quick" and m > 2:
            pts = [p for p in pts if p in (("e",) * m, ("b",) * m, ("e", "b", "e"), ("b", "e", "b"), ("b", "e", "e", "b"), ("e", "b", "e", "e"))]
        for pt in pts:
            for o, (op, f) in enumerate(EQ.items()):
                if tier == "quick" and m > 2 and pt.count("b") not in (0, m) and o % 2:
                    continue
                cfg, lo = arith_cfg(r, s, pt)

                def check(k, r=r, s=s, f=f):
                    k.returns()
                    a, b = bdim(k, "a", r), bdim(k, "b", s)
                    k.tensor("c", a, lambda *ix: f(el("a", flat(a, ix)), bread("b", b, ix)))
                    k.tensor("b", b, lambda *ix: el("b", flat(b, ix)), what="right operand")
                out.append(Case("%s/%d-%d/%s" % (op, r, s, "".join(pt)), "%s_%d_%d" % (op, r, s), cfg, check, lo=lo, unit=U))
    # a right operand that would enlarge the left one
    big = [(1, 2, {"a0": "N", "b0": "M", "b1": "N"}, ["M"]), (1, 1, {"a0": 1, "b0": "N"}, ["N"]), (2, 2, {"a0": 1, "a1": "N", "b0": "M", "b1": "N"}, ["M"]), (2, 2, {"a0": "N", "a1": 1, "b0": "N", "b1": "M"}, ["M"]),
           (2, 2, {"a0": "N", "a1": 1, "b0": 1, "b1": "M"}, ["M"]), (3, 3, {"a0": "N", "a1": 1, "a2": "K", "b0": "N", "b1": "M", "b2": "K"}, ["M"]), (1, 2, {"a0": 1, "b0": "M", "b1": "N"}, ["M", "N"])]
    for j, (r, s, cfg, ge2) in enumerate(big):
        for op in EQ:
            out.append(Case("%s/%d-%d/enlarge%d" % (op, r, s, j), "%s_%d_%d" % (op, r, s), cfg, lambda k: k.throws(), lo={v: (2 if v in ge2 else 1) for v in cfg.values() if isinstance(v, str)}, unit=U))
    for op, f in {"addself": lambda x: 2 * x, "subself": lambda x: ZERO, "mulself": lambda x: x * x, "divself": lambda x: ONE}.items():
        for r in (1, 2, 3):
            def check(k, r=r, f=f):
                k.returns()
                a = bdim(k, "a", r)
                k.tensor("c", a, lambda *ix: f(el("a", flat(a, ix))))
            out.append(Case("%s/%d" % (op, r), "%s_%d" % (op, r), ranked("a", r), check, unit=U))
    s_ = lambda: ap(symatom("s", "r"))
    one = {"scalar": {"add": lambda x: x + s_(), "sub": lambda x: x - s_(), "mul": lambda x: x * s_(), "radd": lambda x: x + s_(), "rsub": lambda x: s_() - x, "rmul": lambda x: x * s_(), "rdiv": lambda x: s_() * power(x, -1), "neg": lambda x: -x, "a": lambda x: x},
           "sqrt": {"c": lambda x: power(x, Fraction(1, 2)), "a": lambda x: x},
           "sdiv": {"c": lambda x: x * power(s_(), -1), "a": lambda x: x},
           "sadd": {"c": lambda x: x + s_()}, "ssub": {"c": lambda x: x - s_()}, "smul": {"c": lambda x: x * s_()}, "sdiveq": {"c": lambda x: x * power(s_(), -1)},
           "apply": {"free": lambda x: x * x * x + s_() * x, "self": lambda x: x * x * x + s_() * x, "a": lambda x: x},
           "recip": {"c": lambda x: ite(lt(Fraction(1, 10**12), ite(lt(x, 0), -x, x)), power(x, -1), P(10**12)), "e": lambda x: ite(lt(s_(), ite(lt(x, 0), -x, x)), power(x, -1), power(s_(), -1))}}
    for sc, outs in one.items():
        for r in (1, 2, 3, 4):
            def check(k, r=r, outs=outs, sc=sc):
                k.returns()
                a = bdim(k, "a", r)
                for nm, f in outs.items():
                    k.tensor(nm, a, lambda *ix: f(el("a", flat(a, ix))))
                if sc == "apply":
                    k.tensor("pair", a, lambda *ix: el("a", flat(a, ix)) * el("a", flat(a, ix)) - el("k", flat(a, ix)))
                    k.boolean("same", TRUE)
            out.append(Case("%s/%d" % (sc, r), "%s_%d" % (sc, r), ranked("a", r), check, unit=U, domain={"a": "pos"} if sc == "sqrt" else {}))
    for r in (1, 2, 3, 4):
        out.append(Case("div-by-zero/%d" % r, "sdiv0_%d" % r, ranked("a", r), lambda k: k.throws(), unit=U))
        out.append(Case("diveq-by-zero/%d" % r, "sdiveq0_%d" % r, ranked("a", r), lambda k: k.throws(), unit=U))
    out.append(Case("pair/mismatch0", "pairbad", {"a0": "N", "a1": "M", "b0": "W", "b1": "M"}, lambda k: k.throws(), facts=lambda k: [bnot(eq(k.dim("a0"), k.dim("b0")))], unit=U))
    out.append(Case("pair/mismatch1", "pairbad", {"a0": "N", "a1": "M", "b0": "N", "b1": "W"}, lambda k: k.throws(), facts=lambda k: [bnot(eq(k.dim("a1"), k.dim("b1")))], unit=U))
    return out


spec("C02", "Each compound, scalar and unary operator is applied to tensors of symbolic size; the derived element function is compared with the operator's definition on every element, the right operand must be unchanged, self-assignment forms included; enlarging operands and scalar zero divisors must end in an exception on every path.")(c02_cases)


# ------------------------------------------------------------------ C03
def isym(n):
    return ap(symatom(n, "i"))


def rsym(n):
    return ap(symatom(n, "r"))


def inrange(k, *pairs):
    """facts 0 <= p < n (the lower bound comes from lo)"""
    return [lt(P(p), P(n)) for p, n in pairs]


def wr(f, dims):
    """cells of f with flat cell p overwritten by v"""
    return lambda *ix: ite(eq(flat(dims, ix), isym("p")), rsym("v"), f(*ix))


def c03_cases(tier):
    out = []
    U = "c03.cpp"
    dims3 = {"a0": "N", "a1": "M", "b0": "K", "b1": "L", "b2": "Q", "c0": "S", "p": "p"}

    def A(k, nm="a", n=2, pre=None):
        d = bdim(k, pre or nm, n)
        return d, (lambda *ix: el(nm, flat(d, ix)))

    def simple(name, written, other, extra=(), cfg=None, size=None):
        def check(k):
            k.returns()
            d, f = A(k)
            for o in written:
                k.tensor(o, d, wr(f, d))
            for o in other:
                k.tensor(o, d, f)
        c = cfg or dims3
        out.append(Case(name, name, c, check, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))
    simple("copy_dst", ["b"], ["a"])
    simple("copy_src", ["a"], ["b"])
    simple("assign_dst", ["b"], ["a"])
    simple("assign_src", ["a"], ["b"])
    simple("assign_self", [], ["a", "b"])
    simple("assign_chain", ["b"], ["a", "c"])
    for n in ("from_array", "from_array_mut", "from_vector", "from_vector_move", "reshape_free", "apply_free", "op_scalar", "op_tensor", "move_from_data", "param"):
        simple(n, ["b"], ["a"])
    simple("op_src", ["a"], ["b"])

    def data_copy(k):
        k.returns()
        d, f = A(k)
        k.tensor("a", d, f)
        k.tensor("b", d, wr(f, d))
    out.append(Case("data_copy", "data_copy", dims3, data_copy, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))
    out.append(Case("data_assign", "data_assign", {"a0": "N", "a1": "M", "b0": "K", "p": "p"}, data_copy, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))
    for n in ("slice_dst", "slice_src"):
        def check(k, n=n):
            k.returns()
            d, f = A(k)
            row = lambda j: el("a", k.dim("q") * d[1] + j)
            if n == "slice_dst":
                k.tensor("a", d, f)
                k.tensor("b", [d[1]], lambda j: ite(eq(j, isym("p")), rsym("v"), row(j)))
            else:
                k.tensor("a", d, wr(f, d))
                k.tensor("b", [d[1]], row)
        out.append(Case(n, n, {"a0": "N", "a1": "M", "p": "p", "q": "q"}, check, lo={"p": 0, "q": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), k.dim("a1")), (k.dim("q"), k.dim("a0")))))

    def tr(k):
        k.returns()
        d, f = A(k)
        k.tensor("a", d, f)
        k.tensor("b", [d[1], d[0]], wr(lambda i, j: f(j, i), [d[1], d[0]]))
    out.append(Case("transpose_dst", "transpose_dst", {"a0": "N", "a1": "M", "p": "p"}, tr, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))

    def only_a(k):
        k.returns()
        d, f = A(k)
        k.tensor("a", d, f)
        if "b" in k.R.outs:
            d, f = A(k, "b")
            k.tensor("b", d, f)
    for n, dim in (("sum_dst", "a1"), ("mean_dst", "a1")):
        out.append(Case(n, n, {"a0": "N", "a1": "M", "p": "p"}, only_a, lo={"p": 0, "N": 2}, unit=U, facts=lambda k, dim=dim: inrange(k, (k.dim("p"), k.dim(dim)))))
    out.append(Case("matmul_dst", "matmul_dst", {"a0": "N", "a1": "M", "b0": "M", "b1": "K", "p": "p"}, only_a, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), k.dim("a0") * k.dim("b1")))))

    def moved(k):
        k.returns()
        d, f = A(k)
        k.tensor("b", d, f, what="move target")
        k.tensor("b2", d, f, what="move target after writing the reassigned source")
        k.tensor("a2", d, wr(f, d), what="reassigned source")
    for n in ("move_ctor", "move_assign"):
        out.append(Case(n, n, dims3, moved, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))

    def si(k):
        k.returns()
        d, f = A(k)
        k.tensor("a", d, f)
        k.tensor("b", [d[1], d[0]], lambda i, j: ite(eq(i * d[0] + j, isym("p")), rsym("v"), el("a", i * d[0] + j)))
    out.append(Case("shape_indep", "shape_indep", {"a0": "N", "a1": "M", "p": "p"}, si, lo={"p": 0}, unit=U, facts=lambda k: inrange(k, (k.dim("p"), total(bdim(k, "a", 2))))))
    return out


spec("C03", "Every way of obtaining a tensor from another (copy, assignment, construction from storage, arrays and vectors, reshape, slice, arithmetic, reductions, moves, by-value parameters) is followed by a write to an arbitrary cell of one object; the derived contents of both objects must show the write in exactly one of them. Storage is tracked by allocation site, so sharing is visible as aliasing.")(c03_cases)


# ------------------------------------------------------------------ C04
def c04_cases(tier):
    out = []
    U = "c04.cpp"

    def shp(k, p, dims):
        dims = [P(d) for d in dims]
        k.ints(p + ".dims", dims)
        st = [total(dims[i + 1:]) for i in range(len(dims))]
        k.ints(p + ".stride", st)
        k.real(p + ".size", total(dims))
        k.real(p + ".rank", P(len(dims)))

    nm = "NMKLQ"
    ext = "STUVW"
    D = lambda n: {"d%d" % i: nm[i] for i in range(n)}
    Ed = lambda n: {"e%d" % i: ext[i] for i in range(n)}
    for n in range(1, 6):
        def check(k, n=n):
            k.returns()
            shp(k, "s", bdim(k, "d", n))
            if n == 3:
                for i in range(3):
                    k.real("i%d" % i, k.dim("d%d" % i))
        out.append(Case("ctor/%d" % n, "ctor_%d" % n, D(n), check, unit=U))

    def vc(k):
        k.returns()
        d = bdim(k, "d", 3)
        shp(k, "s", d)
        k.ints("v", d)
    out.append(Case("ctor/vector", "vector_ctor", D(3), vc, unit=U))

    def cp(k):
        k.returns()
        d = bdim(k, "d", 3)
        for p in ("s", "x", "y", "w", "s2"):
            shp(k, p, d)
        shp(k, "x2", [d[0] * d[1], d[2]])
    out.append(Case("copies", "copies", {**D(3), **Ed(2)}, cp, unit=U))

    # reshape to a list with the same product
    def rs(name, nd, ne):
        def check(k):
            k.returns()
            shp(k, "s", bdim(k, "e", ne))
        # with the equality as a fact
        out.append(Case(name + "/equal", name, {**D(nd), **Ed(ne)}, check, unit=U, facts=lambda k: [eq(total(bdim(k, "d", nd)), total(bdim(k, "e", ne)))],
                        instances=[{**{nm[i]: 1 for i in range(nd)}, **{ext[i]: 1 for i in range(ne)}}] + same_product(nm[:nd], ext[:ne])))
        out.append(Case(name + "/different", name, {**D(nd), **Ed(ne)}, lambda k: k.throws(), unit=U, facts=lambda k: [bnot(eq(total(bdim(k, "d", nd)), total(bdim(k, "e", ne))))]))

    # reshapes whose products agree by construction
    mul = lambda *ns: (lambda k: total([ap(symatom(x, "i")) for x in ns]))
    for j, (src, dst) in enumerate([("NM K", "N MK"), ("N M", "NM 1"), ("N M", "1 NM"), ("N M", "M N"), ("NM K L", "N K ML"), ("N M K", "NMK 1 1"), ("N M K", "1 N MK"),
                                    ("N M K", "K N M"), ("N MK", "N M K"), ("N M KL", "N 1 MK L"), ("NM K L", "N M K L"), ("N M K L", "L K M N"), ("N M K L", "NMKL 1 1 1"),
                                    ("N M K L", "1 1 NM KL"), ("N M K L", "NM KL"), ("N M K L", "NMKL"), ("NMK", "N M K"), ("NM", "N M"), ("N", "1 N"), ("N", "N 1"), ("N", "N"), ("N M K", "N M K")]):
        a, b = src.split(), dst.split()
        cfg = {"x" + n: n for n in "NMKL" if n in src}
        g = lambda t: 1 if t == "1" else mul(*t) if len(t) > 1 else t
        cfg.update({"d%d" % i: g(t) for i, t in enumerate(a)})
        cfg.update({"e%d" % i: g(t) for i, t in enumerate(b)})

        def same(k, b=b):
            k.returns()
            shp(k, "s", bdim(k, "e", len(b)))
            shp(k, "t", bdim(k, "e", len(b)))
        out.append(Case("reshape/%s to %s" % (src, dst), "resh_%d_%d" % (len(a), len(b)), cfg, same, unit=U))
    rs("reshape_vec", 2, 3)
    rs("reshape_shape", 3, 2)
    rs("reshape_one", 3, 1)
    rs("reshape_four", 1, 4)
    for name, nd, ne in (("reshape_bad", 2, 3), ("reshape_bad_shape", 3, 2), ("reshape_empty", 2, 0), ("reshape_tensor_bad", 2, 2)):
        def check(k, name=name, nd=nd):
            k.returns(allow=("throw",))
            k.boolean("threw", TRUE)
            d = bdim(k, "d", nd)
            if name == "reshape_tensor_bad":
                k.tensor("a", d, lambda *ix: el("a", flat(d, ix)))
            else:
                shp(k, "s", d)
        out.append(Case(name, name, {**D(nd), **Ed(ne)}, check, unit=U, facts=(lambda k, nd=nd, ne=ne: [bnot(eq(total(bdim(k, "d", nd)), total(bdim(k, "e", ne))))]) if ne else ()))
        if name == "reshape_bad":        # a non-positive dimension, product matching or not
            out.append(Case(name + "/negative", name, {"d0": "N", "d1": "M", "e0": "S", "e1": -1, "e2": -1}, check, unit=U))
            out.append(Case(name + "/zero", name, {"d0": "N", "d1": "M", "e0": "S", "e1": 0, "e2": "T"}, check, unit=U))
            out.append(Case(name + "/negative-same-product", name, {"d0": "N", "d1": "M", "e0": "N", "e1": -1, "e2": "Z"}, check, unit=U, lo={"Z": -40}, facts=lambda k: [eq(k.dim("e2"), -k.dim("d1"))], instances=[{"N": 2, "M": 3, "Z": -3}, {"N": 1, "M": 2, "Z": -2}]))
    out.append(Case("empty_vec", "empty_vec", {}, lambda k: k.throws(), unit=U))
    for n in (1, 2, 3):
        out.append(Case("bad/%d" % n, "bad_%d" % n, {"d0": "N", "d1": "M", "e0": "Z"}, lambda k: k.throws(), unit=U, lo={"Z": -3}, facts=lambda k: [lt(k.dim("e0"), 1)], instances=[{"N": 2, "M": 3, "Z": 0}, {"N": 2, "M": 1, "Z": -2}]))
    big = 2**31 - 1
    out.append(Case("overflow/max", "overflow", {"d%d" % i: big for i in range(4)}, lambda k: k.throws(), unit=U))
    out.append(Case("overflow/wrap-to-zero", "overflow", {"d0": 2**16, "d1": 2**16, "d2": 2**16, "d3": 2**16}, lambda k: k.throws(), unit=U))
    out.append(Case("overflow/wrap-to-small", "overflow", {"d0": 641, "d1": 6700417, "d2": 2**30, "d3": 7}, lambda k: k.throws(), unit=U))

    def fits(k):
        k.returns()
        shp(k, "s", bdim(k, "d", 4))
    out.append(Case("overflow/fits", "overflow", {"d0": 2**15, "d1": 2**15, "d2": 2**15, "d3": 2**15}, fits, unit=U))

    def equality(k):
        k.returns()
        d, e = bdim(k, "d", 2), bdim(k, "e", 2)
        st = band(eq(d[0], e[0]), eq(d[1], e[1]))
        k.boolean("st", st)
        k.boolean("nst", bnot(st))
        k.boolean("su", FALSE)
        k.boolean("nsu", TRUE)
        k.boolean("sv", FALSE)
        k.boolean("ss", TRUE)
    out.append(Case("equality", "equality", {**D(2), **Ed(2)}, equality, unit=U))
    out.append(Case("equality/same", "equality", {"d0": "N", "d1": "M", "e0": "N", "e1": "M"}, equality, unit=U))
    out.append(Case("equality/swapped", "equality", {"d0": "N", "d1": "M", "e0": "M", "e1": "N"}, equality, unit=U))

    def concat(k):
        k.returns()
        shp(k, "c", bdim(k, "d", 2) + bdim(k, "e", 3))
        shp(k, "s", bdim(k, "d", 2))
        shp(k, "t", bdim(k, "e", 3))
    out.append(Case("concat", "concat2", {**D(2), **Ed(3)}, concat, unit=U))
    out.append(Case("concat1", "concat1", {**D(1), **Ed(1)}, lambda k: (k.returns(), shp(k, "c", bdim(k, "d", 1) + bdim(k, "e", 1))), unit=U))
    comp = lambda x, y: bor(eq(x, y), eq(x, 1), eq(y, 1))

    def bc(k):
        k.returns()
        d, e = bdim(k, "d", 2), bdim(k, "e", 2)
        k.boolean("b", band(comp(d[0], e[0]), comp(d[1], e[1])))
    out.append(Case("broadcastable", "broadcastable", {**D(2), **Ed(2)}, bc, unit=U))

    def bcr(k):
        k.returns()
        d, e = bdim(k, "d", 2), bdim(k, "e", 1)
        k.boolean("b", comp(d[1], e[0]))
        k.boolean("c", comp(d[1], e[0]))
    out.append(Case("broadcastable/rank", "broadcastable_rank", {**D(2), **Ed(1)}, bcr, unit=U))

    def it(k):
        k.returns()
        d = bdim(k, "d", 3)
        k.real("n", d[0] * 100 + d[1] * 10 + d[2])
    out.append(Case("iterate", "iterate", D(3), it, unit=U))
    return out


def same_product(a, b):
    import itertools
    import random
    r = random.Random(7)
    out = []
    for prod in (6, 12, 8):
        def split(n, k):
            if k == 1:
                return [n]
            ds = [x for x in range(1, n + 1) if n % x == 0]
            x = r.choice(ds)
            return [x] + split(n // x, k - 1)
        out.append({**dict(zip(a, split(prod, len(a)))), **dict(zip(b, split(prod, len(b))))})
    return out


spec("C04", "Shapes are constructed, copied, moved, reshaped, compared and concatenated with symbolic dimensions; the derived dimension list, size, stride list and rank are compared with their definitions, rejected reshapes must throw on every path and leave the derived state unchanged.")(c04_cases)


# ------------------------------------------------------------------ C05
def c05_cases(tier):
    out = []
    U = "c05.cpp"

    def idx(n):
        return {"i%d" % j: "ijkl"[j] for j in range(n)}
    LO = {c: 0 for c in "ijkl"}

    def rng(n):
        return lambda k: inrange(k, *[(k.dim("i%d" % j), k.dim("a%d" % j)) for j in range(n)])
    for n in (1, 2, 3, 4):
        def check(k, n=n):
            k.returns()
            a, ii = bdim(k, "a", n), bdim(k, "i", n)
            k.real("x", el("a", flat(a, ii)))
            k.tensor("a", a, lambda *ix: ite(band(*[eq(x, y) for x, y in zip(ix, ii)]), rsym("v"), el("a", flat(a, ix))))
        out.append(Case("at/%d" % n, "at_%d" % n, {**ranked("a", n), **idx(n)}, check, lo=LO, facts=rng(n), unit=U))

        def flatw(k, n=n):
            k.returns()
            a, ii = bdim(k, "a", n), bdim(k, "i", n)
        for j in range(n):
            for side in ("low", "high"):
                def facts(k, n=n, j=j, side=side):
                    r = inrange(k, *[(k.dim("i%d" % q), k.dim("a%d" % q)) for q in range(n) if q != j])
                    x = k.dim("i%d" % j)
                    return r + ([lt(x, 0)] if side == "low" else [le(k.dim("a%d" % j), x)])
                lo = dict(LO)
                lo["ijkl"[j]] = -4 if side == "low" else 1
                out.append(Case("out-of-range/%d/%d/%s" % (n, j, side), "range_%d" % n, {**ranked("a", n), **idx(n)}, lambda k: k.throws(), lo=lo, facts=facts, unit=U,
                                instances=[{**{"NMKL"[q]: 2 + q % 2 for q in range(n)}, **{"ijkl"[q]: (1 if q != j else (-1 if side == "low" else 2 + q % 2 + z)) for q in range(n)}} for z in (0, 1)]))

    def const(k):
        k.returns()
        a, ii = bdim(k, "a", 2), bdim(k, "i", 2)
        k.real("x", el("a", flat(a, ii)))
        k.real("y", el("a", flat(a, ii)))
        k.real("z", el("a", ii[0]))
    out.append(Case("at/const", "at_const", {**ranked("a", 2), **idx(2)}, const, lo=LO, facts=rng(2), unit=U))

    def fi(k):
        k.returns()
        k.real("f", flat(bdim(k, "a", 3), bdim(k, "i", 3)))
    out.append(Case("flat_index", "flat_index", {**ranked("a", 3), **idx(3)}, fi, lo=LO, facts=rng(3), unit=U))
    for nm, r, n in (("few", 3, 2), ("many", 2, 3), ("none", 2, 0)):
        out.append(Case("rank-mismatch/" + nm, nm, {**ranked("a", r), **idx(n)}, lambda k: k.throws(), lo=LO, unit=U))
    for r in (2, 3, 4):
        for d in range(r):
            def check(k, r=r, d=d):
                k.returns()
                a = bdim(k, "a", r)
                rest = a[:d] + a[d + 1:]
                k.tensor("c", rest, lambda *ix: el("a", flat(a, list(ix[:d]) + [k.dim("i0")] + list(ix[d:]))))
                if r == 2:
                    k.tensor("a", a, lambda *ix: el("a", flat(a, ix)))
            sc = "slice_%d_%d" % (r, d)
            out.append(Case("slice/%d/%d" % (r, d), sc, {**ranked("a", r), "i0": "i"}, check, lo=LO, facts=lambda k, d=d: inrange(k, (k.dim("i0"), k.dim("a%d" % d))), unit=U))
            out.append(Case("slice/%d/%d/low" % (r, d), sc, {**ranked("a", r), "i0": "i"}, lambda k: k.throws(), lo={"i": -4}, facts=lambda k: [lt(k.dim("i0"), 0)], unit=U, instances=[{**{"NMKL"[q]: 2 for q in range(r)}, "i": -1}]))
            out.append(Case("slice/%d/%d/high" % (r, d), sc, {**ranked("a", r), "i0": "i"}, lambda k: k.throws(), lo=LO, facts=lambda k, d=d: [le(k.dim("a%d" % d), k.dim("i0"))], unit=U, instances=[{**{"NMKL"[q]: 2 for q in range(r)}, "i": 2}]))
    for nm, f in (("low", lambda k: [lt(k.dim("d"), 0)]), ("high", lambda k: [le(3, k.dim("d"))])):
        out.append(Case("slice/bad-dim/" + nm, "slice_dim", {**ranked("a", 3), "i0": 0, "d": "d"}, lambda k: k.throws(), lo={"d": -3 if nm == "low" else 3}, facts=f, unit=U, instances=[{"N": 2, "M": 2, "K": 2, "d": -1 if nm == "low" else 3}]))
    return out


spec("C05", "at() is applied with symbolic indices to tensors of symbolic size: the value read must be the row-major element and the write must change exactly that element; out-of-range indices and wrong index counts must throw on every path; slice results are compared with the sub-tensor definition for every rank up to 4 and every dimension.")(c05_cases)


# ------------------------------------------------------------------ C06
def sigma(dims, body, name="s"):
    """iterated sum over the index ranges dims of body(indices)"""
    vs = [fresh("%s%d" % (name, j)) for j in range(len(dims))]
    r = P(body(*[ZERO if d is ONE else ap(v) for v, d in zip(vs, dims)]))
    for v, d in reversed(list(zip(vs, dims))):
        if d is not ONE:
            r = mk_sum(v, P(d), r)
    return r


def reduced(a, axes, ix, body, keep):
    """sum of body(full index) over the reduced axes; ix are the remaining indices (with zeros kept when keep)"""
    red = [j for j in range(len(a)) if j in axes]
    rest = iter(ix) if not keep else None

    def at(*r):
        full = []
        q = dict(zip(red, r))
        it = iter(ix)
        for j in range(len(a)):
            if keep:
                x = next(it)
                full.append(q[j] if j in q else x)
            else:
                full.append(q[j] if j in q else next(it))
        return body(*full)
    return sigma([a[j] for j in red], at)


def c06_cases(tier):
    out = []
    U = "c06.cpp"

    def same(k, n, nm="a"):
        a = bdim(k, nm, n)
        k.tensor(nm, a, lambda *ix: el(nm, flat(a, ix)), what="operand " + nm)
    for n in (1, 2, 3, 4):
        def s_all(k, n=n):
            k.returns()
            a = bdim(k, "a", n)
            k.tensor("c", [ONE], lambda i: sigma(a, lambda *ix: el("a", flat(a, ix))))
            same(k, n)

        def m_all(k, n=n):
            k.returns()
            a = bdim(k, "a", n)
            k.tensor("c", [ONE], lambda i: sigma(a, lambda *ix: el("a", flat(a, ix))) * power(total(a), -1))
            same(k, n)

        def v_all(k, n=n):
            k.returns()
            a = bdim(k, "a", n)
            sq = lambda x: x * x
            k.tensor("c", [ONE], lambda i: sigma(a, lambda *ix: sq(el("a", flat(a, ix)) - el("m", ZERO))) * power(total(a), -1))
            same(k, n)
            k.tensor("m", [ONE], lambda i: el("m", ZERO))
        out.append(Case("sum/%d" % n, "sum_%d" % n, ranked("a", n), s_all, unit=U))
        out.append(Case("mean/%d" % n, "mean_%d" % n, ranked("a", n), m_all, unit=U))
        out.append(Case("variance/%d" % n, "var_%d" % n, ranked("a", n), v_all, unit=U))
        for x in range(n):
            def sx(k, n=n, x=x):
                k.returns()
                a = bdim(k, "a", n)
                rest = a[:x] + a[x + 1:] or [ONE]
                k.tensor("c", rest, lambda *ix: reduced(a, (x,), ix if n > 1 else (), lambda *f: el("a", flat(a, f)), False))
                same(k, n)
            out.append(Case("sum-axis/%d/%d" % (n, x), "sumx_%d_%d" % (n, x), ranked("a", n), sx, unit=U))
    axes = [(1, "0"), (2, "0"), (2, "1"), (2, "01"), (2, "10"), (3, "0"), (3, "1"), (3, "2"), (3, "01"), (3, "20"), (3, "12"), (3, "012"), (4, "0"), (4, "1"), (4, "023"), (4, "13"), (4, "23"), (4, "302"), (4, "012"), (4, "0123")]
    for n, nm in axes:
        ax = tuple(int(c) for c in nm)
        full = len(ax) == n

        def ss(k, n=n, ax=ax):
            k.returns()
            a = bdim(k, "a", n)
            rest = [d for j, d in enumerate(a) if j not in ax] or [ONE]
            k.tensor("c", rest, lambda *ix: reduced(a, ax, ix if len(ax) < n else (), lambda *f: el("a", flat(a, f)), False))
            same(k, n)

        def keepdims(a, ax, m=False):
            if len(ax) == len(a):
                return [ONE]
            return [ONE if j in ax else d for j, d in enumerate(a)]

        def ms(k, n=n, ax=ax, full=full):
            k.returns()
            a = bdim(k, "a", n)
            cnt = power(total([a[j] for j in ax]), -1)
            k.tensor("c", keepdims(a, ax), lambda *ix: reduced(a, ax, () if full else ix, lambda *f: el("a", flat(a, f)), not full) * cnt)
            same(k, n)

        def vs(k, n=n, ax=ax, full=full, nm=nm):
            k.returns()
            a = bdim(k, "a", n)
            cnt = power(total([a[j] for j in ax]), -1)
            md = [ONE if j in ax else d for j, d in enumerate(a)] if not (full and nm in ("10", "0")) else [ONE]
            mi = lambda ix: el("m", flat(md, [ZERO if d is ONE else i for d, i in zip(md, ix)])) if len(md) == len(ix) else el("m", ZERO)
            sq = lambda x: x * x
            k.tensor("c", md, lambda *ix: reduced(a, ax, ix if len(md) == n else (), lambda *f: sq(el("a", flat(a, f)) - mi(f)), len(md) == n) * cnt)
            same(k, n)
            k.tensor("m", md, lambda *ix: el("m", flat(md, ix)), what="mean operand")
        out.append(Case("sum-axes/%d/%s" % (n, nm), "sums_%d_%s" % (n, nm), ranked("a", n), ss, unit=U))
        out.append(Case("mean-axes/%d/%s" % (n, nm), "means_%d_%s" % (n, nm), ranked("a", n), ms, unit=U))
        names = ranked("a", n)
        out.append(Case("variance-axes/%d/%s" % (n, nm), "vars_%d_%s" % (n, nm), names, vs, lo={names["a%d" % j]: 2 for j in ax}, unit=U))
        for sub in ([(j,) for j in ax] + ([ax] if len(ax) > 1 else [])):
            cfg = {q: (1 if int(q[1]) in sub else v) for q, v in names.items()}
            out.append(Case("variance-axes/%d/%s/unit-%s" % (n, nm, "".join(map(str, sub))), "vars_%d_%s" % (n, nm), cfg, vs, lo={names["a%d" % j]: 2 for j in ax}, unit=U))

    def s_none(k):
        k.returns()
        a = bdim(k, "a", 2)
        k.tensor("c", a, lambda *ix: el("a", flat(a, ix)))
    out.append(Case("sum-axes/2/none", "sums_none", ranked("a", 2), s_none, unit=U))
    for nm, r in (("bad_sum", 2), ("bad_sums", 2), ("bad_sums2", 3), ("bad_mean", 2), ("bad_mean1", 1), ("bad_mean2", 3), ("bad_var", 2)):
        out.append(Case("bad-axis/" + nm, nm, {**ranked("a", r), "x": "x"}, lambda k: k.throws(), lo={"x": r}, facts=lambda k, r=r: [le(r, k.dim("x"))], unit=U, instances=[{"N": 2, "M": 3, "K": 2, "x": r}, {"N": 2, "M": 2, "K": 2, "x": r + 2}]))
    out.append(Case("bad-mean-shape", "bad_var_mean", ranked("a", 2), lambda k: k.throws(), lo={"N": 2, "M": 2}, unit=U))
    return out


spec("C06", "sum, mean and variance over everything, one axis and sets of axes are applied to tensors of symbolic size and rank up to 4; the derived element is a nested sum term that is compared with the defining sum (loop recurrences are solved into closed sums); axes outside the rank must throw on every path.")(c06_cases)


# ------------------------------------------------------------------ C07
def c07_cases(tier):
    out = []
    U = "c07.cpp"
    for r, x, y in [(1, 0, 0), (2, 0, 1), (2, 1, 0), (2, 0, 0), (3, 0, 1), (3, 0, 2), (3, 1, 2), (3, 2, 0), (3, 1, 1), (4, 0, 1), (4, 0, 3), (4, 1, 2), (4, 2, 3), (4, 3, 1)]:
        def check(k, r=r, x=x, y=y):
            k.returns()
            a = bdim(k, "a", r)

            def sw(l):
                l = list(l)
                l[x], l[y] = l[y], l[x]
                return l
            k.tensor("c", sw(a), lambda *ix: el("a", flat(a, sw(ix))))
            k.tensor("a", a, lambda *ix: el("a", flat(a, ix)), what="operand")
        out.append(Case("transpose/%d/%d%d" % (r, x, y), "tr_%d_%d%d" % (r, x, y), ranked("a", r), check, unit=U))
    for nm, cfg, f in (("first", {"x": "x", "y": 1}, "x"), ("second", {"x": 0, "y": "y"}, "y")):
        out.append(Case("transpose/bad-" + nm, "tr_sym", {**ranked("a", 3), **cfg}, lambda k: k.throws(), lo={f: 3}, unit=U, instances=[{"N": 2, "M": 2, "K": 3, f: 3}, {"N": 2, "M": 2, "K": 3, f: 5}]))

    def rsh(name, n, dims, src=True):
        def check(k):
            k.returns()
            a = bdim(k, "a", n)
            nd = dims(*a)
            k.tensor("c", nd, lambda *ix: el("a", flat(nd, ix)))
            if src:
                k.tensor("a", a, lambda *ix: el("a", flat(a, ix)), what="operand")
        return check
    out.append(Case("reshape/3-2", "re_free_2", ranked("a", 3), rsh("", 3, lambda a, b, c: [a * b, c]), unit=U))
    out.append(Case("reshape/4-1", "re_free_1", ranked("a", 4), rsh("", 4, lambda a, b, c, d: [a * b * c * d], False), unit=U))
    out.append(Case("reshape/swap", "re_free_swap", ranked("a", 2), rsh("", 2, lambda a, b: [b, a]), unit=U))
    out.append(Case("reshape/list", "re_mem_list", ranked("a", 2), rsh("", 2, lambda a, b: [ONE, a, b, ONE], False), unit=U))
    out.append(Case("reshape/shape", "re_mem_shape", ranked("a", 3), rsh("", 3, lambda a, b, c: [a, b * c], False), unit=U))

    def vec(k):
        k.returns()
        a, b = bdim(k, "a", 2)
        k.tensor("c", [b, a], lambda i, j: el("a", i * a + j))
        k.real("x", el("a", k.dim("x") * a + k.dim("y")))
    out.append(Case("reshape/vector", "re_mem_vec", {**ranked("a", 2), "x": "x", "y": "y"}, vec, lo={"x": 0, "y": 0}, facts=lambda k: inrange(k, (k.dim("x"), k.dim("a1")), (k.dim("y"), k.dim("a0"))), unit=U))
    out.append(Case("reshape/bad", "re_bad", {"a0": "N", "a1": "M", "b0": "S", "b1": "T"}, lambda k: k.throws(), facts=lambda k: [bnot(eq(total(bdim(k, "a", 2)), total(bdim(k, "b", 2))))], unit=U))

    def twice(k):
        k.returns()
        a = bdim(k, "a", 3)
        k.tensor("c", a, lambda *ix: el("a", flat(a, ix)))
    out.append(Case("transpose/twice", "re_twice", ranked("a", 3), twice, unit=U))
    return out


spec("C07", "transpose is applied for every rank up to 4 and a covering set of dimension pairs and reshape in all its forms, on tensors of symbolic size; the derived element map is compared with the definition; dimensions outside the rank must throw on every path.")(c07_cases)


# ------------------------------------------------------------------ C08
def c08_cases(tier):
    out = []
    U = "c08.cpp"

    def mk(r, s, da, db, res, terms, bad=()):
        cfg = {**{"a%d" % i: n for i, n in enumerate(da)}, **{"b%d" % i: n for i, n in enumerate(db)}}

        def check(k):
            k.returns()
            a, b = bdim(k, "a", r), bdim(k, "b", s)
            sz = {n: k.dim("a%d" % i) for i, n in enumerate(da)}
            sz.update({n: k.dim("b%d" % i) for i, n in enumerate(db)})

            def cell(*ix):
                e = dict(zip(res, ix))
                return sigma([sz["K"]], lambda q: el("a", flat(a, [q if n == "K" else e[n] for n in da])) * el("b", flat(b, [q if n == "K" else e[n] for n in db])))
            k.tensor("c", [sz[n] for n in res] or [ONE], cell)
            k.tensor("a", a, lambda *ix: el("a", flat(a, ix)), what="left operand")
            k.tensor("b", b, lambda *ix: el("b", flat(b, ix)), what="right operand")
        nm = "mm_%d_%d" % (r, s)
        out.append(Case("%d-%d" % (r, s), nm, cfg, check, unit=U))
        # one size-1 contraction / single row variants come from the same symbolic case (lo = 1)
        for j, (pos, n) in enumerate([("b%d" % i, n) for i, n in enumerate(db) if n in da]):
            c2 = dict(cfg)
            c2[pos] = "W"
            out.append(Case("%d-%d/mismatch-%s" % (r, s, pos), nm, c2, lambda k: k.throws(), facts=lambda k, pos=pos, n=n: [bnot(eq(k.dim(pos), k.dim("a%d" % da.index(n))))], unit=U,
                            instances=[{**{x: 2 for x in set(c2.values())}, "W": 3}, {**{x: 3 for x in set(c2.values())}, "W": 1}]))
    mk(1, 1, "K", "K", "", "K")
    mk(1, 2, "K", "KM", "M", "K")
    mk(2, 1, "NK", "K", "N", "K")
    mk(2, 2, "NK", "KM", "NM", "K")
    mk(3, 2, "BNK", "KM", "BNM", "K")
    mk(2, 3, "NK", "BKM", "BNM", "K")
    mk(3, 3, "BNK", "BKM", "BNM", "K")
    mk(4, 4, "ABNK", "ABKM", "ABNM", "K")
    for r, s in ((1, 3), (3, 1), (4, 2), (2, 4), (4, 3), (3, 4), (1, 4)):
        out.append(Case("%d-%d/unsupported" % (r, s), "mm_%d_%d" % (r, s), {**ranked("a", r, "NMKL"), **ranked("b", s, "STUV")}, lambda k: k.throws(), unit=U))
    return out


spec("C08", "matmul is applied for every supported rank combination to operands of symbolic size; the derived element (a closed sum obtained by solving the accumulation recurrence) is compared with the contraction; mismatching contracted or batch sizes and unsupported ranks must throw on every path.")(c08_cases)


# ------------------------------------------------------------------ C33
def c33_cases(tier):
    out = []
    U = "c33.cpp"

    def cdiv(x, t):
        return idiv(x + t - 1, t)

    # one dimension: start s, extent p*t+1+r, rest z; the bounds are written in the different allowed ways
    D = lambda n: (lambda k: k.dim(n))
    size = lambda k: k.dim("_s") + k.dim("_p") * k.dim("t0") + 1 + k.dim("_r") + k.dim("_z")
    end = lambda k: k.dim("_s") + k.dim("_p") * k.dim("t0") + 1 + k.dim("_r")
    kinds = {
        "plain": (D("_s"), end, 0),
        "neg-end": (D("_s"), lambda k: end(k) - size(k), 1),
        "neg-start": (lambda k: k.dim("_s") - size(k), end, 0),
        "neg-both": (lambda k: k.dim("_s") - size(k), lambda k: end(k) - size(k), 1),
        "clip-end": (D("_s"), lambda k: size(k) + 1 + k.dim("_q"), None),
    }
    for kd, (s0, e0, z) in kinds.items():
        for step in (1, 2, 3, "t"):
            def check(k, kd=kd):
                k.returns()
                n, s, t, p = (k.dim(x) for x in ("a0", "_s", "t0", "p0"))
                e = n if kd == "clip-end" else end(k)
                k.ints("dims", [cdiv(e - s, t)])
                k.real("x", el("a", s + p * t))
                k.tensor("a", [n], lambda i: ite(eq(i, s + p * t), rsym("v"), el("a", i)))
            cfg = {"t0": step, "_s": "s", "_p": "p", "p0": D("_p"), "_r": "r", "_z": "z" if z is not None else 0, "_q": "q" if z is None else 0, "a0": size, "s0": s0, "e0": e0}
            out.append(Case("slice1/%s/%s" % (kd, step), "slice1", cfg, check, lo={"s": 0, "p": 0, "r": 0, "z": z or 0, "q": 0, "t": 1}, unit=U))
    for st in ((1, 1), (2, 1), (1, 2), (3, 2)):
        def dims(cfg, j, t, idx):
            cfg.update({"t" + j: t, "_s" + j: "s" + j, "s" + j: D("_s" + j), "_z" + j: "z" + j})
            if idx:
                cfg.update({"_p" + j: "p" + j, "p" + j: D("_p" + j), "_r" + j: "r" + j, "e" + j: lambda k: k.dim("s" + j) + k.dim("p" + j) * t + 1 + k.dim("_r" + j)})
            else:
                cfg.update({"_c" + j: "c" + j, "e" + j: lambda k: k.dim("s" + j) + k.dim("_c" + j)})
            cfg["a" + j] = lambda k: k.dim("e" + j) + k.dim("_z" + j)
        lo = {x + j: 0 for x in "sprz" for j in "01"}
        cfg = {}
        for j in "01":
            dims(cfg, j, st[int(j)], True)

        def check2(k):
            k.returns()
            a = bdim(k, "a", 2)
            q = [k.dim("s" + j) + k.dim("p" + j) * k.dim("t" + j) for j in "01"]
            k.ints("dims", [cdiv(k.dim("e" + j) - k.dim("s" + j), k.dim("t" + j)) for j in "01"])
            k.real("x", el("a", flat(a, q)))
            k.tensor("a", a, lambda i, j: ite(band(eq(i, q[0]), eq(j, q[1])), rsym("v"), el("a", flat(a, (i, j)))))
        out.append(Case("slice2/%d%d" % st, "slice2", cfg, check2, lo=lo, unit=U))
        cfg = {}
        for j in "01":
            dims(cfg, j, st[int(j)], False)

        def check3(k):
            k.returns()
            a = bdim(k, "a", 2)
            s = [k.dim("s" + j) for j in "01"]
            t = [k.dim("t" + j) for j in "01"]
            d = [cdiv(k.dim("_c" + j), k.dim("t" + j)) for j in "01"]
            k.real("n", d[0] * d[1])
            k.tensor("o", d, lambda i, j: el("a", flat(a, (s[0] + i * t[0], s[1] + j * t[1]))))
        out.append(Case("slice2-iterate/%d%d" % st, "slice2_iter", cfg, check3, lo=lo, unit=U))

    def check4(k):
        k.returns()
        a = bdim(k, "a", 3)
        s = [k.dim("s" + j) for j in "01"]
        d = [k.dim("_c" + j) for j in "01"] + [a[2]]
        k.real("n", total(d))
        k.tensor("o", d, lambda i, j, l: el("a", flat(a, (s[0] + i, s[1] + j, l))))
    cfg = {"a2": "K"}
    for j in "01":
        dims(cfg, j, 1, False)
    out.append(Case("slice3-iterate", "slice3_iter", cfg, check4, lo=lo, unit=U))
    out.append(Case("reject/ranges", "slice_rank", ranked("a", 2), lambda k: k.throws(), unit=U))
    out.append(Case("reject/steps", "slice_steps", ranked("a", 2), lambda k: k.throws(), unit=U))
    out.append(Case("reject/step", "slice_step0", {"a0": "N", "t0": "t"}, lambda k: k.throws(), lo={"t": -4}, facts=lambda k: [le(k.dim("t0"), 0)], unit=U, instances=[{"N": 3, "t": 0}, {"N": 3, "t": -1}]))
    out.append(Case("reject/end", "slice_end_deref", ranked("a", 1), lambda k: k.throws(), unit=U))
    # broadcast views: b is the target shape, 1 marks a stretched dimension
    for r, s in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (1, 3), (4, 4)):
        import itertools
        for pt in itertools.product("eb", repeat=r):
            if tier == "quick" and r == 4 and pt.count("b") not in (0, 2, 4):
                continue
            cfg, lo = {}, {}
            for j in range(s):
                n = "NMKL"[j]
                cfg["b%d" % j] = n
                i = j - (s - r)
                if i >= 0:
                    c = pt[i]
                    cfg["a%d" % i] = 1 if c == "b" else n
                    if c == "b":
                        lo[n] = 2

            def check(k, r=r, s=s):
                k.returns()
                a, b = bdim(k, "a", r), bdim(k, "b", s)
                k.ints("dims", b)
                k.real("n", total(b))
                k.tensor("o", b, lambda *ix: bread("a", a, ix))
                k.tensor("a", a, lambda *ix: el("a", flat(a, ix)), what="operand")
            out.append(Case("broadcast/%d-%d/%s" % (r, s, "".join(pt)), "bview_%d_%d" % (r, s), cfg, check, lo=lo, unit=U))
    out.append(Case("broadcast/reject-mismatch", "bview_2_2", {"a0": "N", "a1": "M", "b0": "W", "b1": "M"}, lambda k: k.throws(), lo={"N": 2}, facts=lambda k: [bnot(eq(k.dim("a0"), k.dim("b0")))], unit=U, instances=[{"N": 2, "M": 2, "W": 3}, {"N": 2, "M": 2, "W": 1}]))
    out.append(Case("broadcast/index", "bview_index", {"a0": 1, "a1": "M", "b0": "N", "b1": "M", "p0": "p", "p1": "q"}, lambda k: (k.returns(), k.real("x", el("a", k.dim("p1")))), lo={"N": 2, "p": 0, "q": 0}, facts=lambda k: inrange(k, (k.dim("p0"), k.dim("b0")), (k.dim("p1"), k.dim("b1"))), unit=U))
    return out


spec("C33", "Slice views are built with symbolic sizes, bounds (also negative and clipped) and steps; the derived dimensions, the element under an arbitrary position, the effect of writing through the view and the sequence visited by iteration are compared with their definitions; broadcast views likewise for each pattern of stretched dimensions.")(c33_cases)
