"""C09, C10, C12-C19: activations, layers and losses"""
import itertools
from props import spec
from harness import Case, K, PROVED, AGREED, UNDECIDED, VIOLATED
from fractions import Fraction
from terms import *
import terms as T
from stdlib import std_tanh
from specs.tensor import el, flat, total, bdim, ranked, sigma, isym, rsym

E = fexp


def inv1(x):
    return power(x, -1)


def sig(x):
    return inv1(ONE + E(-x))


def th(x):
    return std_tanh(x)


def softplus(x):
    return fn("log", ONE + E(x))


ALPHA = rsym("alpha")
LEAK = P(Fraction(1, 100))
FWD = {
    "relu": lambda x: ite(lt(0, x), x, ZERO),
    "leaky": lambda x: ite(lt(0, x), x, ALPHA * x),
    "leakydef": lambda x: ite(lt(0, x), x, LEAK * x),
    "sigmoid": sig,
    "tanh": th,
    "swish": lambda x: x * sig(x),
    "mish": lambda x: x * th(softplus(x)),
}
DER = {
    "relu": lambda x: ite(lt(0, x), ONE, ZERO),
    "leaky": lambda x: ite(lt(0, x), ONE, ALPHA),
    "leakydef": lambda x: ite(lt(0, x), ONE, LEAK),
    "sigmoid": lambda x: sig(x) * (ONE - sig(x)),
    "tanh": lambda x: ONE - th(x) * th(x),
    "swish": lambda x: sig(x) + x * sig(x) * (ONE - sig(x)),
    "mish": lambda x: th(softplus(x)) + x * (ONE - th(softplus(x)) * th(softplus(x))) * sig(x),
}


def same(k, nm, d):
    k.tensor(nm, d, lambda *ix: el(nm, flat(d, ix)), what="argument " + nm)


def softmax_cell(nm, d, ix):
    rest = d[1:]
    row = lambda *r: E(el(nm, flat(d, (ix[0],) + r)))
    return row(*ix[1:]) * inv1(sigma(rest, row))


def act_cases(which, tier):
    out = []
    U = "c09.cpp"
    for n in list(FWD) + ["softmax"]:
        for r in (1, 2, 3, 4):
            if n == "softmax" and r == 1:
                out.append(Case("%s/1" % n, "%s_%s_1" % ("fwd" if which == "f" else "bwd", n), ranked("a", 1), lambda k: k.throws(), unit=U))
                continue
            if which == "f":
                def check(k, n=n, r=r):
                    k.returns()
                    d = bdim(k, "a", r)
                    if n == "softmax":
                        k.tensor("c", d, lambda *ix: softmax_cell("a", d, ix))
                    else:
                        k.tensor("c", d, lambda *ix: FWD[n](el("a", flat(d, ix))))
                    same(k, "a", d)
                out.append(Case("%s/%d" % (n, r), "fwd_%s_%d" % (n, r), ranked("a", r), check, unit=U))
                continue

            def check(k, n=n, r=r):
                k.returns()
                d = bdim(k, "a", r)
                if n == "softmax":
                    def cell(*ix):
                        s = lambda *q: softmax_cell("a", d, (ix[0],) + q)
                        g = lambda *q: el("g", flat(d, (ix[0],) + q))
                        dot = sigma(d[1:], lambda *q: s(*q) * g(*q))
                        return s(*ix[1:]) * (g(*ix[1:]) - dot)
                    k.tensor("c", d, cell)
                else:
                    k.tensor("c", d, lambda *ix: DER[n](el("a", flat(d, ix))) * el("g", flat(d, ix)))
                same(k, "a", d)
                same(k, "g", d)
            out.append(Case("%s/%d" % (n, r), "bwd_%s_%d" % (n, r), ranked("a", r), check, unit=U, avoid={"a": (0.0,)}))
    if which == "f":
        for n in ("relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax"):
            def check(k, n=n):
                k.returns()
                a, b = bdim(k, "a", 2), bdim(k, "b", 2)
                m = "leakydef" if n == "leaky" else n
                for o, i, d in (("x", "a", a), ("y", "b", b), ("z", "a", a)):
                    k.tensor(o, d, (lambda *ix: softmax_cell(i, d, ix)) if n == "softmax" else (lambda *ix: FWD[m](el(i, flat(d, ix)))))
            out.append(Case("twice/" + n, "twice_" + n, {**ranked("a", 2), **ranked("b", 2, "STUV")}, check, unit=U))
    return out


spec("C09", "Every activation is applied to tensors of rank 1 to 4 with symbolic sizes and contents, also in double precision through the base class and repeatedly on one object; the derived output element is compared with the definition of the function (softmax: exponential divided by the row sum).")(lambda tier: act_cases("f", tier))
spec("C10", "Every activation's backward pass is applied to tensors of rank 1 to 4; the derived element is compared with the transposed Jacobian of the defining function applied to the upstream gradient, away from the kinks.")(lambda tier: act_cases("b", tier))


# ------------------------------------------------------------------ C12
def mat(nm, cols):
    return lambda i, j: el(nm, i * cols + j)


def c12_cases(tier):
    out = []
    U = "c12.cpp"
    D = {"i": "I", "o": "O"}

    def io(k):
        return k.dim("i"), k.dim("o")

    def params(k):
        i, o = io(k)
        k.tensor("w", [i, o], mat("w", o), what="weights")
        k.tensor("b", [ONE, o], mat("b", o), what="biases")

    def fwd(k, nm, x, n):
        i, o = io(k)
        k.tensor(nm, [n, o], lambda r, c: sigma([i], lambda q: el(x, r * i + q) * el("w", q * o + c)) + el("b", c))

    def bwd(k, nm, x, n):
        i, o = io(k)
        k.tensor(nm, [n, i], lambda r, q: sigma([o], lambda c: el("g", r * o + c) * el("w", q * o + c)))
        k.tensor("wg", [i, o], lambda q, c: sigma([n], lambda r: el(x, r * i + q) * el("g", r * o + c)), what="weight gradient")
        k.tensor("bg", [ONE, o], lambda z, c: sigma([n], lambda r: el("g", r * o + c)), what="bias gradient")

    def add(nm, sc, f, cfg=None, **kw):
        def check(k):
            k.returns()
            f(k)
        c = {**D, "a0": "N", "a1": "I", **(cfg or {})}
        one = {x: 1 for x in ("a0", "b0") if c.get(x) in ("N", "S")}
        out.append(Case(nm, sc, c, check, unit=U, lo={"N": 2, "S": 2}, **kw))
        if one:
            out.append(Case(nm + "/single", sc, {**c, **one}, check, unit=U, **kw))
    add("forward/batch", "fwd2", lambda k: (fwd(k, "c", "a", k.dim("a0")), params(k), same(k, "a", bdim(k, "a", 2))))
    add("forward/batch-double", "fwd2d", lambda k: (fwd(k, "c", "a", k.dim("a0")), params(k), same(k, "a", bdim(k, "a", 2))))

    def f1(k):
        i, o = io(k)
        k.tensor("c", [o], lambda c: sigma([i], lambda q: el("a", q) * el("w", q * o + c)) + el("b", c))
        params(k)
        same(k, "a", [i])
    add("forward/vector", "fwd1", f1, {"a0": "I"})
    B = {"b0": "S", "b1": "I"}
    add("forward/again", "fwdbase", lambda k: (fwd(k, "c", "b2", k.dim("b0")), fwd(k, "d", "a", k.dim("a0"))), B)
    add("backward/batch", "bwd2", lambda k: (bwd(k, "d", "a", k.dim("a0")), params(k), same(k, "g", [k.dim("a0"), k.dim("o")]), same(k, "a", bdim(k, "a", 2))))

    def b1(k):
        i, o = io(k)
        k.tensor("d", [ONE, i], lambda z, q: sigma([o], lambda c: el("g", c) * el("w", q * o + c)))
        k.tensor("wg", [i, o], lambda q, c: el("a", q) * el("g", c))
        k.tensor("bg", [ONE, o], lambda z, c: el("g", c))
        params(k)
    add("backward/vector", "bwd1", b1, {"a0": "I"})
    add("backward/last-input", "bwdlast", lambda k: (bwd(k, "d", "b2", k.dim("b0")), params(k)), B)
    add("backward/repeated", "bwdtwice", lambda k: (bwd(k, "d", "a", k.dim("a0")), params(k)))
    add("backward/own-input", "bwdkeep", lambda k: bwd(k, "d", "a", k.dim("a0")))
    add("evaluation", "evalm", lambda k: (fwd(k, "c", "a", k.dim("a0")), bwd(k, "d", "a", k.dim("a0")), params(k)))

    def up(k):
        i, o = io(k)
        n = k.dim("a0")
        k.real("nw", P(2))
        k.real("ng", P(2))
        k.tensor("pw0", [i, o], mat("w", o))
        k.tensor("pw1", [ONE, o], mat("b", o))
        k.tensor("pg0", [i, o], lambda q, c: sigma([n], lambda r: el("a", r * i + q) * el("g", r * o + c)))
        k.tensor("pg1", [ONE, o], lambda z, c: sigma([n], lambda r: el("g", r * o + c)))
        params(k)
    add("update/pairs", "upd", up)
    add("initial", "init", lambda k: (k.tensor("b", [ONE, k.dim("o")], lambda z, c: ZERO), k.ints("ws", [k.dim("i"), k.dim("o")])))
    add("own-parameters", "own", params)
    bad = {"a1": "W"}
    out.append(Case("forward/mismatch", "fwd2", {**D, "a0": "N", "a1": "W"}, lambda k: k.throws(), unit=U, facts=lambda k: [bnot(eq(k.dim("a1"), k.dim("i")))], instances=[{"N": 2, "I": 3, "O": 2, "W": 4}, {"N": 1, "I": 1, "O": 2, "W": 3}]))
    out.append(Case("forward/mismatch-vector", "fwd1", {**D, "a0": "W"}, lambda k: k.throws(), unit=U, facts=lambda k: [bnot(eq(k.dim("a0"), k.dim("i")))], instances=[{"I": 3, "O": 2, "W": 4}, {"I": 1, "O": 2, "W": 3}]))
    return out


spec("C12", "A dense layer with symbolic input and output widths and symbolic parameters is run forward and backward (vector, batch, repeated calls, both modes); results, stored gradients and the parameter/gradient pairs handed to the optimizer are compared with x·W+b, g·Wᵀ, xᵀ·g and Σg.")(c12_cases)


# ------------------------------------------------------------------ C13
def fdiv(p, q):
    """floor of p/q for a constant q>0, as the engine writes it for nonnegative p"""
    return p if q == 1 else T.idiv(P(p), P(q))


def osz(i, k, st, pad, dil):
    x = i + (2 * pad - dil * (k - 1) - 1)
    return fdiv(x, st) + 1


def inside(i, n):
    return band(ge(i, 0), lt(i, n))


def conv_spec(k, kh, kw, st, pad, dil, x="a", g="g", n="n"):
    C, D, H, W = k.dim("ci"), k.dim("co"), k.dim("h"), k.dim("wd")
    N = k.dim(n)
    OH, OW = osz(H, kh, st, pad, dil), osz(W, kw, st, pad, dil)

    def fwd(nm):
        def cell(b, o, y, z):
            r = el("b", o)
            for i in range(kh):
                for j in range(kw):
                    ih, iw = y * st + i * dil - pad, z * st + j * dil - pad
                    r = r + ite(band(inside(ih, H), inside(iw, W)), sigma([C], lambda c: el(x, flat([N, C, H, W], [b, c, ih, iw])) * el("w", flat([D, C, P(kh), P(kw)], [o, c, P(i), P(j)]))), ZERO)
            return r
        k.tensor(nm, [N, D, OH, OW], cell)

    def bwd(nm):
        def cell(b, c, y, z):
            r = ZERO
            for i in range(kh):
                for j in range(kw):
                    ny, nz = y + (pad - i * dil), z + (pad - j * dil)
                    oy, oz = fdiv(ny, st), fdiv(nz, st)
                    ok = band(ge(ny, 0), ge(nz, 0), lt(oy, OH), lt(oz, OW))
                    if st > 1:
                        ok = band(ok, eq(oy * st, ny), eq(oz * st, nz))
                    r = r + ite(ok, sigma([D], lambda o: el("w", flat([D, C, P(kh), P(kw)], [o, c, P(i), P(j)])) * el(g, flat([N, D, OH, OW], [b, o, oy, oz]))), ZERO)
            return r
        k.tensor(nm, [N, C, H, W], cell)

        def wcell(o, c, i, j):
            def term(b, y, z):
                ih, iw = y * st + i * dil - pad, z * st + j * dil - pad
                v = el(x, flat([N, C, H, W], [b, c, ih, iw])) * el(g, flat([N, D, OH, OW], [b, o, y, z]))
                return v if not pad else ite(band(inside(ih, H), inside(iw, W)), v, ZERO)
            return sigma([N, OH, OW], term)
        k.tensor("wg", [D, C, P(kh), P(kw)], wcell, what="weight gradient")
        k.tensor("bg", [D, ONE], lambda o, u: sigma([N, OH, OW], lambda b, y, z: el(g, flat([N, D, OH, OW], [b, o, y, z]))), what="bias gradient")

    def params():
        k.tensor("w", [D, C, P(kh), P(kw)], lambda o, c, i, j: el("w", flat([D, C, P(kh), P(kw)], [o, c, i, j])), what="weights")
        k.tensor("b", [D, ONE], lambda o, u: el("b", o), what="biases")
    return fwd, bwd, params


def c13_cases(tier):
    out = []
    U = "c13.cpp"
    base = {"ci": "C", "co": "D", "n": "N"}

    def add(nm, sc, kc, sizes, f, sym=None, **kw):
        kh, kw_, st, pad, dil = kc
        lo = {}
        # sizes: numbers, or ("H", r): the input size that makes H outputs with r positions left over
        cfg = {**(sym or base), "kh": kh, "kw": kw_, "st": st, "pad": pad, "dil": dil}
        for q, s, kk in (("h", sizes[0], kh), ("wd", sizes[1], kw_)):
            o = {"h": "oh", "wd": "ow"}[q]
            if isinstance(s, int):
                cfg[q] = s
                cfg[o] = (s + 2 * pad - dil * (kk - 1) - 1) // st + 1
            else:
                cfg[o] = s[0]
                cfg[q] = lambda k, o=o, kk=kk, r=s[1]: k.dim(o) * st - st + (dil * (kk - 1) + 1 - 2 * pad + r)
                lo.setdefault(s[0], 1)
                while st * (lo[s[0]] - 1) + dil * (kk - 1) + 1 - 2 * pad + s[1] < 1:
                    lo[s[0]] += 1
        cfg.update(kw.pop("cfg", {}))

        def check(k):
            k.returns()
            f(k, *conv_spec(k, kh, kw_, st, pad, dil, **({"x": "z", "n": "n2"} if sc == "again" else {})))
        out.append(Case("%s/k%dx%d-s%d-p%d-d%d-%sx%s" % ((nm,) + kc + tuple("%s+%d" % s if isinstance(s, tuple) else s for s in sizes)), sc, cfg, check, lo=lo, unit=U, **kw))

    def ff(k, fwd, bwd, params):
        fwd("c")
        same(k, "a", [k.dim(x) for x in ("n", "ci", "h", "wd")])
        params()

    def fb(k, fwd, bwd, params):
        bwd("d")
        params()
        same(k, "g", [k.dim(x) for x in ("n", "co", "oh", "ow")])
    for kc in [(1, 1, 1, 0, 1), (2, 2, 1, 0, 1), (2, 3, 1, 0, 1), (3, 2, 1, 1, 1), (2, 2, 2, 0, 1), (2, 2, 1, 0, 2), (3, 3, 2, 1, 1), (2, 1, 3, 1, 2), (1, 2, 1, 2, 1), (2, 3, 2, 1, 2)]:
        add("forward", "fwd", kc, (("H", 0), ("W", kc[2] - 1)), ff)
    for kc in [(1, 1, 1, 0, 1), (2, 2, 1, 0, 1), (2, 3, 1, 0, 1), (2, 2, 2, 0, 1), (2, 2, 1, 0, 2), (2, 1, 3, 1, 2)][:6 if tier == "thorough" else 4]:
        add("backward", "bwd", kc, (("H", 0), ("W", kc[2] - 1)), fb)
    for kc, sz in [((3, 2, 1, 1, 1), (3, 2)), ((3, 3, 2, 1, 1), (4, 3)), ((2, 2, 3, 0, 1), (6, 5)), ((1, 2, 1, 2, 1), (2, 1)), ((2, 3, 2, 1, 2), (3, 4)), ((2, 1, 1, 1, 2), (2, 2))]:
        add("backward", "bwd", kc, sz, fb)
        if tier == "thorough":
            add("forward", "fwd", kc, sz, ff)
    if tier == "thorough":
        for kc in itertools.product((1, 2, 3), (1, 2), (1, 2), (0, 1, 2), (1, 2)):
            for sz in ((4, 3), (3, 5)):
                if all((sz[j] + 2 * kc[3] - kc[4] * (kc[j] - 1) - 1) >= 0 for j in (0, 1)):
                    add("small", "evalm", kc, sz, lambda k, fwd, bwd, params: (fwd("c"), bwd("d"), params()))
    kc = (2, 1, 1, 1, 1)
    add("double", "fwdd", kc, (("H", 0), ("W", 0)), lambda k, fwd, bwd, params: fwd("c"))
    add("double", "bwdd", kc, (3, 2), lambda k, fwd, bwd, params: bwd("d"))
    add("again", "again", kc, (2, 2), lambda k, fwd, bwd, params: (fwd("c"), bwd("d"), params()), cfg={"n2": "M"})
    add("evaluation", "evalm", kc, (2, 2), lambda k, fwd, bwd, params: (fwd("c"), bwd("d"), params()))
    add("square", "square", (2, 2, 1, 0, 1), (("H", 0), ("W", 0)), lambda k, fwd, bwd, params: fwd("c"))
    add("square", "square6", (2, 2, 2, 1, 2), (("H", 0), ("W", 1)), lambda k, fwd, bwd, params: fwd("c"))
    # sizes that differ in every role, with one channel or one image
    add("single", "fwd", kc, (("H", 0), ("W", 0)), ff, sym={"ci": 1, "co": "D", "n": "N"})
    add("single", "fwd", kc, (("H", 0), ("W", 0)), ff, sym={"ci": "C", "co": 1, "n": 1})
    add("single", "bwd", kc, (3, 2), fb, sym={"ci": 1, "co": "D", "n": "N"})
    add("single", "bwd", kc, (2, 3), fb, sym={"ci": "C", "co": 1, "n": 1})

    def up(k, fwd, bwd, params):
        k.real("nw", P(2))
        k.real("ng", P(2))
        ren = {"w": "pw0", "b": "pw1"}
        D, C = k.dim("co"), k.dim("ci")
        k.tensor("pw0", [D, C, P(2), P(1)], lambda o, c, i, j: el("w", flat([D, C, P(2), P(1)], [o, c, i, j])))
        k.tensor("pw1", [D, ONE], lambda o, u: el("b", o))
        N, OH, OW = k.dim("n"), k.dim("oh"), k.dim("ow")
        k.tensor("pg1", [D, ONE], lambda o, u: sigma([N, OH, OW], lambda b, y, z: el("g", flat([N, D, OH, OW], [b, o, y, z]))))
        H, W = k.dim("h"), k.dim("wd")

        def wcell(o, c, i, j):
            def term(b, y, z):
                ih, iw = y + i - 1, z + j - 1
                return ite(band(inside(ih, H), inside(iw, W)), el("a", flat([N, C, H, W], [b, c, ih, iw])) * el("g", flat([N, D, OH, OW], [b, o, y, z])), ZERO)
            return sigma([N, OH, OW], term)
        k.tensor("pg0", [D, C, P(2), P(1)], wcell)
    add("update/pairs", "upd", kc, (2, 2), up)
    add("initial", "init", (2, 3, 1, 0, 1), (3, 3), lambda k, f, b, p: (k.ints("ws", [k.dim("co"), k.dim("ci"), P(2), P(3)]), k.tensor("b", [k.dim("co"), ONE], lambda o, u: ZERO)))
    fixed = {**base, "kh": 2, "kw": 2, "st": 1, "pad": 1, "dil": 1, "h": "H", "wd": "W"}
    for nm, sc in (("rank-3", "rank3"), ("rank-2", "rank2")):
        out.append(Case("rejects/" + nm, sc, fixed, lambda k: k.throws(), unit=U))
    out.append(Case("rejects/channels", "chan", {**fixed, "c2": "E"}, lambda k: k.throws(), unit=U, facts=lambda k: [bnot(eq(k.dim("c2"), k.dim("ci")))], instances=[{"N": 2, "C": 2, "E": 3, "D": 2, "H": 2, "W": 3}, {"N": 1, "C": 2, "E": 1, "D": 1, "H": 3, "W": 2}, {"N": 3, "C": 1, "E": 2, "D": 2, "H": 2, "W": 2}]))
    return out


spec("C13", "Convolution layers with concrete kernel, stride, padding and dilation but symbolic batch size, channel counts and image sizes and arbitrary parameters and data are run forward and backward; every derived output, input-gradient, weight-gradient and bias-gradient element is compared with the cross-correlation sums.")(c13_cases)


# ---- C14
def c14_cases(tier):
    out = []
    U = "c14.cpp"
    base = {"n": "N", "c": "C"}

    def window(k, b, c, y, z, H, W, p, st, pad):
        for i in range(p):
            for j in range(p):
                ih, iw = y * st + (i - pad), z * st + (j - pad)
                yield band(inside(ih, H), inside(iw, W)), ih, iw

    def add(nm, sc, pc, sizes, f, sym=None, **kw):
        p, st, pad = pc
        lo = {}
        cfg = {**(sym or base), "p": p, "st": st, "pad": pad}
        for q, s in (("h", sizes[0]), ("wd", sizes[1])):
            o = {"h": "oh", "wd": "ow"}[q]
            if isinstance(s, int):
                cfg[q] = s
                cfg[o] = (s + 2 * pad - p) // st + 1
            else:
                cfg[o] = s[0]
                cfg[q] = lambda k, o=o, r=s[1]: k.dim(o) * st - st + (p - 2 * pad + r)
                lo.setdefault(s[0], 1)
                while st * (lo[s[0]] - 1) + p - 2 * pad + s[1] < 1:
                    lo[s[0]] += 1
        cfg.update(kw.pop("cfg", {}))

        def check(k):
            k.returns()
            f(k, p, st, pad)
        out.append(Case("%s/p%d-s%d-pad%d-%sx%s" % ((nm,) + pc + tuple("%s+%d" % s if isinstance(s, tuple) else s for s in sizes)), sc, cfg, check, lo=lo, unit=U, modes=("generic", "neg"), **kw))

    def fwd(k, p, st, pad, nm="c", x="a", n="n"):
        N, C, H, W, OH, OW = [k.dim(q) for q in (n, "c", "h", "wd", "oh", "ow")]

        def cell(b, c, y, z):
            v = -ap(T.INF)
            for ok, ih, iw in window(k, b, c, y, z, H, W, p, st, pad):
                w = el(x, flat([N, C, H, W], [b, c, ih, iw]))
                v = ite(band(ok, lt(v, w)), w, v)
            return v
        k.tensor(nm, [N, C, OH, OW], cell)

    def bwd(k, p, st, pad, nm="d", x="a", g="g", n="n"):
        N, C, H, W, OH, OW = [k.dim(q) for q in (n, "c", "h", "wd", "oh", "ow")]
        k.tensor(nm, [N, C, H, W], None, shape_only=True)

        def judge(e, sizes, cell):
            b_, c_, h_, w_ = sizes
            oh, ow = int(e.poly(OH, {})), int(e.poly(OW, {}))
            got = {}
            for ix in itertools.product(*map(range, sizes)):
                v = cell(*ix)
                if v != int(v) or v < 0:
                    return "position %s receives something that is not a sum of upstream gradients" % (ix,)
                v = int(v)
                j = 0
                while v:
                    d = v & 15
                    if d > 1:
                        return "an upstream gradient is added more than once at %s" % (ix,)
                    if d:
                        got.setdefault(j, []).append(ix)
                    v >>= 4
                    j += 1
            for b, c, y, z in itertools.product(range(b_), range(c_), range(oh), range(ow)):
                j = ((b * c_ + c) * oh + y) * ow + z
                at = got.pop(j, [])
                if len(at) != 1:
                    return "the gradient of output %s goes to %s" % ((b, c, y, z), at or "no position")
                q = at[0]
                cells = [(b, c, i, l) for i in range(y * st - pad, y * st - pad + p) for l in range(z * st - pad, z * st - pad + p) if 0 <= i < h_ and 0 <= l < w_]
                val = lambda t: e.real(x, ((t[0] * c_ + t[1]) * h_ + t[2]) * w_ + t[3])
                if q not in cells or val(q) != max(map(val, cells)):
                    return "the gradient of output %s goes to %s, which is not a maximum of its window" % ((b, c, y, z), q)
            return "a gradient that does not exist is used" if got else None
        k.inspect(nm, [N, C, H, W], judge, over={g: lambda i: 16 ** int(i)}, what="routing")

    ff = lambda k, p, st, pad: (fwd(k, p, st, pad), same(k, "a", [k.dim(q) for q in ("n", "c", "h", "wd")]))
    fb = lambda k, p, st, pad: (bwd(k, p, st, pad), same(k, "a", [k.dim(q) for q in ("n", "c", "h", "wd")]), same(k, "g", [k.dim(q) for q in ("n", "c", "oh", "ow")]))
    for pc in [(1, 1, 0), (2, 2, 0), (2, 1, 0), (3, 1, 0), (2, 1, 1), (2, 2, 1), (3, 2, 1), (2, 3, 0), (3, 2, 2), (2, 3, 1), (3, 4, 1)]:
        add("forward", "fwd", pc, (("H", 0), ("W", pc[1] - 1)), ff)
        add("backward", "bwd", pc, (3, 4) if pc[0] < 3 else (4, 3), fb)
    both = lambda k, p, st, pad: (fwd(k, p, st, pad), bwd(k, p, st, pad))
    add("double", "fwdd", (2, 2, 1), (("H", 0), ("W", 0)), fwd)
    add("double", "bwdd", (2, 1, 0), (2, 3), bwd)
    add("again", "again", (2, 1, 1), (2, 2), both, cfg={"n2": "M"})
    add("evaluation", "evalm", (2, 2, 0), (4, 2), both)
    add("default-stride", "one", (2, 2, 0), (4, 5), both)
    add("default-stride", "one", (3, 3, 0), (("H", 0), ("W", 1)), fwd)
    add("default-padding", "two", (3, 2, 0), (5, 3), both)
    add("single", "fwd", (2, 2, 0), (("H", 0), ("W", 0)), ff, sym={"n": 1, "c": "C"})
    add("single", "bwd", (2, 1, 0), (3, 2), fb, sym={"n": "N", "c": 1})
    if tier == "thorough":
        for pc in itertools.product((1, 2, 3, 4), (1, 2, 3), (0, 1, 2)):
            for sz in ((4, 5), (2, 3), (3, 2)):
                if pc[2] < pc[0] and all(sz[j] + 2 * pc[2] - pc[0] >= 0 for j in (0, 1)):
                    add("small", "evalm", pc, sz, both)
    fixed = {**base, "h": "H", "wd": "W", "p": 2, "st": 2, "pad": 0, "oh": 1, "ow": 1}
    for nm, sc in (("rank-3", "rank3"), ("rank-2", "rank2")):
        out.append(Case("rejects/" + nm, sc, fixed, lambda k: k.throws(), unit=U, lo={"H": 2, "W": 2}))
    return out


spec("C14", "Max pooling with concrete pool size, stride and padding and symbolic batch size, channel count and image sizes is run forward and backward over symbolic data: each output element is compared with the maximum of the in-bounds cells of its window, and the gradient of each output is traced to the cells that receive it.")(c14_cases)


# ---- C15, C16
HALF = Fraction(1, 2)
EPS, MOM = rsym("eps"), rsym("mom")


class Norm:
    """batch normalization of one input"""

    def __init__(self, k, x, rank, names=None):
        names = names or ("n", "f", "h", "w")[:rank]
        self.d = [k.dim(q) for q in names[:rank]]
        self.x = x
        self.red = [self.d[0]] + self.d[2:]
        self.m = total(self.red)

    def val(self, r):
        """the reduced positions of feature f"""
        return lambda f: (lambda *q: el(self.x, flat(self.d, (q[0], f) + q[1:])))(*r)

    def sum(self, f, body):
        return sigma(self.red, lambda *q: body(el(self.x, flat(self.d, (q[0], f) + q[1:])), (q[0], f) + q[1:]))

    def mean(self, f):
        return self.sum(f, lambda v, ix: v) * inv1(self.m)

    def var(self, f):
        mu = self.mean(f)
        return self.sum(f, lambda v, ix: (v - mu) * (v - mu)) * inv1(self.m)


def bn_apply(v, mu, var, ga, be, eps):
    return (v - mu) * power(var + eps, -HALF) * ga + be


def one(f):
    return ONE


def zero(f):
    return ZERO


def c15_cases(tier):
    out = []
    U = "c15.cpp"
    X2, X4 = {"n": "N", "f": "F"}, {"n": "N", "f": "F", "h": "H", "w": "W"}
    Y2, Y4 = {"m": "M"}, {"m": "M", "u": "U", "v": "V"}
    R = {"eps": "pos", "mom": "unit"}

    def dims(k, r, other=False):
        return [k.dim(q) for q in (("m", "f", "u", "v") if other else ("n", "f", "h", "w"))[:r]]

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            k.returns()
            f(k)
        lo = {s: 2 for s in cfg.values() if isinstance(s, str)}
        lo.update(kw.pop("lo", {}))
        out.append(Case(nm, sc, cfg, check, lo=lo, domain=R, unit=U, **kw))

    def run(mu, var, st, mom=MOM):
        m0, v0 = st
        return (lambda f: mom * m0(f) + (ONE - mom) * mu(f)), (lambda f: mom * v0(f) + (ONE - mom) * var(f))

    def apply(k, nm, x, d, mu, var, ga=one, be=zero, eps=EPS):
        k.tensor(nm, d, lambda *ix: bn_apply(el(x, flat(d, ix)), mu(ix[1]), var(ix[1]), ga(ix[1]), be(ix[1]), eps))

    def first(r, s, eps=EPS, mom=MOM):
        def f(k):
            n = Norm(k, "a", r)
            apply(k, "c", "a", dims(k, r), n.mean, n.var, eps=eps)
            st = run(n.mean, n.var, (zero, one), mom)
            apply(k, "d", "b", dims(k, s, True), *st, eps=eps)
        return f
    args = lambda k: [same(k, "a", dims(k, 2)), same(k, "b", dims(k, 2, True))]
    add("first/2-2", "first2", {**X2, **Y2}, lambda k: (first(2, 2)(k), args(k)))
    add("first/4-4", "first4", {**X4, **Y4}, first(4, 4), timeout=300)
    add("first/2-4", "first24", {**X2, **Y4}, first(2, 4))
    add("first/4-2", "first42", {**X4, **Y2}, first(4, 2))
    add("double/2", "first2d", {**X2, **Y2}, first(2, 2))
    add("double/4", "first4d", {**X4, **Y4, "h": 2, "u": 1}, first(4, 4))
    add("defaults", "defaults", {**X2, **Y2}, first(2, 2, P(Fraction(1, 100000)), P(Fraction(9, 10))))
    for cfg, nm in (({"n": 1}, "batch"), ({"f": 1}, "feature"), ({"m": 1}, "evaluated")):
        add("single/2-" + nm, "first2", {**X2, **Y2, **cfg}, first(2, 2))
    for cfg, nm in (({"n": 1}, "batch"), ({"f": 1}, "channel"), ({"h": 1}, "row"), ({"w": 1}, "column"), ({"m": 1, "u": 1, "v": 1}, "evaluated")):
        add("single/4-" + nm, "first4", {**X4, **Y4, **cfg}, first(4, 4))

    def fresh_(r):
        return lambda k: apply(k, "d", "b", dims(k, r, True), zero, one)
    add("untrained/2", "fresh2", {"f": "F", **Y2}, fresh_(2))
    add("untrained/4", "fresh4", {"f": "F", **Y4}, fresh_(4))

    def scaled(r):
        def f(k):
            ga, be = (lambda f: el("ga", f)), (lambda f: el("be", f))
            z, n = Norm(k, "z", 2, ("k", "f")), Norm(k, "a", r)
            apply(k, "c", "a", dims(k, r), n.mean, n.var, ga, be)
            st = run(n.mean, n.var, run(z.mean, z.var, (zero, one)))
            apply(k, "d", "b", dims(k, r, True), *st, ga, be)
        return f
    add("scaled/2", "scaled2", {**X2, **Y2, "k": "K"}, scaled(2))
    add("scaled/4", "scaled4", {**X4, **Y4, "k": 2, "h": 2, "u": 1}, scaled(4))

    def history(r):
        def f(k):
            n, z = Norm(k, "a", r), Norm(k, "z", r, ("m", "f", "u", "v"))
            apply(k, "c", "a", dims(k, r), n.mean, n.var)
            s1 = run(n.mean, n.var, (zero, one))
            apply(k, "d", "b", dims(k, r, True), *s1)
            apply(k, "cz", "z", dims(k, r, True), z.mean, z.var)
            apply(k, "d2", "b", dims(k, r, True), *run(z.mean, z.var, s1))
        return f
    add("history/2", "history2", {**X2, **Y2}, history(2))
    add("history/4", "history4", {**X4, **Y4, "h": 2, "u": 1}, history(4), timeout=300)
    for sc in ("rank1", "rank3", "rank3e"):
        out.append(Case("rejects/" + sc, sc, {"n": "N", "f": "F", "w": "W"}, lambda k: k.throws(), unit=U, domain=R))
    ne = lambda k: [bnot(eq(k.dim("g"), k.dim("f")))]
    inst = [{"N": 2, "F": 3, "G": 2, "H": 2, "W": 2}, {"N": 3, "F": 2, "G": 4, "H": 1, "W": 2}, {"N": 2, "F": 2, "G": 1, "H": 2, "W": 2}]
    out.append(Case("rejects/features-2", "features", {"n": "N", "f": "F", "g": "G"}, lambda k: k.throws(), unit=U, facts=ne, domain=R, instances=[{q: i[q] for q in "NFG"} for i in inst]))
    out.append(Case("rejects/features-4", "features4", {"n": "N", "f": "F", "g": "G", "h": "H", "w": "W"}, lambda k: k.throws(), unit=U, facts=ne, domain=R, instances=inst))
    return out


spec("C15", "Sequences of training and evaluation calls on rank-2 and rank-4 inputs with symbolic sizes, contents, epsilon, momentum, scale and shift; every derived output element is compared with the normalisation by the batch statistics (training) or by the exponentially averaged statistics of the training calls so far (evaluation).")(c15_cases)


def c16_cases(tier):
    out = []
    U = "c15.cpp"
    X2, X4 = {"n": "N", "f": "F"}, {"n": "N", "f": "F", "h": "H", "w": "W"}
    R = {"eps": "pos", "mom": "unit"}

    def bwd(r, ga=one, be=zero, probe=True):
        def f(k):
            k.returns()
            n = Norm(k, "a", r)
            d = n.d
            istd = lambda f: power(n.var(f) + EPS, -HALF)
            xh = lambda v, f: (v - n.mean(f)) * istd(f)
            g = lambda ix: el("g", flat(d, ix))
            sg = lambda f: n.sum(f, lambda v, ix: g(ix))
            sgx = lambda f: n.sum(f, lambda v, ix: g(ix) * xh(v, f))

            def cell(*ix):
                f = ix[1]
                v = el("a", flat(d, ix))
                return ga(f) * istd(f) * (g(ix) - sg(f) * inv1(n.m) - xh(v, f) * sgx(f) * inv1(n.m))
            k.tensor("d", d, cell)
            k.real("nw", P(2))
            k.real("ng", P(2))
            F = [k.dim("f")]
            k.tensor("pg0", F, sgx, what="scale gradient")
            k.tensor("pg1", F, sg, what="shift gradient")
            k.tensor("pw0", F, ga, what="scale")
            k.tensor("pw1", F, be, what="shift")
        return f

    def add(nm, sc, cfg, f, **kw):
        lo = {s: 2 for s in cfg.values() if isinstance(s, str)}
        out.append(Case(nm, sc, cfg, f, lo=lo, domain=R, unit=U, **kw))
    gb = ((lambda f: el("ga", f)), (lambda f: el("be", f)))
    add("first/2", "bwd2", X2, bwd(2))
    add("first/4", "bwd4", X4, bwd(4), timeout=300)
    add("double/2", "bwd2d", X2, bwd(2))
    add("double/4", "bwd4d", {**X4, "h": 2}, bwd(4))
    add("scaled/2", "bwds2", {**X2, "k": "K"}, bwd(2, *gb))
    add("scaled/4", "bwds4", {**X4, "k": 2, "h": 2}, bwd(4, *gb), timeout=300)
    for cfg, nm in (({"n": 1}, "batch"), ({"f": 1}, "feature")):
        add("single/2-" + nm, "bwd2", {**X2, **cfg}, bwd(2))
    for cfg, nm in (({"n": 1}, "batch"), ({"f": 1}, "channel"), ({"h": 1}, "row"), ({"w": 1}, "column")):
        add("single/4-" + nm, "bwd4", {**X4, **cfg}, bwd(4))
    add("latest/2", "last2", {**X2, "m": "M"}, bwd(2))
    add("latest/4", "last4", {**X4, "h": 2, "m": 2, "u": "U", "v": 1}, bwd(4))
    add("latest/2-4", "last24", {**X2, "m": 2, "u": "U", "v": 1}, bwd(2))
    add("latest/4-2", "last42", {**X4, "h": 2, "m": "M"}, bwd(4))
    out.append(Case("rejects/no-forward", "noforward", X2, lambda k: k.throws(), unit=U, domain=R))
    return out


spec("C16", "Backward after training-mode forward calls on rank-2 and rank-4 inputs with symbolic sizes, contents, upstream gradient, epsilon and scale; every derived element is compared with the closed-form derivative of the normalisation, and the tensors handed to the optimizer with the parameter gradients.")(c16_cases)


# ---- C17
def c17_cases(tier):
    out = []
    U = "c17.cpp"
    R = {"rate": "unit"}

    def cells_of(k, name, idx=0):
        """all cells of an output as a function of the draws"""
        return None

    def draws(k, pairs, rates=(0.0, 0.125, 0.3, 0.5, 0.75, 0.9)):
        """pairs: (forward output, its input, backward output, its gradient, shape)"""
        o = k.R.outs
        recs = []
        for c, ci, a, d, di, g, dims in pairs:
            cell = {}
            for nm, which in ((c, ci), (d, di)):
                arr = [x for x in o.get(nm, ()) if x[0] == "arr"]
                if len(arr) <= which:
                    k.add("mask", UNDECIDED, "output %s not produced" % nm)
                    return
                _, v, (off, n), pc, facts = arr[which]
                idx = fresh("x")
                f = facts.copy()
                f.bound(idx, 0, total(dims) - 1)
                if not hasattr(v, "c"):
                    cell[nm] = (None, [P(x) for x in v.items])
                    continue
                with T.with_facts(f):
                    cell[nm] = (idx, v.c.read(off + ap(idx)))
            recs.append((c, a, d, g, dims, cell))
        unknown = None
        done = 0
        for j, e in enumerate(k.envs(2 * k.trials)):
            e.mode = "generic"
            rate = rates[j % len(rates)]
            e.over["rate"] = lambda: rate
            state = {"base": 0.5, "at": None, "u": 0.5}
            used = {}

            def U01(*key):
                used.setdefault(key, len(used))
                return state["u"] if state["at"] == key else state["base"]
            e.over["U01"] = U01

            def sweep():
                e.memo.clear()
                r = []
                for c, a, d, g, dims, cell in recs:
                    n = int(e.poly(total(dims), {}))
                    for i in range(n):
                        vs = []
                        for nm in (c, d):
                            x, body = cell[nm]
                            vs.append(float(e.poly(body[i], {})) if x is None else float(e.poly(body, {x: i})))
                        r.append((vs[0], vs[1], e.real(a, i), e.real(g, i), (c, i)))
                return r
            try:
                bad = None
                low, high = None, None
                # which value of the draw keeps an element
                keep = 0
                grid = [(q + 0.5) / 64 for q in range(64)]
                kept = None
                for u in grid:
                    state.update(base=u, at=None)
                    ks = []
                    for y, dy, a, g, at in sweep():
                        if y == 0 and dy == 0:
                            ks.append(False)
                        elif abs(y - a / (1 - rate)) < 1e-6 * (1 + abs(y)) and abs(dy - g / (1 - rate)) < 1e-6 * (1 + abs(dy)):
                            ks.append(True)
                        else:
                            bad = "element %s: forward %g for the input %g and backward %g for the gradient %g at rate %g" % (at, y, a, dy, g, rate)
                            break
                    if bad:
                        break
                    kept = [0] * len(ks) if kept is None else kept
                    kept = [q + b for q, b in zip(kept, ks)]
                if not bad:
                    w = [q for q in kept if abs(q / 64 - (1 - rate)) > 1.01 / 64]
                    if w:
                        bad = "an element is kept for %d of 64 equally likely draws at rate %g" % (w[0], rate)
                if not bad and 0.05 < rate < 0.95:
                    # one draw per element, none shared
                    state.update(base=0.999, at=None)
                    ref = [y[0] == 0 for y in sweep()]
                    owner = [None] * len(ref)
                    keys = list(used)
                    if len(keys) > 600:
                        raise UnknownVal("many draws")
                    state["u"] = 0.001
                    for q in keys:
                        state["at"] = q
                        now = [y[0] == 0 for y in sweep()]
                        ch = [i for i in range(len(ref)) if ref[i] != now[i]]
                        if len(ch) > 1:
                            bad = "one random draw decides %d elements" % len(ch)
                            break
                        for i in ch:
                            if owner[i] is not None:
                                bad = "an element depends on two draws"
                            owner[i] = q
                    if not bad and None in owner:
                        bad = "an element depends on no draw of its own"
            except UnknownVal as x:
                unknown = str(x)
                continue
            except Poison as x:
                continue
            done += 1
            if bad:
                k.add("mask", VIOLATED, "%s (%s)" % (bad, k.describe(e)), k.entry(), "one fresh draw per element")
                return
        k.add("mask", UNDECIDED if unknown or not done else AGREED, unknown or "for %d sampled assignments and rates" % done, rule="one fresh draw per element")

    def sh(k, p, r):
        return bdim(k, p, r)

    def ok(k):
        # the constructor rejects rates outside [0,1): the sampled rates lie inside
        k.returns()

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            ok(k)
            f(k)
        out.append(Case(nm, sc, cfg, check, domain=R, unit=U, **kw))

    def shape(k, nm, d):
        k.tensor(nm, d, None, shape_only=True)
    for r in (1, 2, 3, 4):
        def f(k, r=r):
            d = sh(k, "a", r)
            shape(k, "c", d)
            shape(k, "d", d)
            draws(k, [("c", 0, "a", "d", 0, "g", d)])
            same(k, "a", d)
            same(k, "g", d)
        add("training/%d" % r, "both%d" % r, ranked("a", r), f)

        def ident(k, r=r):
            d = sh(k, "a", r)
            for nm, x in (("c", "a"), ("d", "g"), ("a", "a"), ("g", "g")):
                k.tensor(nm, d, lambda *ix: el(x, flat(d, ix)))
        add("evaluation/%d" % r, "eval%d" % r, ranked("a", r), ident)
    add("evaluation/double", "eval2d", ranked("a", 2), lambda k: [k.tensor(nm, sh(k, "a", 2), lambda *ix: el(x, flat(sh(k, "a", 2), ix))) for nm, x in (("c", "a"), ("d", "g"))])
    add("training/double", "both2d", ranked("a", 2), lambda k: draws(k, [("c", 0, "a", "d", 0, "g", sh(k, "a", 2))]))
    AB = {**ranked("a", 2), **ranked("b", 2, "STUV")}

    def two(k):
        d, b = sh(k, "a", 2), sh(k, "b", 2)
        for nm, q in (("c", d), ("d", d), ("c2", b), ("d2", b)):
            shape(k, nm, q)
        draws(k, [("c", 0, "a", "d", 0, "g", d), ("c2", 0, "b", "d2", 0, "h", b)])
    add("fresh/shapes", "twice", AB, two)

    def again(k):
        d = sh(k, "a", 2)
        draws(k, [("c", 0, "a", "d", 0, "g", d), ("c2", 0, "a", "d2", 0, "g", d)])
    add("fresh/same-input", "again", ranked("a", 2), again)

    def sw(k):
        d, b = sh(k, "a", 2), sh(k, "b", 2)
        k.tensor("e", b, lambda *ix: el("b", flat(b, ix)))
        k.tensor("f", b, lambda *ix: el("h", flat(b, ix)))
        draws(k, [("c", 0, "a", "d", 0, "g", d)])
    add("switched", "switched", AB, sw)
    for q in (ZERO, P(Fraction(1, 8)), P(Fraction(15, 16))):
        def f(k, q=q):
            d = sh(k, "a", 2)
            draws(k, [("c", 0, "a", "d", 0, "g", d)], rates=(float(q.const()),))
        add("rate/%s" % q, "both2", {**ranked("a", 2), "rate": lambda k, q=q: q}, f)
    out.append(Case("rejects/no-mask", "nomask", ranked("a", 2), lambda k: k.throws(), domain=R, unit=U))
    return out


spec("C17", "Training and evaluation calls on tensors of rank 1 to 4; the derived outputs are functions of the random draws: for every element the set of draw values that zero it is measured against the rate, the kept value against 1/(1-rate), the dependence of elements on draws is checked to be one fresh draw per element and call, and backward is compared under the same draws.")(c17_cases)


# ---- C18
def c18_cases(tier):
    out = []
    U = "c18.cpp"
    AB = {**ranked("a", 4), **ranked("b", 4, "STUV")}

    def flatd(d):
        return [d[0], total(d[1:])]

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            k.returns()
            f(k)
        out.append(Case(nm, sc, cfg, check, unit=U, **kw))

    def keep(k, nm, x, d):
        k.tensor(nm, d, lambda *ix: el(x, flat(d, ix)))
    for r in (2, 3, 4, 5):
        def f(k, r=r):
            d = bdim(k, "a", min(r, 4)) + ([P(2)] if r == 5 else [])
            keep(k, "c", "a", flatd(d))
            keep(k, "d", "g", d)
            keep(k, "a", "a", d)
            keep(k, "g", "g", flatd(d))
        add("flatten/%d" % r, "flat%d" % r, ranked("a", min(r, 4)), f)

    def fd(k):
        d = bdim(k, "a", 4)
        keep(k, "c", "a", flatd(d))
        keep(k, "d", "g", d)
    add("flatten/double", "flat4d", ranked("a", 4), fd)
    for ra, rb in ((4, 2), (2, 4), (3, 4)):
        def f(k, ra=ra, rb=rb):
            a, b = bdim(k, "a", ra), bdim(k, "b", rb)
            keep(k, "c", "a", flatd(a))
            keep(k, "d", "g", a)
            keep(k, "c2", "b", flatd(b))
            keep(k, "d2", "h", b)
        add("flatten/%d-%d" % (ra, rb), "seq%d%d" % (ra, rb), {**ranked("a", ra), **ranked("b", rb, "STUV")}, f)

    def fe(k):
        b = bdim(k, "b", 3)
        keep(k, "c2", "b", flatd(b))
        keep(k, "d2", "h", b)
    add("flatten/evaluation", "seqeval", {**ranked("a", 4), **ranked("b", 3, "STUV")}, fe)
    add("flatten/update", "flatupd", ranked("a", 3), lambda k: keep(k, "c", "a", flatd(bdim(k, "a", 3))))
    out.append(Case("rejects/flatten-1", "flat1", ranked("a", 1), lambda k: k.throws(), unit=U))
    out.append(Case("rejects/flatten-none", "flatnone", ranked("a", 2), lambda k: k.throws(), unit=U))
    out.append(Case("rejects/activation-none", "actnone", ranked("a", 2), lambda k: k.throws(), unit=U))
    KINK = {"a": (0.0,), "b": (0.0,)}

    def fw(n, x, d):
        return (lambda *ix: softmax_cell(x, d, ix)) if n == "softmax" else (lambda *ix: FWD[n](el(x, flat(d, ix))))

    def bw(n, x, g, d):
        if n != "softmax":
            return lambda *ix: DER[n](el(x, flat(d, ix))) * el(g, flat(d, ix))

        def cell(*ix):
            s = softmax_cell(x, d, ix)
            return s * (el(g, flat(d, ix)) - sigma(d[1:], lambda *q: softmax_cell(x, d, (ix[0],) + q) * el(g, flat(d, (ix[0],) + q))))
        return cell
    for n in list(FWD) + ["softmax"]:
        if n == "leakydef":
            continue
        for t, r in (("act", 2), ("actd", 4)):
            def f(k, n=n, r=r):
                d = bdim(k, "a", r)
                k.tensor("c", d, fw(n, "a", d))
                k.tensor("d", d, bw(n, "a", "g", d))
                keep(k, "a", "a", d)
                keep(k, "g", "g", d)
            add("activation/%s/%d" % (n, r), "%s_%s" % (t, n), ranked("a", r), f, avoid=KINK)

        def s(k, n=n):
            d, b = bdim(k, "a", 2), bdim(k, "b", 3)
            k.tensor("c", d, fw(n, "a", d))
            k.tensor("d", d, bw(n, "a", "g", d))
            k.tensor("c2", b, fw(n, "b", b))
            k.tensor("d2", b, bw(n, "b", "h", b))
        add("activation/%s/sequence" % n, "acts_" + n, {**ranked("a", 2), **ranked("b", 3, "STUV")}, s, avoid=KINK)
    d2 = lambda k: bdim(k, "a", 2)
    add("activation/own-copy", "actkeep", ranked("a", 2), lambda k: k.tensor("d", d2(k), bw("sigmoid", "a", "g", d2(k))))
    add("activation/separate", "actlv", ranked("a", 2), lambda k: k.tensor("d", d2(k), bw("sigmoid", "a", "g", d2(k))))
    return out


spec("C18", "Flatten layers and activation layers with every activation, over tensors of several ranks and sequences of calls with different shapes; output shapes and elements are compared with the row-major regrouping and with the activation's definition and derivative at the latest input.")(c18_cases)


# ---- C19
MARGIN = P(Fraction("9.9999999999999995e-8"))  # the nearest double to 1e-7


def over(a, b):
    return a * power(b, -1)


def clamp(p):
    q = ite(lt(p, MARGIN), MARGIN, p)
    return ite(lt(ONE - MARGIN, q), ONE - MARGIN, q)


def c19_cases(tier):
    out = []
    U = "c19.cpp"

    def mse_value(p, y, d):
        return lambda *z: over(sigma([total(d)], lambda q: (el(p, q) - el(y, q)) * (el(p, q) - el(y, q))), total(d))

    def mse_grad(p, y, d):
        return lambda *ix: over(P(2) * (el(p, flat(d, ix)) - el(y, flat(d, ix))), total(d))

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            k.returns()
            f(k)
        out.append(Case(nm, sc, cfg, check, unit=U, **kw))

    def keep(k, nm, d):
        k.tensor(nm, d, lambda *ix: el(nm, flat(d, ix)), what="argument " + nm)
    for nm, sc, r in (("1", "mse1", 1), ("2", "mse2", 2), ("3", "mse3", 3), ("4", "mse4", 4), ("double", "mse2d", 2)):
        def f(k, r=r):
            d = bdim(k, "a", r)
            k.tensor("c", [ONE], mse_value("p", "y", d), what="value")
            k.tensor("d", d, mse_grad("p", "y", d), what="gradient")
            keep(k, "p", d)
            keep(k, "y", d)
        add("mse/" + nm, sc, ranked("a", r), f)

    def col(k):
        n = k.dim("a0")
        k.tensor("c", [ONE], mse_value("p", "y", [n]), what="value")
        k.tensor("d", [n, ONE], lambda i, z: mse_grad("p", "y", [n])(i), what="gradient")
        keep(k, "p", [n, ONE])
        keep(k, "y", [n])
    add("mse/column", "msecol", ranked("a", 1), col, lo={"N": 2})
    add("mse/column/single", "msecol", {"a0": 1}, col)
    add("mse/column/double", "msecold", ranked("a", 1), col, lo={"N": 2})
    AB = {**ranked("a", 2), **ranked("b", 2, "STUV")}

    def base(k):
        a, b = bdim(k, "a", 2), bdim(k, "b", 2)
        for q, p, y, d in (("", "p", "y", a), ("2", "q", "z", b)):
            k.tensor("c" + q, [ONE], mse_value(p, y, d), what="value" + q)
            k.tensor("d" + q, d, mse_grad(p, y, d), what="gradient" + q)
    add("mse/one-object", "msebase", AB, base)

    def cce_value(p, y, d):
        return lambda *z: over(-sigma(d, lambda i, j: el(y, flat(d, (i, j))) * fn("log", clamp(el(p, flat(d, (i, j)))))), d[0])

    def cce_grad(p, y, d):
        return lambda *ix: over(-el(y, flat(d, ix)) * inv1(clamp(el(p, flat(d, ix)))), d[0])
    edge = lambda u: (0.0, 1.0, -0.5, 1.5, 0.25, 0.75, 0.5, 5e-8)[int(u * 8) % 8]
    inside = {"p": "unit", "q": "unit"}
    for nm, sc in (("2", "cce2"), ("double", "cce2d")):
        def f(k):
            d = bdim(k, "a", 2)
            k.tensor("c", [ONE], cce_value("p", "y", d), what="value")
            keep(k, "p", d)
            keep(k, "y", d)
        add("cce/%s/value" % nm, sc, ranked("a", 2), f, domain={"p": edge})

        def f(k):
            d = bdim(k, "a", 2)
            k.tensor("c", [ONE], cce_value("p", "y", d), what="value")
            k.tensor("d", d, cce_grad("p", "y", d), what="gradient")
        add("cce/%s/gradient" % nm, sc, ranked("a", 2), f, domain=inside)

    def base(k):
        a, b = bdim(k, "a", 2), bdim(k, "b", 2)
        for q, p, y, d in (("", "p", "y", a), ("2", "q", "z", b)):
            k.tensor("c" + q, [ONE], cce_value(p, y, d), what="value" + q)
            k.tensor("d" + q, d, cce_grad(p, y, d), what="gradient" + q)
    add("cce/one-object", "ccebase", AB, base, domain=inside)
    differ = lambda *pairs: (lambda k: [bor(*[bnot(eq(k.dim(x), k.dim(y))) for x, y in pairs])])

    def rej(nm, sc, cfg, facts=(), inst=None):
        out.append(Case("rejects/" + nm, sc, cfg, lambda k: k.throws(), facts=facts, unit=U, instances=inst))
    S = lambda **kw: kw
    for w in "cg":
        nm = "value" if w == "c" else "gradient"
        rej("mse/2-1/" + nm, "mse%s12" % w, {**ranked("a", 2), **ranked("b", 1, "S")}, differ(("a0", "b0")), [S(N=2, M=3, S=6), S(N=2, M=3, S=3), S(N=2, M=1, S=1)])
        rej("mse/2-2/" + nm, "mse%s22" % w, {**ranked("a", 2), **ranked("b", 2, "ST")}, differ(("a0", "b0"), ("a1", "b1")), [S(N=2, M=3, S=3, T=2), S(N=2, M=3, S=1, T=3), S(N=2, M=3, S=2, T=1), S(N=2, M=3, S=1, T=1)])
        rej("mse/1-1/" + nm, "mse%s11" % w, {**ranked("a", 1), **ranked("b", 1, "S")}, differ(("a0", "b0")), [S(N=2, S=1), S(N=1, S=2), S(N=3, S=4)])
        rej("mse/3-2/" + nm, "mse%s32" % w, {**ranked("a", 3), **ranked("b", 2, "ST")}, (), [S(N=2, M=2, K=3, S=2, T=3), S(N=2, M=1, K=3, S=2, T=3)])
        rej("cce/2-2/" + nm, "cce%s22" % w, {**ranked("a", 2), **ranked("b", 2, "ST")}, differ(("a0", "b0"), ("a1", "b1")), [S(N=2, M=3, S=3, T=2), S(N=2, M=3, S=1, T=3), S(N=2, M=3, S=2, T=1)])
        rej("cce/2-1/" + nm, "cce%s21" % w, {**ranked("a", 2), **ranked("b", 1, "S")}, (), [S(N=2, M=3, S=6), S(N=2, M=3, S=2), S(N=1, M=3, S=3)])
        rej("cce/1-1/" + nm, "cce%s11" % w, ranked("a", 1), (), [S(N=2), S(N=1)])
    # a rank-1 target as long as the batch cannot stand for predictions of more than one column
    rej("mse/wide-column/value", "msec12", {"a0": "N", "a1": "M", "b0": "N"}, lambda k: [lt(1, k.dim("a1"))], [S(N=2, M=2), S(N=1, M=3)])
    rej("mse/wide-column/gradient", "mseg12", {"a0": "N", "a1": "M", "b0": "N"}, lambda k: [lt(1, k.dim("a1"))], [S(N=2, M=2), S(N=1, M=3)])
    return out


spec("C19", "Both losses over predictions and targets of rank 1 to 4 (cross-entropy: rank 2), also through the base class, repeatedly on one object and in double precision; value and gradient elements are compared with the definition and its derivative, and unusable pairs must end in an exception.")(c19_cases)


# ---- C20 - C23
class Sgd:
    name = "sgd"
    domain = {"lr": "pos", "damp": "unit", "mom": lambda u: 0.0 if u < 0.2 else u, "wd": lambda u: 0.0 if u < 0.2 else u, "ov": lambda u: 2 * u - 1}

    def __init__(self, k):
        r = lambda n: k.cfg.get(n, rsym(n))
        self.lr, self.mom, self.damp, self.wd, self.nes = r("lr"), r("mom"), r("damp"), r("wd"), k.cfg["nes"] is ONE
        self.calls = 0

    def fresh(self):
        return (ZERO,)

    def rate(self, ov):
        return self.lr if ov is None else ite(lt(0, ov), ov, self.lr)

    def step(self, w, g, st, n, lr):
        v, = st
        g = g + self.wd * w
        v = self.mom * v + (ONE - self.damp) * g
        u = g + self.mom * v if self.nes else v
        u = ite(eq0(self.mom), g, u)
        return w - lr * u, (v,)


class Rms:
    name = "rms"
    domain = {"lr": "pos", "al": "unit", "eps": "pos", "mom": lambda u: 0.0 if u < 0.2 else u, "wd": lambda u: 0.0 if u < 0.2 else u, "ov": lambda u: 2 * u - 1}

    def __init__(self, k):
        r = lambda n: k.cfg.get(n, rsym(n))
        self.lr, self.al, self.eps, self.mom, self.wd, self.cen = r("lr"), r("al"), r("eps"), r("mom"), r("wd"), k.cfg["cen"] is ONE
        self.calls = 0

    def fresh(self):
        return (ZERO, ZERO, ZERO)

    rate = Sgd.rate

    def step(self, w, g, st, n, lr):
        s, m, v = st
        g = g + self.wd * w
        s = self.al * s + (ONE - self.al) * g * g
        m = self.al * m + (ONE - self.al) * g
        u = g * power(s + self.eps - (m * m if self.cen else ZERO), -HALF)
        v = self.mom * v + u
        return w - lr * ite(lt(0, self.mom), v, u), (s, m, v)


class Adam:
    name = "adam"
    some = lambda u: 0.0 if u < 0.2 else u
    domain = {"lr": "pos", "b1": "unit", "b2": "unit", "eps": "pos", "l1": some, "l2": some, "dec": some, "ov": lambda u: 2 * u - 1}

    def __init__(self, k):
        r = lambda n: k.cfg.get(n, rsym(n))
        self.lr, self.b1, self.b2, self.eps, self.l1, self.l2, self.dec, self.bs = r("lr"), r("b1"), r("b2"), r("eps"), r("l1"), r("l2"), r("dec"), k.cfg["bs"]
        self.calls = 0

    def fresh(self):
        return (ZERO, ZERO)

    def rate(self, ov):
        r = self.lr * inv1(ONE + self.dec * P(self.calls))
        return r if ov is None else ite(lt(0, ov), ov, r)

    def step(self, w, g, st, n, lr):
        m, v = st
        g = over(g, self.bs)
        m = self.b1 * m + (ONE - self.b1) * g
        v = self.b2 * v + (ONE - self.b2) * g * g
        mh = m * inv1(ONE - power(self.b1, n))
        vh = v * inv1(ONE - power(self.b2, n))
        sign = ite(lt(0, w), ONE, ite(lt(w, 0), -ONE, ZERO))
        return w - lr * (mh * inv1(power(vh, HALF) + self.eps) + self.l1 * sign + self.l2 * w), (m, v)


class Run:
    """the specified history: tensors by name, each with its own state"""

    def __init__(self, k, kind):
        self.o = kind(k)
        self.at = {}

    def call(self, pairs, ov=None):
        self.o.calls += 1
        lr = self.o.rate(ov)
        for w, g in pairs:
            f, n = self.at.get(w, (lambda q, w=w: (el(w, q), self.o.fresh()), 0))

            def nxt(q, f=f, n=n, g=g, lr=lr):
                x, st = f(q)
                return self.o.step(x, el(g, q), st, n + 1, lr)
            self.at[w] = (nxt, n + 1)

    def now(self, w):
        f = self.at[w][0]
        return lambda q: f(q)[0]


def opt_cases(kind, tier):
    out = []
    U = "c20.cpp"
    nm = kind.name
    zero = lambda k: ZERO
    nz = lambda n: (lambda k: [bnot(eq0(rsym(n)))])
    gt0 = lambda n: (lambda k: [lt(0, rsym(n))])
    pos = lambda n: {n: lambda u: 0.05 + 0.9 * u}

    def steps(name, sc, r, cfg, facts=(), dom=None):
        def check(k):
            k.returns()
            d = bdim(k, "a", r)
            R = Run(k, kind)
            ov = k.cfg.get("ov", rsym("ov"))
            for i, (g, v) in enumerate((("f", None), ("g", ov), ("h", None))):
                R.call([("w", g)], v)
                f = R.now("w")
                k.tensor("w%d" % (i + 1), d, lambda *ix: f(flat(d, ix)), what="after step %d" % (i + 1))
            for g in "fgh":
                k.tensor(g, d, lambda *ix: el(g, flat(d, ix)), what="gradient " + g)
        fs = lambda k: [b for f in facts for b in f(k)]
        out.append(Case(name, "%s_%s" % (nm, sc), {**ranked("a", r), **cfg}, check, facts=fs, unit=U, domain={**kind.domain, **(dom or {})}))
    # every combination of the optional terms, each term either off or arbitrary
    opts = {"sgd": ("mom", "wd"), "rms": ("mom", "wd"), "adam": ("l1", "l2", "dec")}[nm]
    flag = {"sgd": "nes", "rms": "cen", "adam": None}[nm]
    base = {} if flag else {"bs": "B"}
    for on in itertools.product((0, 1), repeat=len(opts)):
        for fl in ((0, 1) if flag else (None,)):
            for ovn, ovc, ovf, ovd in (("+", {}, gt0("ov"), pos("ov")), ("none", {"ov": lambda k: -ONE}, None, {}), ("zero", {"ov": zero}, None, {})):
                if ovn != "+" and on != (1,) * len(opts):
                    continue
                cfg = dict(base)
                if flag:
                    cfg[flag] = fl
                facts = [ovf] if ovf else []
                dom = dict(ovd)
                for n, q in zip(opts, on):
                    if q:
                        facts.append(gt0(n))
                        dom.update(pos(n))
                    else:
                        cfg[n] = zero
                cfg.update(ovc)
                label = "+".join([n for n, q in zip(opts, on) if q] + ([flag] if fl else [])) or "plain"
                steps("%s/override %s" % (label, ovn), "steps2", 2, cfg, facts, dom)
    full = dict(base)
    if flag:
        full[flag] = 1
    allon = [gt0(n) for n in opts] + [gt0("ov")]
    alld = {**pos("ov")}
    for n in opts:
        alld.update(pos(n))
    for name, sc, r in (("rank 1", "steps1", 1), ("rank 4", "steps4", 4), ("double", "stepsd", 2)):
        steps(name, sc, r, full, allon, alld)
    if tier == "thorough" or nm != "adam":
        steps("any options", "steps2", 2, full)

    def defaults(k):
        k.returns()
        R = Run(k, kind)
        d = [k.dim("a0")]
        for i, g in enumerate("fg"):
            R.call([("w", g)])
            f = R.now("w")
            k.tensor("w%d" % (i + 1), d, lambda q: f(q), what="after step %d" % (i + 1))
    F = lambda s: (lambda k: P(Fraction(s)))
    dv = {"sgd": {"lr": F("0.01"), "mom": F("0.9"), "damp": zero, "wd": zero, "nes": 0},
          "rms": {"lr": F("0.01"), "al": F("0.99"), "eps": F("1e-8"), "mom": zero, "wd": zero, "cen": 0},
          "adam": {"lr": F("0.001"), "b1": F("0.9"), "b2": F("0.999"), "eps": F("1e-8"), "l1": zero, "l2": zero, "dec": zero, "bs": 1}}[nm]
    out.append(Case("default options", nm + "_defaults", {**ranked("a", 1), **dv}, defaults, unit=U))
    return out


spec("C20", "Three optimize calls, the second with an override, on tensors of rank 1, 2 and 4 with symbolic contents and options (each optional term both off and arbitrary); every element after every call is compared with the recurrence. After the first call weights and velocity are arbitrary reals, so the later calls are the general step.")(lambda tier: opt_cases(Sgd, tier))
spec("C21", "As for SGD: three optimize calls with symbolic contents and options, centered or not, with and without momentum and weight decay; every element after every call is compared with the recurrence.")(lambda tier: opt_cases(Rms, tier))
spec("C22", "As for SGD: three optimize calls with symbolic contents and options, with and without L1, L2 and decay; every element after every call is compared with the bias-corrected recurrence, the rate with the decay by the number of calls.")(lambda tier: opt_cases(Adam, tier))


def c23_cases(tier):
    out = []
    U = "c20.cpp"
    const = {
        Sgd: {"nes": 0, "ov": lambda k: -ONE},
        Rms: {"cen": 1, "ov": lambda k: -ONE},
        Adam: {"bs": 1, "l1": lambda k: ZERO, "l2": lambda k: ZERO, "dec": lambda k: ZERO},
    }
    for kind in (Sgd, Rms, Adam):
        nm = kind.name
        pos = {n: (lambda u: 0.05 + 0.9 * u) for n in ("mom", "wd")}
        facts = [lt(0, rsym(n)) for n in ("mom", "wd")] if kind is not Adam else []

        def add(name, sc, cfg, f, rejects=False, fs=(), inst=None, kind=kind, facts=facts, pos=pos):
            def check(k):
                if rejects:
                    k.throws()
                else:
                    k.returns()
                    f(k)
            out.append(Case("%s/%s" % (kind.name, name), "%s_%s" % (kind.name, sc), {**cfg, **const[kind]}, check, facts=lambda k: facts + [b for b in (fs(k) if fs else [])], unit=U, domain={**kind.domain, **pos}, instances=inst))

        def expect(k, R, names, shapes, tag):
            for o, w in names:
                f = R.now(w)
                d = shapes[w]
                k.tensor(o, d, lambda *ix: f(flat(d, ix)), what="%s after %s" % (w, tag))

        def pair(k, ra, rb, kind=kind, expect=expect):
            sh = {"w": bdim(k, "a", ra), "x": bdim(k, "b" if rb else "a", rb or ra)}
            R = Run(k, kind)
            R.call([("w", "f"), ("x", "p")])
            expect(k, R, (("w1", "w"), ("x1", "x")), sh, "both")
            R.call([("x", "q")])
            expect(k, R, (("w2", "w"), ("x2", "x")), sh, "the second alone")
            R.call([("x", "z"), ("w", "g")])
            expect(k, R, (("w3", "w"), ("x3", "x")), sh, "both in the other order")
        add("pair/2-3", "pair", {**ranked("a", 2), **ranked("b", 3, "STUV")}, lambda k, pair=pair: pair(k, 2, 3))
        add("pair/double", "paird", {**ranked("a", 2), **ranked("b", 1, "STUV")}, lambda k, pair=pair: pair(k, 2, 1))
        add("pair/same-shape", "samesize", ranked("a", 2), lambda k, pair=pair: pair(k, 2, 0))

        def triple(k, kind=kind, expect=expect):
            sh = {"w": bdim(k, "a", 2), "x": bdim(k, "b", 1), "y": bdim(k, "a", 2)}
            R = Run(k, kind)
            R.call([("w", "f"), ("x", "p"), ("y", "q")])
            expect(k, R, (("w1", "w"), ("x1", "x"), ("y1", "y")), sh, "one call")
        add("triple", "triple", {**ranked("a", 2), **ranked("b", 1, "STUV")}, triple)

        def layers(k, kind=kind, expect=expect):
            sh = {"w": bdim(k, "a", 2), "b": bdim(k, "a", 1), "x": bdim(k, "b", 2), "y": bdim(k, "b", 1)}
            R = Run(k, kind)
            for i in range(2):
                R.call([("w", "f"), ("b", "fb")])
                R.call([("x", "p"), ("y", "pb")])
            expect(k, R, [(n, n) for n in "wbxy"], sh, "two rounds over two layers")
        add("layers", "layers", {**ranked("a", 2), **ranked("b", 2, "STUV")}, layers)
        add("rejects/too few gradients", "counts", ranked("a", 1), None, True)
        add("rejects/too many gradients", "counts2", ranked("a", 1), None, True)
        AB = {**ranked("a", 2), **ranked("b", 2, "ST")}
        size = lambda k: [bnot(eq(total(bdim(k, "a", 2)), total(bdim(k, "b", 2))))]
        inst = [dict(N=2, M=3, S=2, T=2), dict(N=2, M=2, S=2, T=3), dict(N=2, M=3, S=1, T=1)]
        add("rejects/other size", "sizes", AB, None, True, size, inst)
        add("rejects/other size in second place", "sizes2", AB, None, True, size, inst)
        add("nothing to do", "none", {}, lambda k: k.ints("c", [1]) if False else None)
    return out


spec("C23", "One optimizer of each kind serves two to four tensors of different and of equal shapes, together, alone and in changing order; every element of every tensor after every call is compared with the recurrence run for that tensor alone. Lists of different lengths and gradients with another number of elements must end in an exception before anything is read.")(c23_cases)
