"""C24-C26: the model class"""
import itertools
from props import spec
from harness import Case, K, PROVED, AGREED, UNDECIDED, VIOLATED
from fractions import Fraction
from terms import *
import terms as T
from interp import VecV
from specs.tensor import el, flat, total, bdim, ranked, sigma, isym, rsym
from specs.nn import sig, inv1, over, mat, fdiv

U = "c24.cpp"
FWD, VAL, GRAD, BWD, UPD, OPT = 1, 2, 3, 4, 5, 6
NAMES = {1: "forward of layer %s", 2: "loss value (argument %s)", 3: "loss gradient (argument %s)", 4: "backward of layer %s", 5: "update of layer %s", 6: "optimizer %s"}


def aff(i, x):
    i = (i - 1) % 3 + 1
    return x * rsym("p%d" % i) + rsym("q%d" % i)


def affb(i, g):
    i = (i - 1) % 3 + 1
    return g * rsym("r%d" % i) + rsym("s%d" % i)


def fwd(n, x):
    ev = []
    for i in range(1, n + 1):
        ev.append((FWD, i, x))
        x = aff(i, x)
    return ev, x


def bwd(n, g):
    ev = []
    for i in range(n, 0, -1):
        ev.append((BWD, i, g))
        g = affb(i, g)
    return ev


def upd(n, o=7):
    return [e for i in range(1, n + 1) for e in ((UPD, i, ZERO), (OPT, o, P(i)))]


def sample(n, x, y):
    ev, p = fwd(n, x)
    return ev + [(VAL, 0, p), (VAL, 1, y), (GRAD, 0, p), (GRAD, 1, y)] + bwd(n, rsym("la") * p + rsym("lb") * y) + upd(n)


def tidy(ev):
    """the two calls of the loss may come in either order"""
    out, i = [], 0
    while i < len(ev):
        j = i
        while j < len(ev) and ev[j][0] in (VAL, GRAD):
            j += 1
        if j > i:
            out += sorted(ev[i:j], key=lambda e: e[0])
            i = j
        else:
            out.append(ev[i])
            i += 1
    return out


def said(ev):
    return NAMES[ev[0]] % ev[1]


def trace(k, want, what="calls"):
    """the recorded calls are exactly these, in this order, with these values"""
    o = k.R.outs.get("trace")
    if not o or k.R.err:
        k.add(what, UNDECIDED, k.R.err or "not produced")
        return
    kind, v, extra, pc, facts = o[0]
    if not isinstance(v, VecV) or not all(isinstance(x, Poly) for x in v.items):
        k.add(what, UNDECIDED, "calls not tracked")
        return
    if pc is not TRUE:
        k.add(what, UNDECIDED, "returns conditionally")
        return
    xs = v.items
    got = []
    for i in range(0, len(xs), 3):
        a, b = xs[i].const(), xs[i + 1].const()
        if a is None or b is None:
            k.add(what, UNDECIDED, "calls not tracked")
            return
        got.append((int(a), int(b), xs[i + 2]))
    got, want = tidy(got), tidy(want)
    for i, (g, w) in enumerate(zip(got, want)):
        if g[:2] != w[:2]:
            k.add(what, VIOLATED, "call %d is %s, expected %s" % (i + 1, said(g), said(w)), k.entry(), "sequence of calls")
            return
    if len(got) != len(want):
        k.add(what, VIOLATED, "%d calls, expected %d%s" % (len(got), len(want), ": next is " + said((got + want)[min(len(got), len(want))] if len(got) > len(want) else want[len(got)])), k.entry(), "sequence of calls")
        return
    k.add(what, PROVED, "%d calls" % len(got), rule="sequence of calls")
    for i, (g, w) in enumerate(zip(got, want)):
        if g[2] is not w[2] or i == len(got) - 1:
            k.value("%s %d: %s" % (what, i + 1, said(w)), g[2], w[2], facts, pc)


def c24_cases(tier):
    out = []

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            k.returns()
            f(k)
        out.append(Case(nm, sc, cfg, check, unit=U, **kw))
    e0 = lambda x: el(x, ZERO)
    for n in (0, 1, 2, 3, 4, 5, 10):
        def f(k, n=n):
            d = bdim(k, "a", 2)
            k.tensor("c", d, lambda *ix: fwd(n, el("x", flat(d, ix)))[1])
            k.tensor("x", d, lambda *ix: el("x", flat(d, ix)))
            trace(k, fwd(n, e0("x"))[0])
        add("predict/%d layers" % n, "m_predict", {"layers": n, **ranked("a", 2)}, f)

        def f(k, n=n):
            d = bdim(k, "a", 2)
            k.tensor("g", d, lambda *ix: el("g", flat(d, ix)))
            trace(k, bwd(n, e0("g")))
        add("backward/%d layers" % n, "m_backw", {"layers": n, **ranked("a", 2)}, f)
        add("update/%d layers" % n, "m_update", {"layers": n}, lambda k, n=n: trace(k, upd(n)))
    AB = {"a0": "N", "b0": "M"}
    for n, s in ((2, 0), (2, 1), (2, 2), (2, 3), (0, 2), (3, 3), (1, 9), (5, 4)):
        def f(k, n=n, s=s):
            k.real("n", P(s))
            ev = []
            for j in range(s):
                d = [k.dim("b0" if j == 1 else "a0")]
                if j < 3:
                    k.tensor("c%d" % j, d, lambda q: fwd(n, el("x%d" % j, q))[1])
                ev += fwd(n, e0("x%d" % (j % 3)))[0]
            trace(k, ev)
        add("predict/%d layers/%d samples" % (n, s), "m_predictbatch", {"layers": n, "samples": s, **AB}, f)
    combos = [(0, 2, 2), (1, 1, 1), (2, 1, 3), (2, 2, 2), (2, 3, 1), (3, 3, 2), (3, 2, 3), (2, 2, 0), (1, 3, 4), (9, 2, 2), (4, 5, 3), (1, 11, 2), (1, 2, 12), (1, 5, 5), (1, 1, 26)]
    for n, s, e in combos:
        def f(k, n=n, s=s, e=e):
            trace(k, [c for _ in range(e) for j in range(s) for c in sample(n, e0("x%d" % (j % 3)), e0("y%d" % (j % 3)))])
            for j in range(min(s, 2)):
                d = [k.dim("b0" if j == 1 else "a0")]
                for nm in ("x%d" % j, "y%d" % j):
                    k.tensor(nm, d, lambda q: el(nm, q))
        add("train/%d layers/%d samples/%d epochs" % (n, s, e), "m_train", {"layers": n, "samples": s, "epochs": e, **(AB if s * e <= 10 else {"a0": 2, "b0": 1})}, f)

    def more(k):
        ev = [c for j in range(2) for c in sample(1, e0("x%d" % j), e0("y%d" % j))]
        trace(k, ev + sample(1, e0("p"), e0("q")))
    add("train/again", "m_trainmore", AB, more)
    add("recompiled", "m_recompile", {}, lambda k: trace(k, upd(2, 7) + upd(2, 8)))

    def layers(k):
        for i in range(3):
            k.tensor("c%d" % i, [k.dim("a0")], lambda q: aff(i + 1, el("x", q)))
        trace(k, [(FWD, i + 1, e0("x")) for i in range(3)])
    add("getLayer", "m_getlayer", {"a0": "N"}, layers)

    def lv(k):
        k.tensor("c", [k.dim("a0")], lambda q: aff(2, aff(1, el("x", q))))
        trace(k, fwd(2, e0("x"))[0] + upd(2))
    add("copies", "m_lvalues", {"a0": "N"}, lv)

    def dense(x, w, b, n, m):
        """element of x*w + b; x is a function of row and column"""
        return lambda r, c: sigma([n], lambda q: x(r, q) * el(w, q * m + c)) + el(b, c)

    def step(k):
        n, i, h, o = k.dim("n"), k.dim("i"), k.dim("h"), k.dim("o")
        X, Y = mat("x", i), mat("y", o)
        A = dense(X, "w", "b", i, h)
        S = lambda r, c: sig(A(r, c))
        Pd = dense(S, "v", "c", h, o)
        G = lambda r, c: over(P(2) * (Pd(r, c) - Y(r, c)), n * o)
        D = lambda r, q: sigma([o], lambda c: G(r, c) * el("v", q * o + c)) * S(r, q) * (ONE - S(r, q))
        lr = rsym("lr")
        k.tensor("p", [n, o], Pd, what="prediction")
        k.tensor("v", [h, o], lambda q, c: el("v", q * o + c) - lr * sigma([n], lambda r: S(r, q) * G(r, c)), what="last weights")
        k.tensor("c", [ONE, o], lambda z, c: el("c", c) - lr * sigma([n], lambda r: G(r, c)), what="last biases")
        k.tensor("w", [i, h], lambda q, c: el("w", q * h + c) - lr * sigma([n], lambda r: X(r, q) * D(r, c)), what="first weights")
        k.tensor("b", [ONE, h], lambda z, c: el("b", c) - lr * sigma([n], lambda r: D(r, c)), what="first biases")
    D = {"i": "I", "o": "O", "h": "H", "n": "N"}
    small = [dict(I=2, O=2, H=3, N=2), dict(I=1, O=3, H=2, N=2)]
    dom = {"x": "small", "w": "small", "v": "small"}
    add("gradient step", "sgdstepf", D, step, instances=small, lo={"N": 2})
    add("gradient step/single", "sgdstepf", {**D, "n": 1}, step)
    add("gradient step/double", "sgdstepd", D, step, instances=small, lo={"N": 2})

    def dbl(k):
        n, i, o = k.dim("n"), k.dim("i"), k.dim("o")
        A = dense(mat("x", i), "w", "b", i, o)
        k.tensor("p", [n, o], lambda r, c: ite(lt(0, A(r, c)), A(r, c), ZERO))
    add("double", "dbl", {"i": "I", "o": "O", "n": "N"}, dbl, lo={"N": 2})
    return out


spec("C24", "Models of zero to three layers whose layers, loss and optimizer record their calls: the sequence of calls and the symbolic values passed along are compared with the stated order for up to three samples and four epochs, predictions element by element with the composition of the layers; one gradient-descent step through two fully connected layers and an activation is compared with the chain rule.")(c24_cases)


# ---- C25
def c25_cases(tier):
    from specs.nn import Norm, bn_apply, one, zero, EPS, MOM
    out = []
    U = "c25.cpp"

    def modes(nm, sc, seq):
        def check(k):
            k.returns()
            trace(k, [(w, i, P(m)) for w, ids, m in seq for i in ids])
        out.append(Case(nm, sc, {"a0": "N"}, check, unit=U))
    F, B, all3, back3 = 1, 4, (1, 2, 3), (3, 2, 1)
    modes("new model", "md_fresh", [(F, all3, 1), (B, back3, 1)])
    modes("evaluation", "md_eval", [(F, all3, 0), (F, all3, 0), (B, back3, 0), (F, all3, 0)])
    modes("evaluation/batch", "md_batch", [(F, all3, 0)] * 3)
    modes("training", "md_train", [(F, all3, 1), (B, back3, 1)] * 2)
    modes("evaluation and training", "md_evaltrain", [(F, all3, 0), (F, all3, 1), (B, back3, 1), (F, all3, 0)])
    modes("switching", "md_switch", [(F, all3, 0), (F, all3, 1), (F, all3, 1), (F, all3, 0)])
    modes("layer added later", "md_added", [(F, all3, 0), (F, (4,), 1), (F, all3 + (4,), 0), (F, all3 + (4,), 1)])
    modes("one layer", "md_one", [(F, (1,), 1), (F, (1,), 0), (F, (1,), 1)])
    ten, back10 = tuple(range(1, 11)), tuple(range(10, 0, -1))
    modes("ten layers", "md_many", [(F, ten, 0), (F, ten, 1), (B, back10, 1), (F, ten, 0), (B, back10, 0)])
    modes("layer on its own", "md_single", [(F, (1,), 1), (F, (1,), 0), (F, (1,), 1)])
    R = {"eps": "pos", "mom": "unit", "rate": lambda u: 0.1 + 0.8 * u}
    ND = {"n": "N", "f": "F", "m": "M"}
    rate = lambda k: [lt(0, rsym("rate")), lt(rsym("rate"), 1)]

    def add(nm, sc, cfg, f, **kw):
        def check(k):
            k.returns()
            f(k)
        lo = {s: 2 for s in cfg.values() if isinstance(s, str)}
        out.append(Case(nm, sc, cfg, check, lo=lo, domain=R, unit=U, facts=rate, **kw))

    def stats(n, st):
        m0, v0 = st
        return (lambda f: MOM * m0(f) + (ONE - MOM) * n.mean(f)), (lambda f: MOM * v0(f) + (ONE - MOM) * n.var(f))

    def norm(x, mu, var, d, w=lambda v: v):
        return lambda *ix: bn_apply(w(el(x, flat(d, ix))), mu(ix[1]), var(ix[1]), ONE, ZERO, EPS)

    def layers(k):
        d = [k.dim("m"), k.dim("f")]
        st = stats(Norm(k, "z", 2), (zero, one))
        for o in ("c", "c2", "c3"):
            k.tensor(o, d, norm("x", *st, d))
        k.tensor("x", d, lambda *ix: el("x", flat(d, ix)))
    add("normalisation and dropout", "md_layers", ND, layers)

    def layers2(k):
        from stdlib import std_tanh
        d = [k.dim("m"), k.dim("f")]
        for o in ("c", "c2"):
            k.tensor(o, d, lambda *ix: std_tanh(norm("x", zero, one, d)(*ix)))
    add("dropout, normalisation, activation, dropout", "md_layers2", {"f": "F", "m": "M"}, layers2)

    def back(k):
        d = [k.dim("m"), k.dim("f")]
        n = Norm(k, "x", 2, ("m", "f"))
        st = stats(Norm(k, "z", 2), (zero, one))
        k.tensor("c", d, norm("x", *st, d))
        k.tensor("d", d, norm("x", n.mean, n.var, d))
        k.tensor("e", d, norm("x", *stats(n, st), d))
    add("back to training", "md_back", ND, back)

    def last(k):
        d = [k.dim("m"), k.dim("f")]
        for o in ("c", "c2"):
            k.tensor(o, d, norm("x", zero, one, d, lambda v: ite(lt(0, v), v, ZERO)))
    add("normalisation last", "md_last", {"f": "F", "m": "M"}, last)

    def params(k):
        n, f, o = k.dim("n"), k.dim("f"), k.dim("o")
        for nm in ("c", "c2"):
            k.tensor(nm, [n, o], lambda r, c: sigma([f], lambda q: el("x", r * f + q) * el("w", q * o + c)) + el("b", c))
        k.tensor("w", [f, o], mat("w", o))
        k.tensor("b", [ONE, o], mat("b", o))
    add("parameters", "md_params", {**ND, "o": "O"}, params)

    def pool(k):
        n, f = k.dim("n"), k.dim("f")

        def cell(r, q):
            c, p = fdiv(q, P(4)), q - P(4) * fdiv(q, P(4))
            i, j = fdiv(p, P(2)), p - P(2) * fdiv(p, P(2))
            xs = [el("x", ((r * f + c) * 4 + 2 * i + a) * 4 + 2 * j + b) for a in (0, 1) for b in (0, 1)]
            m = xs[0]
            for x in xs[1:]:
                m = ite(lt(m, x), x, m)
            return m
        for nm in ("c", "c2"):
            k.tensor(nm, [n, f * 4], cell)
    add("pooling and dropout", "md_convpool", {"n": "N", "f": "F"}, pool)
    return out


spec("C25", "Models of recording layers under sequences of mode switches, predictions, backward passes and training; the mode seen by each layer in each call is compared with the last switch. Models containing normalisation and dropout layers at different positions are evaluated repeatedly and compared with the evaluation-mode formula over the recorded statistics.")(c25_cases)


# ---- C26
def c26_cases(tier):
    import os
    import re
    from harness import HERE
    out = []
    U = "c26.cpp"
    src = open(os.path.join(os.path.dirname(HERE), "witness", U)).read() if os.path.basename(HERE) == "engine" else open(os.path.join(HERE, "witness", U)).read()
    names = []
    groups = {}
    for line in src.splitlines():
        m = re.match(r"(FIRST|RANKS|INPUTS|PAIRS|ACTS)\(", line)
        if m:
            for g in re.findall(r"(FIRST|RANKS|INPUTS|PAIRS|ACTS)\((\w+)(?:, ([\w<>]+))?(?:, (\w+))?(?:, (\w+))?\)", line):
                k, n = g[0], g[1]
                if k == "FIRST":
                    names += ["x_%s_%s" % (n, s) for s in ("b2", "b4", "u")]
                elif k == "RANKS":
                    names += ["x_%s_%s%d" % (n, g[2], r) for r in (1, 2, 3, 4)]
                elif k == "INPUTS":
                    names += ["x_%s_f%d" % (n, r) for r in (1, 2, 3, 4)]
                elif k == "PAIRS":
                    names += ["x_%s_%s%s%d" % (n, c, g[3], r) for c in "cg" for r in (1, 2, 3)]
                else:
                    names += ["x_%s_g%s" % (n, s) for s in ("12", "11", "22", "21", "23", "32")]
        m = re.match(r"void (x_\w+)\(\)", line)
        if m:
            names.append(m.group(1))
    THROW = set("x_%s_%s" % (l, b) for l in ("fc", "conv", "pool", "bn", "drop", "flat", "act") for b in ("b2", "b4"))
    THROW |= {"x_fc_u", "x_conv_u", "x_bn_u", "x_fc_uf", "x_bn_uf", "x_bn_uf4", "x_conv_uf", "x_fc_grads", "x_fc_bgrads", "x_conv_grads", "x_conv_bgrads"}
    THROW |= {"x_conv_f1", "x_conv_f2", "x_conv_f3", "x_pool_f1", "x_pool_f2", "x_pool_f3", "x_bn_f1", "x_bn_f3", "x_flat_f1"}
    THROW |= {"x_bn_evalthen", "x_drop_evalthen", "x_fc_setb1", "x_fc_setb3", "x_fc_setg1", "x_softmax_g11", "x_softmax_g12", "x_softmax_g21"}
    THROW |= {"x_m_train", "x_m_trainempty", "x_m_update", "x_m_updateempty", "x_m_updatefc", "x_m_backward", "x_m_lists", "x_m_lists2", "x_m_lists0", "x_m_lists00", "x_m_get0", "x_m_input"}
    RETURN = {"x_m_backwardempty", "x_m_predictempty", "x_m_modes", "x_pool_u", "x_drop_u", "x_flat_u", "x_act_u", "x_drop_f1", "x_drop_f2", "x_drop_f3", "x_drop_f4", "x_act_f1", "x_act_f2", "x_act_f3", "x_act_f4", "x_flat_f2", "x_flat_f3", "x_flat_f4"}
    # left to the thorough tier
    DEEP = r"new_pool\d?/(size|stride|padding)|new_pool2/size|new_conv/(stride|dilation)|x_act_(14|41|2[34]|32|42|4[13]|12|21)|x_act_.*/ones|_(sigmoid|tanh|relu|swish|mish|leaky)_g(23|32)/|_(sigmoid|tanh)_g(23|32|21)|conv_setw(late|later)?/[12]|conv_setb(late)?/2|twob/.*/differs-1|two4/.*/differs-[123]|(conv|pool)_two/.*/differs-[123]|theneval4/.*/differs-[123]|bn_44/differs-[13]|bn_eval4/differs-[13]"
    K2 = {"kh": 2, "kw": 2, "s": 1, "p": 0, "d": 1}
    KX = {"kh": "V", "kw": "Z", "s": "S", "p": "P", "d": "Q"}
    PX = {"k": "V", "s": "S", "p": "P"}
    less = lambda q, e=1: lambda k: k.dim(q) - e
    # what fits: per layer the input x (a), the second input y (c), the gradient of x's output and of y's output
    def fit(l, r, src):
        """dimensions of an input of rank r and of its output, named after src"""
        L = {"a": ("N", "C", "H", "W"), "c": ("M", "K", "L", "U")}[src]
        if l in ("conv", "pool", "bn") and r == 4:
            L = L[:2] + ((3, 4) if src == "a" else (4, 3))      # the position of the window does not matter here
        x = [L[0], "I" if l in ("fc", "bn", "conv") else L[1], L[2], L[3]][:r]
        if l == "fc":
            y = [x[0], "O"]
        elif l in ("conv", "pool"):
            y = [x[0], "O" if l == "conv" else x[1], less(src + "2"), less(src + "3")]
        elif l == "flat" and r > 2:
            y = [x[0], (lambda k: k.dim(src + "1") * k.dim(src + "2")) if r == 3 else (lambda k: k.dim(src + "1") * k.dim(src + "2") * k.dim(src + "3"))]
        else:
            y = list(x)
        return x, y

    def put(p, l):
        return {"%s%d" % (p, j): v for j, v in enumerate(l)}

    def grads(l, r, q, src):
        """gradients of rank q for an input of rank r: fitting, and differing in one dimension"""
        x, y = fit(l, r, src)
        if q != len(y):
            return [("", put(src, x))]
        v = [("/fits", {**put(src, x), **put("b", y)})]
        for j in range(q):
            v.append(("/differs-%d" % j, {**put(src, x), "ne": ("b%d" % j, y[j])}))
        return v
    own = {
        "x_fc_setw": [{"a0": "I", "a1": "K", "b0": "N", "b1": "I", "c0": "N", "c1": "K"}, {"a0": "I", "a1": "K", "b0": "N", "b1": "I", "c0": "N", "c1": "O"}],
        "x_fc_setw3": [{"a0": "A", "a1": "I", "a2": "K", "b0": "N", "b1": "I"}],
        "x_fc_setwlate": [{"b0": "N", "b1": "I", "c0": "N", "c1": "O", "a0": "I", "a1": "K"}, {"b0": "N", "b1": "I", "c0": "N", "c1": "O", "a0": "K", "a1": "O"}],
        "x_fc_setwlater": [{"b0": "N", "b1": "I", "c0": "N", "c1": "O", "a0": "I", "a1": "K"}],
        "x_fc_setb": [{"a0": 1, "a1": "K", "b0": "N", "b1": "I", "c0": "N", "c1": "O"}, {"a0": 1, "a1": 1, "b0": "N", "b1": "I", "c0": "N", "c1": "O"}],
        "x_fc_setblate": [{"a0": 1, "a1": "K", "b0": "N", "b1": "I", "c0": "N", "c1": "O"}],
        "x_fc_setblater": [{"a0": 1, "a1": "K", "b0": "N", "b1": "I", "c0": "N", "c1": "O"}],
        "x_fc_setg": [{"a0": "I", "a1": "O", "b0": 1, "b1": "K"}, {"a0": "K", "a1": "L", "b0": 1, "b1": "O"}],
    }
    FITTED = ("fc", "conv", "pool", "bn", "drop", "flat")
    cw = {**K2, "c0": "N", "c1": "I", "c2": 3, "c3": 4, "b0": "N", "b1": "O", "b2": less("c2"), "b3": less("c3")}
    for n in ("setw", "setwlate", "setwlater"):
        own["x_conv_" + n] = [{**cw, "a0": "O", "a1": "I", "a2": 1, "a3": 1}, {**cw, "a0": "O", "a1": "K", "a2": 2, "a3": 2}, {**cw, "a0": "K", "a1": "I", "a2": 2, "a3": 2}, {**cw, "a0": "O", "a1": "I", "a2": 3, "a3": 2}]
    own["x_conv_setw2"] = [{**cw, "a0": "O", "a1": "I"}]
    for n in ("setb", "setblate"):
        own["x_conv_" + n] = [{**cw, "a0": "K", "a1": 1}, {**cw, "a0": 1, "a1": "K"}, {**cw, "a0": "O", "a1": "K"}]
    for n in ("setb1", "setb1late"):
        own["x_conv_" + n] = [{**cw, "a0": "K"}]
    for nm in names:
        l = nm.split("_")[1]
        base = {}
        for j in range(4):
            base.update({"a%d" % j: "ABCD"[j], "b%d" % j: "EFGX"[j], "c%d" % j: "JKLM"[j]})
        base.update({"i": "I", "o": "O"})
        if l == "conv" or nm in ("x_m_swap", "x_new_conv"):
            base.update(K2)
        if l == "pool" or "_new_pool" in nm:
            base.update({"k": 2, "s": 1, "p": 0})
        vs = [("", {})]
        if nm in own:
            vs = [("/%d" % j, o) for j, o in enumerate(own[nm])]
        elif l in FITTED and re.search(r"_[1-4][1-4]$", nm):
            r, q = int(nm[-2]), int(nm[-1])
            if l == "fc" and r != 2:
                vs = [("", {"a%d" % (r - 1): "I"}), ("/misfit", {"ne": ("a%d" % (r - 1), "I")})]
            else:
                vs = grads(l, r, q, "a")
                if l in ("fc", "bn", "conv") and q == 2:
                    vs.append(("/misfit", {"ne": ("a1", "I")}))
                if l in ("conv", "pool") and r == q:
                    vs.append(("/sizes", {**put("a", fit(l, r, "a")[0]), **(KX if l == "conv" else PX), "s": 2}))
        elif l in ("bn", "conv", "fc") and re.search(r"_(f[24]|uf|uf4)$", nm):
            vs = [("/fits", {"a1": "I"}), ("/misfit", {"ne": ("a1", "I")})]
        elif l in FITTED and re.search(r"_(two|two4|two42|twob|eval|eval4|evalthen|theneval|theneval4|thenback)$", nm):
            r = 4 if l in ("conv", "pool") or nm in ("x_bn_two42", "x_bn_eval4", "x_bn_theneval4", "x_bn_thenback", "x_flat_two", "x_drop_two4") or False else 2
            q = {"x_bn_two4": 4, "x_bn_theneval4": 4, "x_bn_thenback": 2, "x_bn_two42": 2, "x_flat_two": 2, "x_flat_two4": 4, "x_drop_two4": 2}.get(nm, r)
            g = 4 if nm in ("x_bn_two4", "x_bn_two42", "x_bn_theneval4", "x_bn_eval4", "x_conv_two", "x_pool_two", "x_drop_two4") else 2
            if nm == "x_bn_theneval4":
                r = 2
            X, Y = put("a", fit(l, r, "a")[0]), put("c", fit(l, q, "c")[0])
            if "_eval" in nm:
                vs = grads(l, r, g, "a")
            elif nm.endswith("twob"):
                vs = [("/first" + t, {**o, **Y}) for t, o in grads(l, r, g, "a")] + [("/second" + t, {**o, **X}) for t, o in grads(l, q, g, "c")]
            else:
                vs = [("/second" + t, {**o, **X}) for t, o in grads(l, q, g, "c")]
                if g == len(fit(l, r, "a")[1]):
                    vs.append(("/first", {**X, **Y, **put("b", fit(l, r, "a")[1])}))
        elif re.match(r"x_new_conv", nm):
            base.update({"a2": 4, "a3": 5})
            vs = [("/kernel", {**KX, "a1": "I", "s": 1, "p": 0, "d": 1}), ("/stride", {"a1": "I", "s": "S"}), ("/padding", {"a1": "I", "p": "P"}), ("/dilation", {"a1": "I", "d": "Q"})]
            vs += [("/zero-" + q, {"a1": "I", q: z}) for q, z in (("kh", 0), ("kw", 0), ("s", 0), ("d", 0), ("p", -1), ("s", -1), ("kh", -2))]
            vs += [("/no-channels", {"i": 0}), ("/no-outputs", {"a1": "I", "o": 0}), ("/negative-channels", {"i": -3})]
        elif re.match(r"x_new_pool", nm):
            base.update({"a2": 4, "a3": 5})
            vs = [("/size", {"k": "V"}), ("/zero", {"k": 0}), ("/negative", {"k": -1})]
            if not nm.endswith("1"):
                vs += [("/stride", {"s": "S"}), ("/zero-stride", {"s": 0}), ("/negative-stride", {"s": -2})]
            if nm.endswith("pool"):
                vs += [("/padding", {"p": 1}), ("/wide-padding", {"p": 2}), ("/negative-padding", {"p": -1})]
        elif nm == "x_new_fcz":
            vs = [("/%d,%d" % (i, o), {"i": i, "o": o}) for i, o in ((0, 3), (3, 0), (-1, 3), (0, 0), (2, -2), (-2, -2))]
        elif nm == "x_new_bn":
            vs = [("", {}), ("/zero", {"i": 0}), ("/negative", {"i": -2})]
        elif nm == "x_new_drop":
            vs = [("", {})]
        elif nm == "x_m_nothing" or nm == "x_m_nolayers" or nm == "x_m_target" or nm == "x_m_noepochs":
            vs = [("/%d" % e, {"epochs": e}) for e in ((0, -1) if nm == "x_m_noepochs" else (0, 1, 2, -1))]
        if vs == [("", {})] and re.search(r"_g\d\d$|_[1-4][1-4]$", nm) and l not in ("mse", "cce", "conv", "pool"):
            vs += [("/ones-x", {"a0": 1}), ("/ones-g", {"b0": 1})]
        if nm == "x_m_get2":
            vs = [("/%d" % e, {"at": e}) for e in (0, 1, 2, 3, -1)]
        for suffix, o in vs:
            c = {**base, **o}
            ne = c.pop("ne", None)
            thr = nm in THROW or (nm.startswith("x_new") and ("zero" in suffix or "negative" in suffix or "wide" in suffix or "/no-" in suffix or nm == "x_new_fcz")) or nm == "x_m_get2" and c["at"] not in (0, 1)
            if tier == "quick" and re.search(DEEP, nm + suffix):
                continue
            out.append(_misuse(nm, suffix, U, c, thr, nm in RETURN or nm in ("x_m_noepochs", "x_m_get2"), ne))
    return out


def _misuse(nm, suffix, unit, cfg, throws, returns, ne=None):
    cfg = dict(sorted(cfg.items(), key=lambda x: callable(x[1])))

    def check(k):
        if throws:
            k.throws()
        elif returns:
            k.returns()
        else:
            k.clean(allow=("throw",))
    lo = {q: 2 for q in cfg.values() if isinstance(q, str) and q not in "SPQVZ"} if "ones" not in suffix else {}
    lo["P"] = 0
    if cfg.get("kh") == 2 or cfg.get("k") == 2:
        lo.update({"H": 2, "W": 2})
    rate = (lambda u: 3 * u - 1) if "new_drop" in nm else (lambda u: 0.1 + 0.8 * u)
    if "_new_" in nm:
        lo.update({q: 1 for q in "HW"})
    facts = ()
    if ne:
        facts = lambda k: [bnot(eq(k.dim(ne[0]), ne[1](k) if callable(ne[1]) else k.dim(next(q for q in cfg if cfg[q] == ne[1]))))]
    return Case(nm[2:] + suffix, nm, cfg, check, unit=unit, lo=lo, facts=facts, domain={"rate": rate, "i": "int", "o": "int"} if nm == "x_new_fc" else {"rate": rate})


spec("C26", "Calls out of order, with operands of every rank and of unrelated dimensions, with parameters of other shapes, with constructor arguments of any value and on models that are empty or not compiled. Sizes that the library requires to be equal are independent symbols here, so that both the accepting and the rejecting branch of every test are analysed; every dereference, element access and division on the way must be safe.")(c26_cases)
