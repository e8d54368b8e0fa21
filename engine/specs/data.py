"""Random numbers, data sets and the MNIST loader (C30, C31, C34)."""
import itertools
import math
from props import spec
from harness import Case, K, PROVED, AGREED, UNDECIDED, VIOLATED
from decide import Poison, UnknownVal
from terms import *
import terms as T
from specs.tensor import el, flat, total, bdim, ranked, sigma, isym, rsym

DRAWS = ("U01", "N01", "UINT", "rng")
FOREIGN = ("random_device", "clock", "cached draw")


def cells(k, what, name, idx=0):
    """the elements of an output: (number of elements, function of an assignment and an index)"""
    if name[0] == "=":
        kind, v, extra, pc, facts = k.R.outs[name[1:]][idx]
        return ONE, lambda e, i: float(e.poly(v, {}))
    arr = [x for x in k.R.outs.get(name, ()) if x[0] == "arr"]
    if len(arr) <= idx:
        return None
    _, v, (off, n), pc, facts = arr[idx]
    if not hasattr(v, "c"):
        items = [P(x) for x in v.items]
        return n, lambda e, i: float(e.poly(items[i], {}))
    x = fresh("x")
    f = facts.copy()
    f.bound(x, 0, n - 1)
    with T.with_facts(f):
        body = v.c.read(off + ap(x))
    return n, lambda e, i: float(e.poly(body, {x: i}))


class Recorder:
    """gives the random draws chosen values and records which of them are looked at"""

    def __init__(self, e):
        self.e, self.seen, self.value = e, [], {}
        self.default = None
        for d in DRAWS + FOREIGN:
            e.over[d] = self.draw(d)

    def draw(self, d):
        def f(*key):
            self.seen.append((d, key))
            if (d, key) in self.value:
                u = self.value[d, key]
            elif self.default is not None:
                u = self.default
            else:
                u = 0.5
            if d == "N01":
                return (-9.0, -2.0, -0.5, 0.0, 0.25, 2.0, 9.0)[int(u * 7)]
            if d == "rng":
                return int(u * 4294967296)
            if d == "UINT":
                return min(int(u * (key[2] + 1)), int(key[2]))
            return u
        return f


def draws(k, outs, limit=40):
    """outs: (output, lower bound, upper bound): every element has draws of its own from the seeded engine and stays in its range"""
    got = []
    for o, lo, hi in outs:
        c = cells(k, "draws", o)
        if c is None:
            k.add("draws", UNDECIDED, "output %s not produced" % o)
            return
        got.append((o, c[0], c[1], lo, hi))
    unknown, done, bad = None, 0, None
    for e in k.envs(2 * k.trials):
        e.mode = "generic"
        try:
            r = Recorder(e)
            seed = e.poly(k.dim("seed"), {}) if "seed" in k.cfg else None
            own = {}
            for o, n, f, lo, hi in got:
                n = int(e.poly(n, {}))
                a = float(e.poly(lo, {})) if lo is not None else None
                b = float(e.poly(hi, {})) if hi is not None else None
                if a is not None and b is not None and a > b:
                    raise Poison("range")
                for i in list(range(n)) if n <= limit else list(range(limit // 2)) + list(range(n - limit // 2, n)):
                    r.seen = []
                    vals = set()
                    keys = set()
                    for u in (0.0, 0.03, 0.2, 0.5, 0.6, 0.8, 0.999999):
                        r.default = u
                        e.memo.clear()
                        v = f(e, i)
                        vals.add(round(v, 9))
                        keys |= set(r.seen)
                        r.seen = []
                        if a is not None and v < a - 1e-6 * (1 + abs(a)) or b is not None and v > b + 1e-6 * (1 + abs(b)):
                            bad = "element %d of %s is %g, outside [%g, %g]" % (i, o, v, a if a is not None else -math.inf, b if b is not None else math.inf)
                    at = "element %d of %s" % (i, o)
                    for d, key in keys:
                        if d in FOREIGN:
                            bad = "%s depends on %s, not on the seed alone" % (at, d)
                        elif seed is not None and key[0] != seed:
                            bad = "%s is drawn from an engine that was not seeded with the given seed" % at
                        elif (d, key) in own:
                            bad = "%s and %s share a draw" % (at, own[d, key])
                    if not keys:
                        bad = "%s depends on no random draw" % at
                    elif len(vals) < 2 and (a is None or b is None or a <= 0 < b - 1e-6):
                        bad = "%s does not vary with its draws" % at
                    for q in keys:
                        own[q] = at
                    if bad:
                        break
                if bad:
                    break
        except UnknownVal as x:
            unknown = str(x)
            continue
        except Poison:
            continue
        done += 1
        if bad:
            k.add("draws", VIOLATED, "%s (%s)" % (bad, k.describe(e)), k.entry(), "fresh draws from the seeded engine, in range")
            return
    k.add("draws", UNDECIDED if unknown or not done else AGREED, unknown or "for %d sampled assignments" % done, rule="fresh draws from the seeded engine, in range")


def spread(k, outs):
    """outs: (output, standard deviation): a normal draw z gives sd*z"""
    unknown, done = None, 0
    for e in k.envs(2 * k.trials):
        try:
            for o, sd in outs:
                f = cells(k, "spread", o)[1]
                for z in (-2.0, -0.5, 0.0, 0.25, 3.0):
                    used = []
                    e.over["N01"] = lambda *key: used.append(key) or z
                    for d in ("U01", "UINT", "rng"):
                        e.over[d] = lambda *key: (_ for _ in ()).throw(UnknownVal("drawn from another distribution"))
                    e.memo.clear()
                    v = f(e, 0)
                    w = sd(e) * z
                    if abs(v - w) > 1e-6 * (1 + abs(w)):
                        k.add("spread", VIOLATED, "%s is %g for a standard normal draw of %g, expected %g (%s)" % (o[1:], v, z, w, k.describe(e)), k.entry(), "normal with the stated variance")
                        return
            done += 1
        except UnknownVal as x:
            unknown = str(x)
        except Poison:
            pass
    k.add("spread", UNDECIDED if unknown or not done else AGREED, unknown or "for %d sampled assignments" % done, rule="normal with the stated variance")


# ---- C30
def c30_cases(tier):
    out = []
    U = "c30.cpp"
    S = {"seed": "SEED"}
    MM = [(rsym("min"), rsym("max")), (rsym("min2"), rsym("max2"))]
    ordered = lambda k: [le(rsym("min"), rsym("max")), le(rsym("min2"), rsym("max2"))]
    D = {"n": lambda u: 0.25 + 8 * u, "m": lambda u: 0.25 + 8 * u, "min": lambda u: 2 * u - 1.5, "max": lambda u: 2 * u - 0.5, "min2": lambda u: 4 * u - 3, "max2": lambda u: 4 * u - 1}

    def add(nm, sc, cfg, f, facts=ordered, **kw):
        def check(k):
            k.returns()
            f(k)
        out.append(Case(nm, sc, cfg, check, unit=U, domain=D, facts=facts, **kw))

    def shaped(k, nm, d):
        k.tensor(nm, d, None, shape_only=True)

    def two(k, d, e, r1, r2, extra=()):
        shaped(k, "c", d)
        shaped(k, "d", e)
        draws(k, [("c", *r1), ("d", *r2)])
    R01 = (ZERO, ONE)
    for nm, sc, r in (("1", "rand1", 1), ("2", "rand2", 2), ("3", "rand3", 3), ("4", "rand4", 4), ("double", "randd", 2)):
        def f(k, r=r):
            d = bdim(k, "a", r)
            two(k, d, d, R01, R01)
        add("rand/" + nm, "r_" + sc, {**S, **ranked("a", r)}, f)
    for nm, sc, r in (("1", "randn1", 1), ("2", "randn2", 2), ("4", "randn4", 4), ("double", "randnd", 2)):
        def f(k, r=r):
            d = bdim(k, "a", r)
            two(k, d, d, *MM)
        add("randn/" + nm, "r_" + sc, {**S, **ranked("a", r)}, f)
        for lo, hi in ((5, 6), (-6, -5), (0, 0), (-1, 1)):
            def g(k, r=r, lo=lo, hi=hi):
                d = bdim(k, "a", r)
                two(k, d, d, (P(lo), P(hi)), MM[1])
            if r == 2:
                add("randn/%s/%d..%d" % (nm, lo, hi), "r_" + sc, {**S, **ranked("a", r), "min": lambda k, v=lo: P(v), "max": lambda k, v=hi: P(v)}, g, facts=lambda k: [le(rsym("min2"), rsym("max2"))])
    L = {**S, "a0": "N", "b0": "M"}
    add("rand/size", "r_randsize", L, lambda k: two(k, [k.dim("a0")], [k.dim("b0")], R01, R01))
    add("randn/size", "r_randnsize", L, lambda k: two(k, [k.dim("a0")], [k.dim("b0")], *MM))
    AB = {**S, **ranked("a", 2), **ranked("b", 2, "STUV")}
    add("factory", "r_factory", AB, lambda k: two(k, bdim(k, "a", 2), bdim(k, "b", 2), R01, MM[0]))

    def again(k):
        d = bdim(k, "a", 2)
        for o in "cdef":
            shaped(k, o, d)
        draws(k, [("e", *R01), ("f", *MM[0])])
        x, y = cells(k, "", "c"), cells(k, "", "e")
        z, w = cells(k, "", "d"), cells(k, "", "f")
        unknown, done = None, 0
        for e in k.envs(2 * k.trials):
            try:
                for a, b, what in ((x, y, "rand"), (z, w, "randn")):
                    for i in range(min(int(e.poly(a[0], {})), 40)):
                        p, q = a[1](e, i), b[1](e, i)
                        if p != q:
                            k.add("repeat", VIOLATED, "element %d of %s is %g and, after seeding again, %g (%s)" % (i, what, p, q, k.describe(e)), k.entry(), "a function of the seed")
                            return
                done += 1
            except UnknownVal as v:
                unknown = str(v)
            except Poison:
                pass
        k.add("repeat", UNDECIDED if unknown or not done else AGREED, unknown or "for %d sampled assignments" % done, rule="a function of the seed")
    add("seeding again", "r_again", AB, again)

    def other(k):
        d = bdim(k, "a", 2)
        shaped(k, "c", d)
        shaped(k, "d", d)
        draws(k, [("c", *R01)])
        x, y = cells(k, "", "c"), cells(k, "", "d")
        for e in k.envs(k.trials):
            try:
                if all(x[1](e, i) == y[1](e, i) for i in range(min(int(e.poly(x[0], {})), 40))):
                    k.add("seed matters", VIOLATED, "two different seeds give the same values", k.entry(), "a function of the seed")
                    return
            except (UnknownVal, Poison):
                pass
        k.add("seed matters", AGREED, "", rule="a function of the seed")
    add("another seed", "r_other", {**S, "other": "OTHER", **ranked("a", 2)}, other, facts=lambda k: [bnot(eq(k.dim("seed"), k.dim("other")))])

    def layer(k, w, b):
        shaped(k, "c", w)
        shaped(k, "d", w)
        k.tensor("b", b, lambda *ix: ZERO)
        k.tensor("e", b, lambda *ix: ZERO)
        draws(k, [("c", None, None), ("d", None, None)])
    IO = {**S, "i": "I", "o": "O"}
    for nm, sc in (("float", "fc"), ("double", "fcd")):
        add("dense layer/" + nm, "r_" + sc, IO, lambda k: layer(k, [k.dim("i"), k.dim("o")], [ONE, k.dim("o")]))
    KK = {**IO, "kh": "V", "kw": "W"}
    add("convolution", "r_conv", KK, lambda k: layer(k, [k.dim("o"), k.dim("i"), k.dim("kh"), k.dim("kw")], [k.dim("o"), ONE]))
    add("convolution/square", "r_convsq", {**IO, "kh": "V"}, lambda k: layer(k, [k.dim("o"), k.dim("i"), k.dim("kh"), k.dim("kh")], [k.dim("o"), ONE]))

    root = lambda num, n: lambda e: math.sqrt(num / float(e.poly(rsym(n), {})))
    add("helpers/unit", "r_getrand", S, lambda k: draws(k, [("=u", *R01), ("=v", *R01)]))
    add("helpers/range", "r_getrange", S, lambda k: draws(k, [("=u", *MM[0]), ("=v", *MM[1])]))
    pos = lambda k: [lt(0, rsym("n")), lt(0, rsym("m"))]
    both = lambda k: pos(k) + ordered(k)

    def he(k):
        draws(k, [("=u", None, None), ("=v", None, None)])
        spread(k, [("=u", root(2, "n")), ("=v", root(2, "m"))])

    def xa(k):
        draws(k, [("=u", None, None), ("=v", None, None)])
        spread(k, [("=u", root(1, "n")), ("=v", root(1, "m"))])
    add("helpers/He", "r_gethe", S, he, facts=pos)
    add("helpers/Xavier", "r_getxavier", S, xa, facts=pos)
    add("helpers/He range", "r_getherange", S, lambda k: draws(k, [("=u", *MM[0]), ("=v", *MM[1])]), facts=both)

    def mixed(k):
        shaped(k, "c", [k.dim("a0")])
        draws(k, [("=u", *R01), ("c", *R01), ("=v", None, None)])
        spread(k, [("=v", root(2, "n"))])
    add("helpers/mixed", "r_mixed", {**S, "a0": "N"}, mixed, facts=pos)

    def reseed(k):
        draws(k, [("=u", None, None), ("=v", None, None)])
        spread(k, [("=u", root(2, "n")), ("=v", root(1, "m"))])
    add("helpers/after seeding", "r_reseed", S, reseed, facts=pos)

    def reseed2(k):
        draws(k, [("=u", None, None), ("=v", *MM[1])])
        spread(k, [("=u", root(1, "n"))])
    add("helpers/after seeding 2", "r_reseed2", S, reseed2, facts=both)

    for nm, sc, r in (("1", "const1", 1), ("2", "const2", 2), ("3", "const3", 3), ("4", "const4", 4), ("double", "constd", 3), ("factory", "constfactory", 2)):
        def f(k, r=r):
            d = bdim(k, "a", r)
            k.tensor("c", d, lambda *ix: ONE)
            k.tensor("d", d, lambda *ix: ZERO)
        add("ones and zeros/" + nm, "r_" + sc, ranked("a", r), f, facts=())

    def size(k):
        k.tensor("c", [k.dim("a0")], lambda i: ONE)
        k.tensor("d", [k.dim("a0")], lambda i: ZERO)
    add("ones and zeros/size", "r_constsize", {"a0": "N"}, size, facts=())
    for nm, sc in (("float", "ident"), ("double", "identd"), ("factory", "identf")):
        add("identity/" + nm, "r_" + sc, {"n": "N"}, lambda k: k.tensor("c", [k.dim("n"), k.dim("n")], lambda i, j: ind(eq(i, j))), facts=())
    return out


spec("C30", "Random tensors of rank 1 to 4, the engine's helpers and the initial weights of the layers after seeding, with symbolic sizes, seeds and ranges. The derived elements are functions of the draws; which draws each element looks at is recorded: all come from the engine seeded with the given seed, no two elements or calls share one, and for draws at both ends of their distribution the element stays in its range. Seeding again gives the same terms. Contents of ones, zeros and identity are compared element by element.")(c30_cases)


# ---- C34
def linear_data(k, batches, noise, skip=0, sym=False):
    """the outputs x and y from number skip on are the batches (shape, number of samples)"""
    for nm in "xy":
        got = len([x for x in k.R.outs.get(nm, ()) if x[0] == "vec"])
        count = k.R.outs.get("n" + nm, [])
        if len(count) <= (1 if skip else 0):
            k.add("count", UNDECIDED, "no count of %s" % nm)
            return
        if got < skip + len(batches):
            k.add("count", VIOLATED, "%d tensors of %s, expected %d (%s)" % (got - skip, nm, len(batches), k.label), k.entry(), "number of samples")
            return
        for j, (shape, n) in enumerate(batches):
            v = [x for x in k.R.outs[nm] if x[0] == "vec"][skip + j][1]
            dims = [P(d) for d in v.items]
            e = next(k.envs(1), None)
            if len(dims) != len(shape) or any(poly_cmp_ne(d, s, k) for d, s in zip(dims, shape)):
                k.add("shape", VIOLATED, "tensor %d of %s has shape (%s), expected (%s) (%s)" % (j, nm, ",".join(map(T.poly_str, dims)), ",".join(map(T.poly_str, shape)), k.label), k.entry(), "batch shapes")
                return
    k.add("count", PROVED, "%d tensors" % len(batches), rule="number of samples")
    k.add("shape", PROVED, rule="batch shapes")
    own, bad, unknown, done = {}, None, None, 0
    for e in k.envs(k.trials):
        e.mode = "generic"
        own.clear()
        try:
            r = Recorder(e)
            sd = float(e.poly(noise, {}))
            for j, (shape, n) in enumerate(batches):
                X, Y = cells(k, "", "x", skip + j), cells(k, "", "y", skip + j)
                n = int(e.poly(n, {}))
                for i in range(n) if n <= 12 else list(range(4)) + list(range(n - 4, n)):
                    at = "sample %d of batch %d" % (i, j)

                    def read(c, u=None, z=0.0):
                        r.seen, r.default = [], u
                        e.over["N01"] = lambda *key: r.seen.append(("N01", key)) or z
                        e.memo.clear()
                        return c[1](e, i)
                    xs = set()
                    for u in (0.0, 0.1, 0.5, 0.9):
                        x = read(X, u)
                        kx = {q for q in r.seen if q[0] != "random_device"}
                        xs.add(round(x, 6))
                        for z in (0.0, 1.0, -2.5):
                            y = read(Y, u, z)
                            ky = {q for q in r.seen if q[0] != "random_device"}
                            w = 2 * x + 3 + sd * z
                            if abs(y - w) > 1e-5 * (1 + abs(w)):
                                bad = "%s: the target of x = %g is %g for a standard normal draw of %g and noise %g, expected %g" % (at, x, y, z, sd, w)
                                break
                        if bad:
                            break
                    noises = {q for q in ky - kx if q[0] == "N01"}
                    if not bad and (not kx or len(xs) < 2):
                        bad = "%s: the input is not drawn" % at
                    if not bad and not noises and sd != 0:
                        bad = "%s: the target has no noise of its own" % at
                    for q in (kx | ky) if not bad else ():
                        if q in own:
                            bad = "%s and %s share a draw" % (at, own[q])
                        if q[0] not in DRAWS:
                            bad = "%s depends on %s" % (at, q[0])
                    for q in kx | ky:
                        own[q] = at
                    if bad:
                        break
                if bad:
                    break
        except UnknownVal as x:
            unknown = str(x)
            continue
        except Poison:
            continue
        done += 1
        if bad:
            k.add("samples", VIOLATED, "%s (%s)" % (bad, k.describe(e)), k.entry(), "target = 2x+3 plus noise of its own")
            return
    k.add("samples", UNDECIDED if unknown or not done else AGREED, unknown or "for %d sampled assignments" % done, rule="target = 2x+3 plus noise of its own")


def poly_cmp_ne(a, b, k):
    """the two sizes differ for some assignment"""
    if (P(a) - P(b)).is_zero() if hasattr(P(a), "is_zero") else P(a) == P(b):
        return False
    for e in k.envs(4):
        try:
            if e.poly(P(a), {}) != e.poly(P(b), {}):
                return True
        except (UnknownVal, Poison):
            pass
    return False


def c34_cases(tier):
    out = []
    noisy = lambda k: [ge(rsym("noise"), 0)]
    D = {"noise": lambda u: 3 * u}

    def split(n, b):
        return [([P(min(b, n - i)), ONE], P(min(b, n - i))) for i in range(0, n, b)]

    def add(nm, sc, cfg, nx, parts, facts=noisy):
        def check(k):
            k.returns()
            for o in ("nx", "ny"):
                got = [r for r in k.R.outs.get(o, ()) if r[0] == "int"]
                if len(got) != len(nx):
                    k.add(o, UNDECIDED, "%d counts" % len(got))
                    return
                for r, n in zip(got, nx):
                    k.value(o, r[1], P(n), r[4], r[3])
            skip = 0
            for batches, noise in parts:
                linear_data(k, batches, noise, skip)
                skip += len(batches)
        out.append(Case(nm, sc, cfg, check, unit="c34.cpp", domain=D, facts=facts))
    N = (0, 1, 2, 3, 7, 16) if tier == "quick" else (0, 1, 2, 3, 5, 7, 16, 40, 100)
    z, s = rsym("noise"), lambda n: [([ONE], ONE)] * n
    for n in N:
        c = {"n": (lambda k, n=n: P(n))}
        add("linear/%d" % n, "g_linear", c, [n], [(s(n), z)])
        add("linear/default noise/%d" % n, "g_default", c, [n], [(s(n), ONE)], facts=())
        for b in (1, 2, 3, 5, 8, 20):
            c2 = {**c, "b": (lambda k, b=b: P(b))}
            p = split(n, b)
            add("batches/%d by %d" % (n, b), "g_batched", c2, [len(p)], [(p, z)])
            if b in (1, 3, 20):
                add("batches/default noise/%d by %d" % (n, b), "g_batdefault", c2, [len(p)], [(p, ONE)], facts=())
    for zv in (0, 2):
        add("linear/noise %d" % zv, "g_linear", {"n": lambda k: P(3), "noise": lambda k, v=zv: P(v)}, [3], [(s(3), P(zv))], facts=())
        add("batches/noise %d" % zv, "g_batched", {"n": lambda k: P(5), "b": lambda k: P(2), "noise": lambda k, v=zv: P(v)}, [3], [(split(5, 2), P(zv))], facts=())
    B = isym("B")
    add("batches/one batch of any size", "g_batched", {"n": "B", "b": "B"}, [1], [([([B, ONE], B)], z)])
    add("batches/one partial batch", "g_batched", {"n": "B", "b": "C"}, [1], [([([B, ONE], B)], z)], facts=lambda k: noisy(k) + [lt(isym("B"), isym("C"))])
    for n, m, b in ((2, 3, 2), (3, 1, 4)):
        p = split(m, b)
        add("both/%d, %d by %d" % (n, m, b), "g_twice", {"n": lambda k, n=n: P(n), "m": lambda k, m=m: P(m), "b": lambda k, b=b: P(b)}, [n, len(p)], [(s(n), z), (p, z)])
    return out


spec("C34", "The sample generators for concrete numbers of samples and batch sizes, with the noise symbolic, and for a single batch of any size. Number and shape of the tensors, and for every sample the derived elements as functions of the draws: the input is drawn, the target is 2x+3 plus the noise times a standard normal draw of its own, no two samples share a draw.", note="numbers of samples are enumerated (the generators build vectors of tensors, whose length the analysis keeps concrete)")(c34_cases)


# ---- C31
def be(path, at, v):
    """the bytes of a big-endian header field"""
    return {"%s@%d" % (path, at + j): (lambda k, x=(v >> (8 * (3 - j))) & 255: P(x)) for j in range(4)}


def byte_at(path, i):
    return T.fn("byte:" + path, P(i), sort="i")


def batch_tensors(k, name, idx, shape, spec):
    """tensor number idx of an output"""
    o = k.R.outs.get(name, ())
    for kind in ("vec", "arr"):
        got = [x for x in o if x[0] == kind]
        if len(got) <= idx:
            if not k.R.err:
                k.add("%s%d" % (name, idx), UNDECIDED, "there is no batch %d" % idx, k.entry(), "samples grouped in file order")
            return
        what = "%s%d" % (name, idx)
        if kind == "vec":
            k.vec_is(what + ".shape", got[idx], [P(d) for d in shape])
            if any(ob.key == what + ".shape" and ob.status == VIOLATED for ob in k.obs):
                return
        elif spec is not None:
            k.cells(what, got[idx], [P(d) for d in shape], spec)


def c31_cases(tier):
    out = []
    U = "c31.cpp"
    DOM = {"byte:lab": lambda u: u * 10}
    R, C = isym("R"), isym("C")

    def header(ni, nl, wide=False):
        h = {"rows": "R", "cols": "C"}
        if wide:
            h = {"rh": "RH", "rows": "R", "ch": "CH", "cols": "C"}
        for f, m, n in (("img", 2051, ni), ("lab", 2049, nl)):
            h.update(be(f, 0, m))
            h.update(be(f, 4, n))
        h.update(be("img", 8, 0))
        h.update(be("img", 12, 0))
        h["img@11"] = lambda k: k.dim("rows")
        h["img@15"] = lambda k: k.dim("cols")
        if wide:
            h["img@10"] = lambda k: k.dim("rh")
            h["img@14"] = lambda k: k.dim("ch")
        return h

    def small(k):
        return [le(x, 255) for x in (R, C) if True]

    def digits(n):
        return [lt(byte_at("lab", 8 + i), 10) for i in range(n)]

    def load(nm, sc, ni, b, limit, cnt, wide=False, nl=None, exact=False):
        h = header(ni, nl if nl is not None else ni, wide)
        h["b"] = lambda k: P(b)
        h["limit"] = lambda k: P(limit)
        h["e"] = "E"
        h["f"] = "F"
        RR, CC = (R + 256 * isym("RH"), C + 256 * isym("CH")) if wide else (R, C)
        h["img#"] = lambda k: 16 + cnt * dims(k)[0] * dims(k)[1] + (ZERO if exact else k.dim("e"))
        h["lab#"] = lambda k: 8 + cnt + (ZERO if exact else k.dim("f"))

        def dims(k):
            return (k.dim("rows") + 256 * k.dim("rh"), k.dim("cols") + 256 * k.dim("ch")) if wide else (k.dim("rows"), k.dim("cols"))

        def facts(k):
            return [le(k.dim("rows"), 255), le(k.dim("cols"), 255)] + ([le(k.dim("rh"), 127), le(k.dim("ch"), 127)] if wide else []) + digits(cnt)

        def check(k):
            k.returns()
            r, c = dims(k)
            nb = (cnt + b - 1) // b
            for o in ("nx", "ny"):
                for x in [x for x in k.R.outs.get(o, ()) if x[0] == "int"]:
                    k.value(o, x[1], P(nb), x[4], x[3])
            for idx in range(len([x for x in k.R.outs.get("nx", ()) if x[0] == "int"]) * nb):
                j = idx % nb if nb else 0
                n = min(b, cnt - j * b)
                batch_tensors(k, "x", idx, [n, 1, r, c], lambda s, z, p, q, j=j: byte_at("img", 16 + ((j * b + s) * r + p) * c + q) / 255)
                batch_tensors(k, "y", idx, [n, 10], lambda s, d, j=j: ind(eq(d, byte_at("lab", 8 + j * b + s))))
            if not k.R.outs.get("nx"):
                k.add("loads", UNDECIDED, k.R.err or "no result")
        out.append(Case(nm, sc, h, check, unit=U, domain=DOM, facts=facts, lo={"E": 0, "F": 0, "RH": 0, "CH": 0}))

    big = 0x01020304
    for ni, b, limit, cnt in ((1, 1, -1, 1), (3, 2, -1, 3), (2, 5, -1, 2), (4, 2, -1, 4), (5, 2, 3, 3), (big, 1, 2, 2), (big, 3, 4, 4), (0, 2, -1, 0), (3, 2, 7, 3), (3, 2, 0, 0), (3, 1, 3, 3)):
        load("%s images, batches of %d, limit %d" % ("many" if ni == big else ni, b, limit), "i_load", ni, b, limit, cnt)
    load("exact length", "i_load", 3, 2, -1, 3, exact=True)
    load("no limit", "i_all", 3, 2, -1, 3)
    load("default batch size", "i_plain", 2, 1, -1, 2)
    load("large dimensions", "i_load", 2, 2, -1, 2, wide=True)
    load("double", "i_double", 3, 2, -1, 3)
    load("loading twice", "i_again", 2, 2, -1, 2)
    load("loading twice, limited", "i_again", 3, 1, 2, 2)

    def reject(nm, extra, facts=(), ni=2, b=2, limit=-1, sc="i_load", **kw):
        h = header(ni, ni)
        h["b"] = lambda k: P(b)
        h["limit"] = lambda k: P(limit)
        h["img#"] = lambda k: 16 + ni * k.dim("rows") * k.dim("cols")
        h["lab#"] = lambda k: P(8 + ni)
        for x, v in extra.items():
            h.pop(x, None)
            h[x] = v

        def fs(k):
            return small(k) + digits(ni if not nm.startswith("label above") else 0) + (facts(k) if callable(facts) else list(facts))
        out.append(Case(nm, sc, h, lambda k: k.throws(), unit=U, domain=kw.pop("domain", DOM), facts=fs, **kw))
    gone = lambda k: ZERO
    reject("no image file", {"img?": gone})
    reject("no label file", {"lab?": gone})
    for f, magic in (("img", 2051), ("lab", 2049)):
        for j in range(4):
            good = (magic >> (8 * (3 - j))) & 255
            reject("wrong magic number/%s byte %d" % (f, j), {"m": "M", "%s@%d" % (f, j): (lambda k: k.dim("m"))}, facts=lambda k, good=good: [le(k.dim("m"), 255), bnot(eq(k.dim("m"), good))], lo={"M": 0})
        reject("wrong magic number/%s, other file's" % f, be(f, 0, 4100 - magic))
        for n in (0, 1, 3, 4, 5, 7) + ((8, 11, 12, 15) if f == "img" else ()):
            reject("header cut/%s at %d" % (f, n), {f + "#": (lambda k, n=n: P(n))})
        reject("wrong magic number/%s, limit 0" % f, be(f, 0, 1), limit=0)
    for ni, b in ((1, 1), (2, 2), (3, 2), (3, 1)):
        reject("images cut/%d by %d" % (ni, b), {"e": "E", "img#": lambda k: 16 + k.dim("e")}, facts=lambda k, ni=ni: [lt(k.dim("e"), ni * k.dim("rows") * k.dim("cols"))], ni=ni, b=b, lo={"E": 0})
        reject("labels cut/%d by %d" % (ni, b), {"e": "E", "lab#": lambda k: 8 + k.dim("e")}, facts=lambda k, ni=ni: [lt(k.dim("e"), ni)], ni=ni, b=b, lo={"E": 0})
        for i in range(ni):
            reject("label above 9/%d by %d, sample %d" % (ni, b, i), {}, facts=lambda k, i=i: [le(10, byte_at("lab", 8 + i))], ni=ni, b=b, domain={"byte:lab": lambda u: 10 + u * 246})
    reject("last image cut by a byte", {"img#": lambda k: 15 + 2 * k.dim("rows") * k.dim("cols")})
    reject("limited and cut", {"img#": lambda k: 15 + 2 * k.dim("rows") * k.dim("cols")}, ni=5, b=1, limit=2)

    def make(nm, b, ok):
        out.append(Case(nm, "i_make", {"b": b, "limit": lambda k: P(-1)}, lambda k: k.returns() if ok else k.throws(), unit=U, facts=(lambda k: [le(k.dim("b"), 0)]) if not ok else (), lo={"B": -5 if not ok else 1}))
    make("batch size/not positive", "B", False)
    make("batch size/positive", "B", True)
    return out


spec("C31", "The loader on a model of its two files: length, presence and every byte are symbolic, reading a byte moves the position by one and fails behind the end. Headers, image and label counts, batch sizes and limits are enumerated; rows, columns, contents and lengths are symbolic. Every element of every batch is compared with the byte of the file it must come from; the path conditions of malformed files must all end in an exception.", assumptions=["files do not change while they are read, and reading fails only at the end of the file"], note="numbers of images and batch sizes are enumerated (the loader builds vectors of tensors)")(c31_cases)
