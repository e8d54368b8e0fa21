"""C11: no NaN from finite inputs."""
from props import spec
from harness import *
from terms import *
import terms as T
import fbounds as FB

RULE = "no operation on the way to the result is inf-inf, 0*inf, 0/0, inf/inf or outside its domain"


def finite(outs, w=32, nonneg=(), positive=()):
    def check(k):
        k.returns()
        for name in outs:
            o = [x for x in k.R.outs.get(name) or () if x[0] == "arr"]
            if not o:
                k.add(name, UNDECIDED, k.R.err or "output not produced")
                continue
            kind, v, (off, n), pc, facts = o[0]
            c = n.const()
            if c is None:
                k.add(name, UNDECIDED, "size not constant")
                continue
            for i in range(int(c)):
                with with_facts(facts):
                    cell = v.c.read(off + i) if isinstance(v, ArrV) else P(v.items[int((off + i).const())])
                    one(k, "%s[%d]" % (name, i), cell, w, nonneg)
    return check


GRAD = 1e15  # bound on the magnitude of an upstream gradient


class Inputs:
    """the given finite numbers: elements of input arrays and scalar parameters"""

    def __init__(self, nonneg, w):
        self.nonneg, self.big = nonneg, FB.MAX[w]

    def __contains__(self, a):
        return (a.kind == "el" and a.args[1].const() is not None) or (a.kind == "sym" and a.sort == "r")

    def __getitem__(self, a):
        n = T.atom_str(a).split("[")[0]
        if n == "g":
            return -GRAD, GRAD
        return (0.0 if n in self.nonneg else -self.big), self.big


def one(k, what, cell, w, nonneg):
    ats = {}
    FB.atoms_of(cell, ats)
    inputs = Inputs(nonneg, w)
    for b in cell.conds:
        FB.bool_atoms(b, ats)
    try:
        r, n = FB.cells_ok(cell, inputs, w)
    except FB.Unsure as x:
        r, n = "not analysed: %s" % x, 0
    if r is None:
        k.add(what, PROVED, "%d combinations of comparisons, %d operations" % (n, sum(1 for a in ats if a.kind == "fn")), "", RULE)
        return
    e = FB.witness(cell, inputs, w, (SEED, k.case.name, what))
    if e is None:
        k.add(what, UNDECIDED, r)
    else:
        k.add(what, VIOLATED, "%s: NaN for %s" % (r, ", ".join("%s = %g" % (T.atom_str(a), v) for a, v in sorted(e.items()))), "", RULE)


SH = {1: [(1,), (2,)], 2: [(1, 2), (2, 1), (2, 3)], 3: [(1, 2, 1), (2, 1, 2)], 4: [(1, 2, 1, 1), (1, 1, 2, 1)]}


@spec("C11", "every activation (forward and backward) and loss (value and gradient) at constant small sizes with arbitrary finite contents (upstream gradients up to 1e15 in magnitude): each floating-point operation on the way to each result element is bounded by an interval over the extended reals, splitting on every comparison", limit=(120, 600),
      technique="abstract interpretation: interval domain with infinities and difference bounds over the derived operation graph",
      assumptions=["library functions are within four units in the last place", "sizes are sampled: the operations on an element do not depend on the sizes except through the number of summands"])
def c11_cases(tier):
    out = []

    def add(name, sc, cfg, outs, unit, **kw):
        c = Case(name, sc, cfg, finite(outs, **kw), unit=unit)
        c.raw = True
        out.append(c)

    def shape(nm, s):
        return {"%s%d" % (nm, i): d for i, d in enumerate(s)}
    for act in ("relu", "leakydef", "sigmoid", "tanh", "swish", "mish", "softmax"):
        for r in (1, 2, 3, 4):
            if act == "softmax" and r == 1:
                continue
            for s in SH[r] + ([(1, 4)] if tier == "thorough" and r == 2 else []):
                lab = "%s/%s" % (act, "x".join(map(str, s)))
                add(lab, "fwd_%s_%d" % (act, r), shape("a", s), ["c"], "c09.cpp")
                if act != "softmax" or sum(s) < 6:
                    add(lab + "/gradient", "bwd_%s_%d" % (act, r), shape("a", s), ["c"], "c09.cpp")
        nm = "leaky" if act == "leakydef" else act
        add("double/" + act, "twice_" + nm, {**shape("a", (1, 2)), **shape("b", (2, 1))}, ["x", "y", "z"], "c09.cpp", w=64)
    for r, ss in ((1, [(1,), (3,)]), (2, [(1, 2), (2, 2)]), (3, [(1, 2, 2)]), (4, [(1, 2, 1, 2)])):
        for s in ss:
            add("mse/" + "x".join(map(str, s)), "mse%d" % r, shape("a", s), ["c", "d"], "c19.cpp")
    add("mse/double", "mse2d", shape("a", (2, 2)), ["c", "d"], "c19.cpp", w=64)
    for s in ((1, 1), (1, 2), (2, 1), (2, 2)):
        add("cce/" + "x".join(map(str, s)), "cce2", shape("a", s), ["c", "d"], "c19.cpp", nonneg=("y",))
    add("cce/double", "cce2d", shape("a", (2, 1)), ["c", "d"], "c19.cpp", w=64, nonneg=("y",))
    return out


import props
props.REG["C11"].assumptions = [a for a in props.REG["C11"].assumptions if "real arithmetic is exact" not in a] + ["floating-point operations are IEEE operations of the declared width, one after the other as written (no -ffast-math, no extended precision)"]
props.REG["C11"].note = "Abstract interpretation over IEEE intervals of the operation graph the engine derives from the current source at constant small sizes, for arbitrary finite contents; every path through the comparisons is covered. A NaN is reported only with finite inputs that produce it in the derived operations."
