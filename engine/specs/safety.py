"""C28 and C29: what every analysed scenario of the other properties says about memory and about parallel loops."""
import copy
import os
import re

from props import spec
import props
from harness import *
import itertools
import terms as T
import harness as H

MEMORY = {"oob", "null-deref", "empty-optional", "dangling", "uninit", "bad-size", "invalid-iterator", "double-free", "leak", "overlap"}


def reuse(names, tier, check, keep=lambda c: True):
    out = []
    for p in names:
        for c in props.REG[p].cases(tier):
            if c.scenario is None or not keep(c):
                continue
            d = copy.copy(c)
            d.name = "%s/%s" % (p, c.name)
            d.check = check
            out.append(d)
    return out


# variants whose code paths another scenario of the same layer covers, too slow for the quick tier
SLOW29 = re.compile(r"latest/|(scaled|first|double|history)/4|first/4-|latest/2-4|single/4-(row|batch|channel|evaluated)|4-4/mismatch-b1|again/p2-s1-pad1")


def memory(k):
    k.clean(allow=ERR_KINDS - MEMORY, what="memory")


QUICK29 = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C30", "C31", "C33", "C34"]


@spec("C29", "symbolic loop summarisation of every scenario of the other properties (all tensor kernels, layers, activations, losses, optimizers, the model, the loader and the generators at arbitrary sizes within a rank): every element access, pointer dereference, optional access, iterator use and buffer construction is an obligation, discharged by integer reasoning over index expressions or refuted by a concrete assignment", limit=(150, 900))
def c29_cases(tier):
    return reuse(QUICK29 + (["C26"] if tier == "thorough" else []), tier, memory, lambda c: tier == "thorough" or not SLOW29.match(c.name))


# ------------------------------------------------------------------ parallel loops
class Limit(Exception):
    pass


def accesses(k, e, ev, bs, b, out, budget):
    """concrete accesses of a logged one: (outer iteration, iteration, place) -> conditions hold"""
    if not bs:
        budget[0] -= 1
        if budget[0] < 0:
            raise Limit()
        if e.bool(ev.cond, b):
            R, ids, rw, root, path = ev.detail
            outer = tuple(b[s] for s, n in ev.binders[:R.depth])
            me = tuple(int(e.poly(i, b)) for i in ids)
            where = (root,) + tuple(int(e.poly(s[1], b)) if isinstance(s, tuple) and s[0] == "x" else s for s in path)
            out.append((outer, me, where))
        return
    s, n = bs[0]
    for i in range(int(e.poly(n, b))):
        b2 = dict(b)
        b2[s] = i
        accesses(k, e, ev, bs[1:], b2, out, budget)


def place(k, root, path):
    return "".join("[%s]" % T.poly_str(s[1], 3) if isinstance(s, tuple) and s[0] == "x" else "" for s in path) or "a shared variable"


def races(k):
    I = k.R.I
    k.clean(allow=ERR_KINDS - {"race"}, what="races")
    regions = {}
    for ev in k.R.events:
        if ev.kind == "omp-access" and ev.detail[3] not in ev.detail[0].excl:
            regions.setdefault(ev.detail[0], []).append(ev)
    for R, evs in regions.items():
        writes = [x for x in evs if x.detail[2] == "write"]
        name = R.loc.rsplit("/", 1)[-1].rsplit(":", 1)[0]
        what = "iterations of the loop in %s:%s" % (name, evs[0].fn.rsplit("::", 1)[-1] if evs else "")
        roots = {x.detail[3] for x in writes}
        evs = [x for x in evs if x.detail[3] in roots]
        tried, unknown, bad = 0, None, None
        for e in itertools.chain(k.envs(k.trials), k.guided(k.trials, *[x.cond for x in evs][:12])):
            cells = {}
            budget = [60000]
            try:
                for x in evs:
                    out = []
                    accesses(k, e, x, list(x.binders), {}, out, budget)
                    for outer, me, where in out:
                        cells.setdefault((outer, where), {}).setdefault(me, []).append(x)
            except (UnknownVal, Poison) as x:
                unknown = str(x) or "poison"
                continue
            except Limit:
                unknown = "too many accesses"
                continue
            tried += 1
            for (outer, where), by in cells.items():
                ws = [m for m, xs in by.items() if any(x.detail[2] == "write" for x in xs)]
                if ws and len(by) > 1:
                    w = ws[0]
                    o = [m for m in by if m != w][0]
                    xw = [x for x in by[w] if x.detail[2] == "write"][0]
                    bad = (e, w, o, xw, by[o][0])
                    break
            if bad:
                break
        if bad:
            e, w, o, xw, xo = bad
            k.add(what, VIOLATED, "iteration %s of the parallel loop at %s writes%s what iteration %s %s at %s, for %s" % (
                w, R.loc.replace(REPO + "/", ""), " " + place(k, xw.detail[3], xw.detail[4]), o, "writes" if xo.detail[2] == "write" else "reads", xo.loc.replace(REPO + "/", ""), k.describe(e)), xw.loc, "iterations of a parallel loop touch disjoint memory")
        elif tried:
            k.add(what, AGREED, "%d logged accesses to shared memory in %s; no two iterations met in %d sampled sizes" % (len(evs), R.loc.replace(REPO + "/", ""), tried), R.loc, "iterations of a parallel loop touch disjoint memory")
        else:
            k.add(what, UNDECIDED, unknown or "no assignment", R.loc)
        I.sites["parallel " + R.loc.replace(REPO + "/", "")] = I.sites.get("parallel " + R.loc.replace(REPO + "/", ""), 0) + 1


def has_omp(x):
    if isinstance(x, list):
        if x and x[0] == "omp" and isinstance(x[2], str):
            return True
        return any(has_omp(y) for y in x if isinstance(y, (list, dict)))
    if isinstance(x, dict):
        return any(has_omp(y) for y in x.values() if isinstance(y, (list, dict)))
    return False


def callees(x, out):
    if isinstance(x, list):
        if len(x) > 3 and x[0] in ("call", "ctor", "fnref") and isinstance(x[3], int):
            out.add(x[3])
        elif len(x) > 4 and x[0] == "lambda" and isinstance(x[4], int):
            out.add(x[4])
        for y in x:
            if isinstance(y, (list, dict)):
                callees(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, (list, dict)):
                callees(y, out)


def reaches_omp(prog, scenario):
    """does the call graph lead from the scenario to a function with an OpenMP directive?"""
    if not hasattr(prog, "omp_from"):
        graph, names = {}, {}
        for i, f in prog.functions.items():
            s = set()
            callees(f, s)
            graph[int(i)] = s
            names.setdefault(f["name"], set()).add(int(i))
        back = {}
        for i, s in graph.items():
            for j in s:
                r = prog.fnrefs.get(str(j))
                for t in (names.get(r["n"], set()) if r and r.get("virt") else {j}):
                    back.setdefault(t, set()).add(i)
        todo = [int(i) for i, f in prog.functions.items() if has_omp(f)]
        seen = set(todo)
        while todo:
            for j in back.get(todo.pop(), ()):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        prog.omp_from = {prog.functions[str(i)]["name"] for i in seen}
    return scenario in prog.omp_from


def pragmas(k):
    n, bad = 0, []
    for d, ds, fs in os.walk(os.path.join(REPO, "smart_dnn")):
        for f in sorted(fs):
            with open(os.path.join(d, f), errors="replace") as h:
                for i, l in enumerate(h, 1):
                    if re.match(r"\s*#\s*pragma\s+omp\b", l):
                        n += 1
                        if not re.search(r"\b(parallel\s+for|for|simd|critical|atomic|single|master)\b", l):
                            bad.append("%s:%d %s" % (f, i, l.strip()))
                    elif re.search(r"\bstd::(thread|async|jthread)\b|std::execution::par", l):
                        bad.append("%s:%d %s" % (f, i, l.strip()))
    if bad:
        k.add("constructs", UNDECIDED, "parallel construct outside the analysed kinds: " + bad[0])
    else:
        k.add("constructs", PROVED, "%d OpenMP directives, all loops" % n, "", "parallelism is loop parallelism")


@spec("C28", "symbolic loop summarisation of every scenario that executes an OpenMP loop: the accesses of one arbitrary iteration to memory that exists before the loop, with symbolic indices and path conditions; no two iterations (tuples of collapsed loop counters) may meet in a place that one of them writes, outside declared reductions, private variables and critical sections", limit=(150, 900),
      technique="symbolic effect analysis of loop bodies (index sets of reads and writes), disjointness by integer reasoning and by evaluation at sampled sizes",
      assumptions=["whole-range library calls on shared containers inside a parallel loop are not logged element by element", "floating-point reductions are allowed to differ in rounding"])
def c28_cases(tier):
    cs = reuse(QUICK29 + (["C26"] if tier == "thorough" else []), tier, races)
    for c in cs:
        c.omplog = True
        c.need = reaches_omp
    return cs + [Case("constructs", None, {}, pragmas)]
