"""Cases, obligations, evidence and verdicts."""
import itertools
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import copy
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from terms import *
import terms as T
import arrays as A
from arrays import *
import run as RUN
from run import *
from decide import Env, UnknownVal, Poison, close, guides

REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUILD = os.path.join(VERIF, ".build")
WIT = os.path.join(VERIF, "witness")
FLAGS = ["-std=c++17", "-I" + REPO, "-I" + WIT, "-fopenmp", "-w"]

ERR_KINDS = {"oob", "null-deref", "empty-optional", "dangling", "div0", "uninit", "abort", "bad-size", "terminate", "throw", "race", "invalid-iterator", "double-free", "leak", "overlap"}


class BrokenCheck(Exception):
    pass


# ------------------------------------------------------------------ front end
def build_frontend():
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["bash", os.path.join(VERIF, "frontend", "build.sh")], check=True)


def frontend(src, out=None, defines=()):
    """analyse one translation unit; returns (path of the dump or None, diagnostics)"""
    vf = os.path.join(BUILD, "vfront")
    out = out or os.path.join(BUILD, "%s.%d.json" % (os.path.basename(src), os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([vf, out, "%s,%s" % (REPO, WIT), src] + FLAGS + ["-D" + d for d in defines], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return None, r.stderr + r.stdout
    return out, r.stderr


# ------------------------------------------------------------------ obligations
PROVED, AGREED, UNDECIDED, VIOLATED, INCONSISTENT = "proved", "agreed", "undecided", "violated", "inconsistent"


class Ob:
    def __init__(self, key, status, detail="", loc="", rule=""):
        self.key, self.status, self.detail, self.loc, self.rule = key, status, detail, loc, rule


class Case:
    def __init__(self, name, scenario, cfg, check, lo=None, domain=None, facts=(), unit=None, instances=None, modes=("generic", "ties", "neg"), hooks=None, instance_only=False, timeout=None, avoid=None):
        self.name, self.scenario, self.cfg, self.check = name, scenario, cfg, check
        self.lo = lo or {}
        self.domain = domain or {}
        self.facts = facts
        self.unit = unit
        self.instances = instances
        self.modes = modes
        self.hooks = hooks or {}
        self.instance_only = instance_only
        self.timeout = timeout
        self.avoid = avoid or {}


class K:
    """what a checker sees: one analysed scenario in one configuration"""

    def __init__(self, case, prog, sizes, tier, label, extra=()):
        self.case, self.prog, self.tier, self.label = case, prog, tier, label
        self.cfg = {}
        self.symlo = {}
        self.facts = []
        for k, v in case.cfg.items():
            if isinstance(v, str):
                if v in sizes:
                    self.cfg[k] = P(sizes[v])
                else:
                    self.cfg[k] = ap(symatom(v, "i"))
                    self.symlo[v] = case.lo.get(v, 1)
            elif callable(v):
                self.cfg[k] = P(v(self))
            else:
                self.cfg[k] = P(v)
        self.symbolic = bool(self.symlo)
        for s, lo in self.symlo.items():
            self.facts.append(ge(ap(symatom(s, "i")), lo))
        if callable(case.facts):
            self.facts += [b for b in case.facts(self) if b is not TRUE]
        self.facts += extra
        self.obs = []
        self.trials = {PROVED: 2}.get(None, 4 if tier == "quick" else 16)
        self.R = None

    def dim(self, n):
        return self.cfg[n]

    def go(self):
        if self.case.scenario is None:
            self.case.check(self)
            return self
        self.R = RUN.run(self.prog, self.case.scenario, self.cfg, self.facts, self.case.hooks, getattr(self.case, "omplog", False), getattr(self.case, "raw", False))
        if self.R.err:
            self.add("analysis", UNDECIDED, self.R.err)
        self.case.check(self)
        return self

    def add(self, what, status, detail="", loc="", rule=""):
        self.obs.append(Ob(what, status, detail, loc, rule))

    # ---- sampling
    def envs(self, n):
        """assignments that satisfy the configuration"""
        out = 0
        for i in range(n * 12):
            if out >= n:
                return
            rnd = random.Random("%s/%s/%s/%d" % (SEED, self.case.name, self.label, i))
            sizes = {s: rnd.choice([lo, lo + 1, lo + 1, lo + 2, lo + 3]) for s, lo in self.symlo.items()}
            e = Env((SEED, self.case.name, i), sizes, self.case.modes[out % len(self.case.modes)], self.case.domain)
            e.avoid = self.case.avoid
            try:
                if all(e.bool(b, {}) for b in self.facts):
                    out += 1
                    yield e
            except (Poison, UnknownVal):
                continue

    def guided(self, n, *terms):
        """assignments steered to both sides of the comparisons the terms contain"""
        g = guides(*terms)
        out = 0
        rnd = random.Random("%s/%s/%s/guided" % (SEED, self.case.name, self.label))
        todo = [(b, "generic") for b in (g.sizes(self.symlo, rnd) if self.symlo else [])]
        if g.reals:
            for j in range(3):
                todo.insert(0, ({s: rnd.choice([lo, lo + 1, lo + 2]) for s, lo in self.symlo.items()}, "special"))
        limit = n * (3 if self.tier == "quick" else 10)
        for i, (sizes, mode) in enumerate(todo):
            if out >= limit:
                return
            e = Env((SEED, self.case.name, "g", i), sizes, mode, self.case.domain)
            e.avoid = self.case.avoid
            e.specials = tuple(sorted(g.reals))
            e.budget = 300000
            e.special_ints = tuple(sorted(g.ints))
            try:
                if all(e.bool(b, {}) for b in self.facts):
                    out += 1
                    yield e
            except (Poison, UnknownVal):
                continue

    def describe(self, e):
        s = ", ".join("%s=%s" % x for x in sorted(e.sizes.items()))
        c = ", ".join("%s=%s" % (k, T.poly_str(v, 2)) for k, v in self.cfg.items())
        return "%s%s" % (c, " with " + s if s else "")

    # ---- events
    def clean(self, allow=(), what="safe"):
        """no error event of the scenario can happen"""
        n = 0
        seen = set()
        R = self.R
        for ev in R.events:
            if ev.kind not in ERR_KINDS or ev.kind in allow:
                continue
            n += 1
            st, d = self.event_status(ev)
            key = (ev.kind, ev.loc.split("/repo/")[-1])
            if st == VIOLATED and key in seen:
                continue
            if st == VIOLATED:
                seen.add(key)
            self.add("%s:%s:%s" % (what, ev.kind, self.site(ev)), st, "%s (%s) in %s: %s" % (ev.kind, ev.detail, ev.fn, d), ev.loc, "no " + ev.kind)
        if not n:
            self.add(what, UNDECIDED if R.err else PROVED, "%d obligations discharged" % R.I.sites["discharged"], rule="no error event")

    def site(self, ev):
        """stable name of the place of an event"""
        f = ev.loc.rsplit("/", 1)[-1].rsplit(":", 1)[0]
        return "%s:%s" % (f, ev.fn.rsplit("::", 1)[-1])

    def event_status(self, ev):
        unknown = None
        tried = 0
        if ev.cond is FALSE:
            return PROVED, ""
        for e in itertools.chain(self.envs(self.trials), self.guided(self.trials, ev.cond)):
            try:
                w = self.witness(e, ev, list(ev.binders), {})
            except UnknownVal as x:
                if not hasattr(e, "budget"):
                    unknown = str(x)
                continue
            except Poison:
                continue
            tried += 1
            if w is not None:
                return VIOLATED, "happens for %s%s" % (self.describe(e), (" at iteration " + ", ".join("%s" % x for x in w)) if w else "")
        if unknown is not None:
            return UNDECIDED, "not decided: " + unknown
        return (AGREED if tried else UNDECIDED), "did not happen for %d sampled assignments" % tried

    def witness(self, e, ev, bs, b):
        if not bs:
            return tuple(b.values()) if e.bool(ev.cond, b) else None
        (k, n) = bs[0]
        m = int(e.poly(n, b))
        rng = range(m) if m <= 64 else list(range(32)) + list(range(m - 32, m))
        for i in rng:
            b2 = dict(b)
            b2[k] = i
            w = self.witness(e, ev, bs[1:], b2)
            if w is not None:
                return w
        return None

    def returns(self, allow=()):
        """the scenario returns normally and without error events"""
        if not self.R.returned and not self.R.err:
            ev = [x for x in self.R.events if x.kind in ERR_KINDS]
            if not ev:
                self.add("returns", UNDECIDED, "no normal return")
        self.clean(allow)

    def throws(self, what="rejects"):
        """every execution ends in an exception, without another error first"""
        R = self.R
        self.clean(allow=("throw",))
        if R.err:
            self.add(what, UNDECIDED, R.err)
            return
        thr = [x for x in R.events if x.kind == "throw"]
        if not R.returned:
            if thr:
                self.add(what, PROVED, "throws at %s" % thr[-1].loc, thr[-1].loc, "exception on every path")
            else:
                self.add(what, VIOLATED if not [x for x in R.events if x.kind in ERR_KINDS] else UNDECIDED, "no exception is thrown")
            return
        # may return: evaluate the path condition of the normal return
        pc = band(*R.I.pc) if R.I.pc else TRUE
        unknown = None
        n = 0
        for e in itertools.chain(self.envs(self.trials), self.guided(self.trials, pc)):
            try:
                if e.bool(pc, {}):
                    # is an error event certain anyway?
                    self.add(what, VIOLATED, "returns without an exception for %s" % self.describe(e), self.entry(), "exception on every path")
                    return
                n += 1
            except UnknownVal as x:
                unknown = str(x)
            except Poison:
                pass
        self.add(what, UNDECIDED if unknown or not n else AGREED, unknown or "throws for %d sampled assignments" % n, rule="exception on every path")

    def entry(self):
        """repository functions the scenario calls directly"""
        out = []
        for d, fid in self.R.I.calltree:
            f = self.prog.fn(fid)
            w = self.prog.filename(f.get("loc", ""))
            if w.startswith(REPO) and f["name"] not in ("Tensor", "Shape", "TensorData", "shape", "size", "data", "getShape", "getData", "rank"):
                out.append((d, "%s (%s)" % (f["q"], w)))
        if not out:
            return self.case.scenario
        m = min(d for d, _ in out)
        return "; ".join(dict.fromkeys(x for d, x in out if d == m))

    # ---- values
    def outs(self, name):
        o = self.R.outs.get(name)
        if not o:
            self.add("output " + name, UNDECIDED, "not produced")
            return None
        return o

    def index_syms(self, dims):
        out = []
        f = Facts()
        for j, d in enumerate(dims):
            out.append(fresh("i%d" % j))
        return out

    def tensor(self, name, shape, spec, sort="r", what=None, tol=None, shape_only=False):
        """output tensor `name` has the given shape and cells spec(indices)"""
        what = what or name
        o = self.R.outs.get(name)
        if not o:
            if not self.R.err and not any(x.kind in ERR_KINDS for x in self.R.events):
                self.add(what, UNDECIDED, "output not produced")
            elif self.R.err:
                self.add(what, UNDECIDED, self.R.err)
            return
        shape = [P(d) for d in shape]
        vec = [x for x in o if x[0] == "vec"]
        arr = [x for x in o if x[0] == "arr"]
        for x in vec:
            self.vec_is(what + ".shape", x, shape)
        if not vec or any(ob.key == what + ".shape" and ob.status == VIOLATED for ob in self.obs):
            return
        for x in arr:
            if not shape_only:
                self.cells(what, x, shape, spec)

    def ints(self, name, spec):
        """output vector of integers equals the list spec"""
        o = self.outs(name)
        if o:
            self.vec_is(name, o[0], [P(d) for d in spec])

    def vec_is(self, what, rec, want):
        kind, v, extra, pc, facts = rec
        with with_facts(facts):
            if isinstance(v, VecV):
                items = list(v.items)
            elif isinstance(v, ArrV):
                n = v.n
                if n.const() is None and facts.decide(eq(n, len(want))) is not True:
                    return self.value(what + ".size", n, P(len(want)), facts, pc)
                if n.const() is not None and n.const() != len(want):
                    self.add(what, VIOLATED, "has %s entries, expected %d" % (n, len(want)), self.entry())
                    return
                items = [v.c.read(P(i)) for i in range(len(want))]
            else:
                self.add(what, UNDECIDED, "not a vector")
                return
            if len(items) != len(want):
                self.add(what, VIOLATED, "has %d entries %s, expected %s" % (len(items), items, want), self.entry(), "shape")
                return
            for j, (x, y) in enumerate(zip(items, want)):
                self.value(what if len(want) == 1 else what, x, y, facts, pc, sub="[%d]" % j)

    def cells(self, what, rec, shape, spec):
        kind, v, extra, pc, facts = rec
        off, n = extra
        f = facts.copy()
        idx = [fresh("x%d" % j) for j in range(len(shape))]
        for i, d in zip(idx, shape):
            f.bound(i, 0, d - 1)
            f.add_ge(d - 1)
        ix = [ZERO if d is ONE else ap(i) for i, d in zip(idx, shape)]
        total = ONE
        flat = ZERO
        for i, d in zip(ix, shape):
            flat = flat * d + i
            total = total * d
        size = v.n if isinstance(v, ArrV) else P(len(v.items))
        with with_facts(facts):
            self.value(what + ".size", n, total, facts, pc)
        if any(ob.key == what + ".size" and ob.status == VIOLATED for ob in self.obs):
            return
        with with_facts(f):
            if isinstance(v, ArrV):
                actual = v.c.read(off + flat)
            elif all(d.const() is not None for d in shape) and all(isinstance(x, (Poly, Bool)) for x in v.items):
                # concrete cells
                import itertools
                for j, tup in enumerate(itertools.product(*[range(int(d.const())) for d in shape])):
                    x = v.items[j]
                    if isinstance(x, Bool):
                        x = ind(x)
                    with with_facts(facts):
                        self.value(what, x, P(spec(*[P(t) for t in tup])), facts, pc, sub=str(list(tup)))
                return
            else:
                self.add(what, UNDECIDED, "contents not tracked")
                return
            want = P(spec(*ix))
        self.value(what, actual, want, f, pc, binders=list(zip(idx, shape)), arr=(v, off + flat))

    def inspect(self, name, shape, judge, what=None, over=None, modes=("ties", "generic")):
        """all cells of an output tensor, at sampled assignments: judge(e, sizes, cell) returns None
        or what is wrong.  For guarantees that admit more than one result."""
        what = what or name
        o = self.R.outs.get(name)
        arr = [x for x in o or () if x[0] == "arr"]
        if not arr:
            self.add(what, UNDECIDED, "output not produced")
            return
        kind, v, extra, pc, facts = arr[0]
        off, n = extra
        idx = [fresh("x%d" % j) for j in range(len(shape))]
        f = facts.copy()
        flat = ZERO
        for i, d in zip(idx, shape):
            f.bound(i, 0, P(d) - 1)
            f.add_ge(P(d) - 1)
            flat = flat * P(d) + ap(i)
        actual = None
        if isinstance(v, ArrV):
            with with_facts(f):
                actual = v.c.read(off + flat)
        n = 0
        unknown = None
        tr = self.trials
        for j, e in enumerate(self.envs(2 * tr)):
            e.mode = modes[j % len(modes)]
            e.over = over or {}
            try:
                sizes = [int(e.poly(P(d), {})) for d in shape]

                def cell(*ix):
                    if actual is not None:
                        return e.poly(actual, dict(zip(idx, ix)))
                    k = 0
                    for a, d in zip(ix, sizes):
                        k = k * d + a
                    return e.poly(P(v.items[k]), {})
                bad = judge(e, sizes, cell)
            except UnknownVal as x:
                unknown = str(x)
                continue
            except Poison as x:
                continue
            n += 1
            if bad:
                self.add(what, VIOLATED, "%s for %s" % (bad, self.describe(e)), self.entry())
                return
        self.add(what, UNDECIDED if unknown or not n else AGREED, unknown or "holds for all cells at %d sampled assignments" % n)

    def real(self, name, want, what=None):
        o = self.outs(name)
        if o:
            kind, v, extra, pc, facts = o[0]
            with with_facts(facts):
                self.value(what or name, v, P(want() if callable(want) else want), facts, pc)

    def boolean(self, name, want):
        o = self.outs(name)
        if o:
            kind, v, extra, pc, facts = o[0]
            with with_facts(facts):
                self.value(name, ind(v), ind(B(want)), facts, pc)

    def value(self, what, actual, want, facts, pc=TRUE, binders=(), sub="", arr=None):
        if isinstance(actual, Bool):
            actual = ind(actual)
        if not isinstance(actual, Poly):
            self.add(what, UNDECIDED if not isinstance(actual, type(None)) else VIOLATED, "not a number: %r" % (actual,))
            return
        eqv = None
        try:
            with with_facts(facts):
                d = actual - want
                eqv = d is ZERO or is_zero(d)
                if not eqv:
                    d2 = resimplify(d)
                    eqv = d2 is ZERO or is_zero(d2)
        except RecursionError:
            eqv = False
        n = 0
        unknown = None
        for e in self.envs(2) if eqv else itertools.chain(self.envs(self.trials), self.guided(self.trials, actual, want, pc)):
            try:
                if not e.bool(pc, {}):
                    continue
                bad = self.disagree(e, actual, want, list(binders), {}, arr)
            except UnknownVal as x:
                if not hasattr(e, "budget"):
                    unknown = str(x)
                continue
            except Poison:
                continue
            n += 1
            if bad is not None:
                b, x, y = bad
                pos = ", ".join("%s" % b[i] for i, _ in binders)
                msg = "%s%s%s is %.9g, expected %.9g for %s; inferred %s ; expected %s" % (what, sub, "[" + pos + "]" if binders else "", x, y, self.describe(e), T.poly_str(actual, 6)[:1500], T.poly_str(want, 6)[:800])
                self.add(what, INCONSISTENT if eqv else VIOLATED, msg, self.entry(), "inferred value equals specification")
                return
        if eqv:
            self.add(what, PROVED, "normal forms equal", rule="inferred value equals specification")
        elif n and not unknown:
            self.add(what, AGREED, "%d sampled assignments; inferred %s ; expected %s" % (n, T.poly_str(actual, 4)[:300], T.poly_str(want, 4)[:300]), rule="inferred value equals specification")
        else:
            self.add(what, UNDECIDED, "no closed form: %s" % (unknown,), rule="inferred value equals specification")

    def disagree(self, e, actual, want, binders, b, arr):
        if binders:
            v, n = binders[0]
            m = int(e.poly(n, b))
            rng = range(m)
            if m > 10 and hasattr(e, "budget"):
                rng = sorted({0, 1, 2, m // 2, m - 2, m - 1} | {x + d for x in e.special_ints for d in (-1, 0, 1) if 0 <= x + d < m})
            for i in rng:
                b2 = dict(b)
                b2[v] = i
                r = self.disagree(e, actual, want, binders[1:], b2, arr)
                if r is not None:
                    return r
            return None
        if arr is not None:
            x = e.read(arr[0].c, int(e.poly(arr[1], b)), b, arr[0].sort)
        else:
            x = e.poly(actual, b)
        y = e.poly(want, b)
        if isinstance(x, bool):
            x = int(x)
        if not close(x, y):
            return b, float(x), float(y)
        return None


def resimplify(p):
    return T.rebuild(p)


# ------------------------------------------------------------------ running cases
def run_case(case, prog, tier):
    """list of (label, obs, stats)"""
    out = []
    todo = []
    symbols = sorted(set(v for v in case.cfg.values() if isinstance(v, str)))
    if not case.instance_only or not symbols:
        todo.append(("general" if symbols else "fixed", {}))
    obs = []

    def go(label, sizes, extra=(), depth=0):
        k = K(case, prog, sizes, tier, label, list(extra))
        if any(b is FALSE for b in k.facts):
            return      # these sizes are not in the configuration
        try:
            k.go()
        except Split as x:
            # two heaps of different shape meet: analyse the two sides of the condition on their own
            c = x.args[0]
            if depth >= 3 or any(c is e or bnot(c) is e for e in extra):
                k.add("analysis", UNDECIDED, "undecided branch: %s" % T.bool_str(c, 2))
            else:
                for d in (c, bnot(c)):
                    go("%s, %s" % (label, T.bool_str(d, 2)), sizes, tuple(extra) + (d,), depth + 1)
                return
        out.append((label, k.obs, stats(k)))
        obs.extend(k.obs)

    for label, sizes in todo:
        go(label, sizes)
    need = case.instance_only or any(o.status == UNDECIDED for o in obs) or not obs
    if symbols and (need or tier == "thorough") and not any(o.status == VIOLATED for o in obs):
        for sizes in instances(case, symbols, tier):
            go("instance " + ",".join("%s=%d" % x for x in sorted(sizes.items())), sizes)
            if any(o.status == VIOLATED for o in obs):
                break
    return out


def instances(case, symbols, tier):
    if case.instances:
        return case.instances if tier == "thorough" else case.instances[:2]
    r = []
    for a in range(2 if tier == "quick" else 3):
        r.append({s: case.lo.get(s, 1) + (1 + (j + a) % 2 if a < 2 else (j % 2) * 2) for j, s in enumerate(symbols)})
    return r


def stats(k):
    if k.R is None:
        return dict(wall=0, fns=sorted(getattr(k, "fns", ())), sites={}, loops=[], err=None)
    I = k.R.I
    fns = sorted(set("%s" % k.prog.fn(f)["q"] for f in I.visited if k.prog.filename(k.prog.fn(f).get("loc", "")).startswith(REPO)))
    return dict(wall=round(k.R.wall, 2), fns=fns, sites=dict(I.sites), loops=[(w, n, [x[1] for x in ls]) for w, n, ls in I.loopinfo], err=k.R.err)


def child(case, prog, tier, wfd):
    signal.alarm(0)
    try:
        r = run_case(case, prog, tier)
        data = pickle.dumps(("ok", [(l, [(o.key, o.status, o.detail, o.loc, o.rule) for o in obs], st) for l, obs, st in r]))
    except BaseException as x:
        data = pickle.dumps(("error", "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-3000:])))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_cases(cases, progs, tier, timeout, deadline=None):
    """forks one process per case, at most 8 at a time"""
    res = {}
    live = {}
    queue = list(enumerate(cases))
    queue.reverse()
    first = {}
    deadline = time.time() + (deadline or (780 if tier == "quick" else 3300))
    import gc
    gc.collect()
    gc.freeze()
    jobs = max(1, min(8, os.cpu_count() or 1))
    while queue or live:
        while queue and len(live) < jobs:
            i, c = queue.pop()
            if time.time() > deadline - 5:
                res[i] = ("error", "not reached within the time for this check")
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                child(c, progs[c.unit], tier, w)
            os.close(w)
            live[r] = [i, pid, min(deadline, time.time() + (c.timeout or timeout)), b"", c]
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                live[r][3] += d
                continue
            i, pid, _, buf, c = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[i] = pickle.loads(buf)
            except Exception:
                res[i] = ("error", "analysis process died")
        now = time.time()
        for r in list(live):
            i, pid, t, buf, c = live[r]
            if now > t:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                if not c.instance_only and any(isinstance(v, str) for v in c.cfg.values()):
                    # too hard for arbitrary sizes: decide it at some sizes
                    c = copy.copy(c)
                    c.instance_only = True
                    queue.insert(0, (i, c))
                else:
                    res[i] = ("error", "time limit")
    return [res[i] for i in range(len(cases))]
