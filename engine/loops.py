"""Loop summarisation: modified-leaf discovery, recurrence solving, array closure."""
from interp import *
import interp as IN
import terms as T
import arrays as A

import os
UNROLL = 40
LOWFUEL = 10
DEBUG = int(os.environ.get("VF_DEBUG", "0"))
_guess = {}


class Leaf:
    __slots__ = ("root", "path", "kind", "init", "ph", "sol", "sort", "why", "upd", "raw", "byinc")

    def __init__(self, root, path, kind, init, sort=None):
        self.root, self.path, self.kind, self.init, self.sort = root, path, kind, init, sort
        self.sol = None
        self.ph = None
        self.why = None
        self.upd = None
        self.raw = None
        self.byinc = False

    @property
    def key(self):
        return (self.root, self.path)

    def mkph(self):
        if self.kind == "s":
            self.ph = fresh("phi", self.sort)
        elif self.kind == "b":
            self.ph = bsym("phi!%d" % next(T._fresh))
        elif self.kind == "a":
            self.ph = Base("hole", next(A._ids), self.sort)
        elif self.kind == "l":
            self.ph = LogV((("hole", next(A._ids)),))
        else:
            self.ph = None

    def phkey(self):
        return self.ph.key if self.kind == "a" else self.ph

    def head(self):
        if self.kind == "s":
            return ap(self.ph)
        if self.kind == "u":
            return UNINIT
        return self.ph

    def __repr__(self):
        return "%s%s:%s" % (self.root, self.path, self.kind)


def sort_of(v):
    return "i" if v.is_int() else "r"


def diff(a, b, root, path, out):
    if a is b:
        return
    if a is UNINIT:
        out.append((root, path, "u", a, b))
        return
    if b is UNINIT:
        raise Structural("became uninitialised")
    if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
        if isinstance(a, Bool) != isinstance(b, Bool):
            raise Structural("bool/number")
        out.append((root, path, "b" if isinstance(a, Bool) else "s", a, b))
        return
    if type(a) is not type(b):
        raise Structural("%s -> %s" % (type(a).__name__, type(b).__name__))
    if isinstance(a, StructV):
        if a.rec != b.rec:
            raise Structural("record")
        for k in a.f:
            if a.f[k] is not b.f.get(k):
                diff(a.f[k], b.f[k], root, path + (k,), out)
        return
    if isinstance(a, VecV):
        if len(a.items) != len(b.items):
            e = Structural("vector length")
            e.vec = (root, path)
            raise e
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(x, y, root, path + (("x", P(i)),), out)
        return
    if isinstance(a, TupleV):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(x, y, root, path + (("t", i),), out)
        return
    if isinstance(a, ArrV):
        if a.c is not b.c:
            out.append((root, path + ("c",), "a", a.c, b.c))
        if a.n is not b.n:
            out.append((root, path + ("n",), "s", a.n, b.n))
        return
    if isinstance(a, OptV):
        if a.has is not b.has:
            if a.val is None or b.val is None:
                raise Structural("optional")
            out.append((root, path + ("h",), "b", a.has, b.has))
        if a.val is not b.val:
            diff(a.val, b.val, root, path + ("o",), out)
        return
    if isinstance(a, PtrV):
        if a.place != b.place or a.rev != b.rev or (a.off is None) != (b.off is None):
            raise Structural("pointer target")
        if a.off is not b.off and a.off is not None:
            out.append((root, path + ("p",), "s", a.off, b.off))
        return
    if isinstance(a, RngV):
        if a.seed is not b.seed:
            out.append((root, path + ("seed",), "s", a.seed, b.seed))
        if a.ctr is not b.ctr:
            out.append((root, path + ("ctr",), "s", a.ctr, b.ctr))
        return
    if isinstance(a, LogV):
        out.append((root, path + ("log",), "l", a, b))
        return
    if isinstance(a, OpaqueV):
        if a.what == b.what:
            return
    if isinstance(a, UPtr) and isinstance(a.p, PtrV) and isinstance(b.p, PtrV) and a.p.place == b.p.place:
        return
    if isinstance(a, LambdaV) and a.op == b.op:
        return
    raise Structural("changed %s" % type(a).__name__)


def leaf_value(I, S, root, path):
    v = S[root]
    for s in path:
        if isinstance(s, int):
            v = v.f[s]
        elif s == "c":
            v = v.c
        elif s == "n":
            v = v.n
        elif s == "h":
            v = v.has
        elif s == "o":
            v = v.val
        elif s == "p":
            v = v.off
        elif s == "seed":
            v = v.seed
        elif s == "ctr":
            v = v.ctr
        elif s == "log":
            pass
        elif s[0] == "t":
            v = v.items[s[1]]
        elif s[0] == "x":
            v = v.items[int(s[1].const())]
    return v


def set_leaf(I, root, path, val):
    def go(v, i):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(s, int):
            return v.set(s, go(v.f[s], i + 1))
        if s == "c":
            return ArrV(val, v.n, v.sort)
        if s == "n":
            return ArrV(v.c, val, v.sort)
        if s == "h":
            return OptV(val, v.val)
        if s == "o":
            return OptV(v.has, go(v.val, i + 1))
        if s == "p":
            return PtrV(v.place, val, v.rev)
        if s == "seed":
            return RngV(val, v.ctr)
        if s == "ctr":
            return RngV(v.seed, val)
        if s == "log":
            return val
        its = list(v.items)
        j = s[1] if s[0] == "t" else int(s[1].const())
        its[j] = go(its[j], i + 1)
        return TupleV(its) if s[0] == "t" else VecV(its)
    I.S[root] = go(I.S[root], 0)


def relocate(I, head, S):
    """content of replacement heap objects is moved back to the original object"""
    again = True
    while again:
        again = False
        for r, a in head.items():
            b = S.get(r)
            if b is None or b is a:
                continue
            out = []
            uptrs(a, b, r, (), out)
            for root, path, x, y in out:
                r0, r1 = x.p.place.root, y.p.place.root
                if r0 in S or r1 not in S or r1 in head:
                    continue
                S[r0] = S.pop(r1)
                save = I.S
                I.S = S
                set_any(I, root, path, UPtr(PtrV(Place(r0, x.p.place.path), x.p.off)))
                fix_ptrs(S, r1, r0)
                I.S = save
                again = True
                break
            if again:
                break


def fix_ptrs(S, r1, r0):
    pass


def set_any(I, root, path, val):
    def go(v, i):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(s, int):
            return v.set(s, go(v.f[s], i + 1))
        if s == "o":
            return OptV(v.has, go(v.val, i + 1))
        its = list(v.items)
        j = s[1] if s[0] == "t" else int(s[1].const())
        its[j] = go(its[j], i + 1)
        return TupleV(its) if s[0] == "t" else VecV(its)
    I.S[root] = go(I.S[root], 0)


def uptrs(a, b, root, path, out):
    if a is b:
        return
    if isinstance(a, UPtr) and isinstance(b, UPtr):
        if isinstance(a.p, PtrV) and isinstance(b.p, PtrV) and a.p.place.root != b.p.place.root:
            out.append((root, path, a, b))
        return
    if type(a) is not type(b):
        return
    if isinstance(a, StructV) and a.rec == b.rec:
        for k in a.f:
            if k in b.f:
                uptrs(a.f[k], b.f[k], root, path + (k,), out)
    elif isinstance(a, OptV):
        uptrs(a.val, b.val, root, path + ("o",), out)
    elif isinstance(a, (VecV, TupleV)) and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            uptrs(x, y, root, path + ((("t", i) if isinstance(a, TupleV) else ("x", P(i))),), out)


class Iter:
    __slots__ = ("c", "end", "brks", "base", "residual", "rets", "S")


def iterate(I, cond, body, inc, post):
    """one abstract iteration from the current state"""
    r = Iter()
    r.c = TRUE
    r.rets = []
    r.brks = []
    r.end = None
    if not post:
        r.c = cond()
        d = I.decide(r.c)
        if d is False:
            r.c = FALSE
            return r
        if d is not True:
            f = I.facts.copy()
            f.add(r.c)
            I.setfacts(f)
    saved = (I.brks, I.conts, I.rets)
    I.brks, I.conts, I.rets = [], [], []
    r.base = I.pc
    pre = I.snap()
    try:
        st = None
        try:
            body()
            st = I.snap()
        except Dead:
            pass
        outs = list(I.conts) + ([st] if st is not None else [])
        r.brks = I.brks
        r.rets = I.rets
    finally:
        I.brks, I.conts, I.rets = saved
    if not outs:
        return r
    I.restore(outs[-1])
    s0 = outs[-1]
    for s1 in reversed(outs[:-1]):
        I.join(pre, s1, s0)
        s0 = I.snap()
    inc()
    if post:
        r.c = cond()
    r.end = I.snap()
    r.residual = r.end[1][len(r.base):]
    return r


def join_many(I, pre, states):
    I.restore(states[-1])
    s0 = states[-1]
    for s1 in reversed(states[:-1]):
        I.join(pre, s1, s0)
        s0 = I.snap()


def run_loop(I, loc, cond, body, inc, omp=None, post=False):
    if not I.quiet:
        I.sites["loops"] += 1
    if try_unroll(I, loc, cond, body, inc, omp, post):
        return
    symbolic(I, loc, cond, body, inc, omp, post, 0)


def try_unroll(I, loc, cond, body, inc, omp, post):
    full = T.FUEL
    try:
        r = unroll(I, loc, cond, body, inc, omp, post, True)
        if r is None:
            T.FUEL = full
            r = unroll(I, loc, cond, body, inc, omp, post, False)
        return r
    finally:
        T.FUEL = full


def split_ints(I, head):
    """has the loop made integers that depend on comparisons of sizes (the indices of an odometer)?"""
    old = head[0]

    def walk(v, dep=0):
        if isinstance(v, Poly):
            if not v.is_int():
                return False
            for m in v.t:
                for a, e in m:
                    if a.kind == "ite" and a.fv and all(getattr(x, "sort", None) == "i" for x in a.fv):
                        return True
            return False
        if isinstance(v, VecV):
            return len(v.items) <= 8 and any(walk(x) for x in v.items if isinstance(x, Poly))
        if isinstance(v, StructV) and dep < 3:
            return any(walk(x, dep + 1) for x in v.f.values())
        return False
    return any(v is not old.get(k) and walk(v) for k, v in I.S.items())


def unroll(I, loc, cond, body, inc, omp, post, hasty):
    low = False
    head = I.snap()
    pre = head
    nev = len(I.events)
    root0 = I.nroot.n
    tmp0 = list(I.temps)
    nret = len(I.rets)
    saved = (I.brks, I.conts)
    sites = dict(I.sites)
    outs = []

    def rollback():
        I.restore(head)
        del I.events[nev:]
        I.nroot.n = root0
        for own in I.roots_of_call[-1:]:
            own -= {r for r in own if r >= root0}
        I.temps[:] = tmp0
        del I.rets[nret:]
        I.brks, I.conts = saved
        I.sites.update(sites)

    def const(c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = I.facts.decide(c)
        if d is False:
            return False
        return None
    n = 0
    alive = True
    sized = 0
    while True:
        if not (post and n == 0):
            try:
                c = cond()
            except Dead:
                alive = False
                break
            d = const(c)
            if d is None:
                rollback()
                return False
            if d is False:
                break
            if sized >= 3 and n >= 5:
                rollback()      # iterations whose course depends on the sizes: not a loop with a known number of iterations
                return False
        if n >= UNROLL:
            rollback()
            return False
        n += 1
        sb = I.size_branches
        I.brks, I.conts = [], []
        pre_it = I.snap()
        ik, I.iterk = I.iterk, P(n - 1)
        try:
            st = None
            try:
                body()
                st = I.snap()
            except Dead:
                pass
            cs = I.conts + ([st] if st is not None else [])
            bs = I.brks
        finally:
            I.iterk = ik
            I.brks, I.conts = saved
        outs += bs
        if not cs:
            alive = False
            break
        join_many(I, pre_it, cs)
        try:
            inc()
        except Dead:
            alive = False
            break
        sized += I.size_branches > sb
        if sized and hasty and T.FUEL > LOWFUEL and split_ints(I, head):
            # look ahead with little effort; done again if the loop does end
            T.FUEL = LOWFUEL
            I.setfacts(I.facts.copy())
            low = True
    if low:
        rollback()
        return None
    if n and not I.quiet:
        I.sites["unrolled"] += 1
    if omp and n > 1:
        note_omp_unrolled(I, omp, loc)
    if alive:
        outs.append(I.snap())
    if not outs:
        raise Dead()
    join_many(I, pre, outs)
    return True


def note_omp_unrolled(I, omp, loc):
    pass


# ------------------------------------------------------------------ symbolic loops
def is_scalar_vec(v):
    return all(isinstance(x, (Poly, Bool)) for x in v.items)


def promote(I, head, root, path):
    """turn a concrete vector of numbers into an array value so that it can grow"""
    v = leaf_value(I, head[0], root, path)
    ty_sort = "r"
    if not v.items:
        t = getattr(v, "sort", None)
        if t is None:
            return False
        ty_sort = t
    elif all(isinstance(x, Bool) for x in v.items):
        ty_sort = "b"
    elif all(isinstance(x, Poly) for x in v.items):
        ty_sort = "i" if all(x.is_int() for x in v.items) else "r"
    else:
        return False
    c = Base("undef", "vec%d" % next(A._ids), ty_sort)
    for i, x in enumerate(v.items):
        c = write_cell(c, P(i), P(x))
    I.restore(head)
    set_any(I, root, path, ArrV(c, P(len(v.items)), ty_sort))
    return True


class LoopCtx:
    pass


def exec_once(I, cond, body, inc, post):
    """ordinary execution of one iteration (peeling)"""
    if not post:
        c = cond()
        d = I.decide(c)
        if d is not True:
            raise Unsupported("peeling of a loop that may not execute")
    saved = (I.brks, I.conts)
    I.brks, I.conts = [], []
    pre = I.snap()
    try:
        st = None
        try:
            body()
            st = I.snap()
        except Dead:
            pass
        if I.brks:
            raise Unsupported("break in peeled iteration")
        outs = I.conts + ([st] if st else [])
    finally:
        I.brks, I.conts = saved
    if not outs:
        raise Dead()
    join_many(I, pre, outs)
    inc()
    if post:
        c = cond()
        d = I.decide(c)
        if d is False:
            return False
        if d is not True:
            raise Unsupported("peeling of a do loop")
    return True


def symbolic(I, loc, cond, body, inc, omp, post, peeled):
    head = I.snap()
    root0 = I.nroot.n
    tmp0 = list(I.temps)
    nret = len(I.rets)

    def reset():
        I.restore(head)
        I.nroot.n = root0
        for own in I.roots_of_call[-1:]:
            own -= {r for r in own if r >= root0}
        I.temps[:] = tmp0
        del I.rets[nret:]

    k = fresh("k")
    kp = ap(k)
    leaves = {}
    order = []

    def addleaf(root, path, kind, val, new=None):
        key = (root, path)
        if key in leaves:
            return False
        if kind == "s":
            srt = "i" if val.is_int() and (new is None or new.is_int()) else "r"
        elif kind == "a":
            srt = getattr(val, "sort", "r")
        else:
            srt = None
        l = Leaf(root, path, kind, val, srt)
        l.mkph()
        leaves[key] = l
        order.append(l)
        return True

    # induction variables of the increment, assuming the body leaves them alone
    gkey = (I.stack[-1] if I.stack else "", loc, len(I.stack))
    I.quiet += 1
    try:
        try:
            base_facts = head[2]
            trip = [None]
            # guesses from the previous visit
            for (root, path) in _guess.get(gkey, ()):
                if root in head[0]:
                    try:
                        v = leaf_value(I, head[0], root, path)
                    except Exception:
                        continue
                    if v is UNINIT:
                        addleaf(root, path, "u", v)
                    elif isinstance(v, Bool):
                        addleaf(root, path, "b", v)
                    elif isinstance(v, Poly):
                        addleaf(root, path, "s", v)
                    elif isinstance(v, Arr):
                        addleaf(root, path, "a", v)
                    elif isinstance(v, LogV):
                        addleaf(root, path, "l", v)
            # increments
            if not post:
                try:
                    I.setfacts(head[2].copy())
                    cond()
                    mid = dict(I.S)
                    inc()
                    ds = []
                    for r, v in head[0].items():
                        w = I.S.get(r)
                        if w is not v and w is not None:
                            diff(v, w, r, (), ds)
                    for root, path, kind, a, b in ds:
                        if kind == "s":
                            d = b - a
                            if a.is_int() and b.is_int() or True:
                                addleaf(root, path, "s", a, b)
                                l = leaves[(root, path)]
                                l.byinc = True
                except (Dead, Structural, Split, Unsupported):
                    pass
                reset()
            res = solve_loop(I, loc, k, head, reset, leaves, order, addleaf, cond, body, inc, post, trip)
        finally:
            I.quiet -= 1
    except Structural as e:
        reset()
        if hasattr(e, "vec") and promote(I, head, *e.vec):
            return symbolic(I, loc, cond, body, inc, omp, post, peeled)
        if peeled < 2:
            reset()
            ik, I.iterk = I.iterk, P(peeled)
            try:
                more = exec_once(I, cond, body, inc, post)
            finally:
                I.iterk = ik
            if more:
                symbolic(I, loc, cond, body, inc, omp, post, peeled + 1)
            return
        raise Unsupported("loop at %s: %s" % (I.where(loc), e))
    _guess[gkey] = [l.key for l in order]
    it, Tn = res
    if it is None:
        # body never reaches its end: at most one iteration
        reset()
        return once(I, cond, body, post)
    unsolved = [l for l in order if l.sol is None]
    if I.quiet == 0:
        I.loopinfo.append((I.where(loc), T.poly_str(Tn, 3), [(l.kind, l.why) for l in order]))
        # final pass: record the events of an arbitrary iteration
        reset()
        f = I.facts.copy()
        f.bound(k, 0, Tn - 1)
        f.add_ge(Tn - 1)
        I.setfacts(f)
        install(I, order, kp)
        I.binders.append((k, Tn))
        ik, I.iterk = I.iterk, kp + peeled
        try:
            it2 = iterate(I, cond, body, inc, post)
        finally:
            I.iterk = ik
            I.binders.pop()
        if it2.end is not None:
            it = it2
        if omp is not None:
            check_omp(I, omp, loc, k, Tn, order, leaves)
        reset()
    finish(I, loc, k, Tn, head, reset, order, it, cond, inc, post)


def once(I, cond, body, post):
    saved = (I.brks, I.conts)
    I.brks, I.conts = [], []
    pre = I.snap()
    outs = []
    try:
        def run():
            body()
        if post:
            try:
                run()
                outs.append(I.snap())
            except Dead:
                pass
        else:
            c = cond()
            mid = I.snap()
            d = I.decide(c)
            if d is not True:
                I.assume_pc(bnot(c))
                outs.append(I.snap())
            if d is not False:
                I.restore(mid)
                I.assume_pc(c)
                try:
                    run()
                    raise Unsupported("single-iteration loop falls through")
                except Dead:
                    pass
        outs = I.brks + outs
    finally:
        I.brks, I.conts = saved
    if not outs:
        raise Dead()
    join_many(I, pre, outs)


def install(I, order, kp):
    for l in order:
        if l.sol is not None:
            v = l.sol(kp)
            set_leaf(I, l.root, l.path, v)
        elif l.kind != "u":
            set_leaf(I, l.root, l.path, l.head())


def solve_loop(I, loc, k, head, reset, leaves, order, addleaf, cond, body, inc, post, trip):
    kp = ap(k)
    Tn = None
    last = None
    changed_any = True
    for rnd in range(14):
        reset()
        f = head[2].copy()
        if Tn is None:
            f.bound(k, 0, None)
        else:
            f.bound(k, 0, Tn - 1)
            f.add_ge(Tn - 1)
        I.setfacts(f)
        install(I, order, kp)
        if Tn is None and not post:
            # solve the loop variable before running the body
            s0 = I.snap()
            c0 = None
            try:
                c0 = cond()
            except Dead:
                pass
            ph = phset(order)
            if c0 is not None:
                inducts = False
                for l in order:
                    if l.byinc and l.sol is None and l.kind == "s":
                        inducts = True
                if inducts:
                    try:
                        inc()
                        for l in order:
                            if l.byinc and l.sol is None and l.kind == "s":
                                u = leaf_value(I, I.S, l.root, l.path)
                                d = u - ap(l.ph)
                                if not (d.fv & ph) and k not in d.fv:
                                    l.sol = lin_sol(l.init, d)
                                    l.why = "induction"
                        reset()
                        I.setfacts(f)
                        install(I, order, kp)
                        c0 = cond()
                        ph = phset(order)
                    except Dead:
                        pass
                t = trip_count(c0, k, ph, f)
                if t is not None:
                    Tn = t
            I.restore(s0)
            if Tn is not None:
                reset()
                f = head[2].copy()
                f.bound(k, 0, Tn - 1)
                f.add_ge(Tn - 1)
                I.setfacts(f)
                install(I, order, kp)
        it = iterate(I, cond, body, inc, post)
        if it.end is None:
            if it.c is FALSE:
                # facts say the loop does not execute
                it = Iter()
                it.c, it.end, it.brks, it.rets, it.base, it.residual = FALSE, head, [], [], head[1], ()
                for l in order:
                    if l.sol is None:
                        v0 = l.init
                        l.sol = (lambda v: (lambda kk: v))(v0)
                return it, ZERO
            if not order or all(l.byinc for l in order):
                return None, None
            return None, None
        last = it
        new = False
        states = [it.end] + list(it.brks) + [s for s, _ in it.rets]
        for si, st in enumerate(states):
            S = st[0]
            if si == 0:
                relocate(I, head[0], S)
            ds = []
            for r, v in head[0].items():
                w = S.get(r)
                if w is None:
                    if r in I.tempset() or si > 0:
                        continue
                    raise Structural("object destroyed in loop")
                cur = w
                if w is v:
                    continue
                diff(v, w, r, (), ds)
            for root, path, kind, a, b in ds:
                if si > 0 and kind == "l":
                    continue
                key = (root, path)
                l = leaves.get(key)
                if l is None:
                    # a leaf below or above an existing one?
                    if addleaf(root, path, kind, a, b):
                        new = True
                elif l.kind == "s" and l.sort == "i" and isinstance(b, Poly) and not b.is_int() and not any(x.kind == "unk" for m in b.t for x, _ in m):
                    if l.sol is None:
                        l.sort = "r"
                        l.mkph()
                        new = True
        if new:
            continue
        # update values
        S = it.end[0]
        for l in order:
            try:
                l.upd = leaf_value(I, S, l.root, l.path)
            except KeyError:
                raise Structural("leaf vanished")
            if l.kind == "a" and chain(l.upd)[0] is l.ph:
                l.raw = l.upd
        # verify assumed inductions
        bad = False
        for l in order:
            if l.byinc and l.why == "induction":
                with with_facts(f):
                    want = l.sol(kp + 1)
                if l.upd is not want:
                    l.sol = None
                    l.byinc = False
                    l.why = None
                    bad = True
        if bad:
            Tn = None
            continue
        ph = phset(order)
        with with_facts(it.end[2]):
            prog = False
            # trip count
            if Tn is None:
                c = it.c
                t = trip_count(c, k, ph, f)
                if t is not None:
                    Tn = t + 1 if post else t
                    if post:
                        Tn = Tn
                    prog = True
            od = None
            unsolved = [l for l in order if l.sol is None]
            if unsolved:
                od = odometer(unsolved, ph, k)
                if od:
                    prog = True
                    digits, N, assume_no, allc = od
                    if Tn is None and post:
                        c = it.c
                        if all_true(c, assume_no) and T.assume_all(c, allc) is FALSE:
                            Tn = N
                    ph2 = phset(order)
                    cp = {}
                    again = True
                    while again:
                        again = False
                        for l in order:
                            if l.sol is None:
                                follower(l, digits, N, assume_no, allc, ph, k, cp)
                                again = again or l.sol is not None
            # values solved above still occur as placeholders in this round's updates
            ph = phset_all(order)
            for l in order:
                if l.sol is None and solve_leaf(I, l, k, Tn, ph, order, f):
                    prog = True
            if Tn is not None:
                solve_groups(order, k, Tn, ph)
                if close_mutual(I, order, k, Tn, ph):
                    prog = True
        for l in order:
            if l.sol is not None and l.upd is not None and l.why is None:
                l.why = "solved"
        if all(l.sol is not None for l in order) and Tn is not None:
            # one more pass so that the recorded iteration uses closed forms
            if rnd_closed(order, it, ph0=phset_all(order)):
                return it, Tn
            last_needed = True
            # rerun with closed forms to obtain exit conditions in closed form
            reset()
            f = head[2].copy()
            f.bound(k, 0, Tn - 1)
            f.add_ge(Tn - 1)
            I.setfacts(f)
            install(I, order, kp)
            it = iterate(I, cond, body, inc, post)
            if it.end is None:
                raise Structural("unstable loop")
            relocate(I, head[0], it.end[0])
            return it, Tn
        if not prog:
            break
    if DEBUG:
        print("GIVEUP", I.where(loc), I.stack[-1], "T", Tn, "cond", T.bool_str(it.c, 4))
        for l in order:
            print("   ", l, "sol" if l.sol else "-", l.why, "init", l.init, "upd", str(l.upd)[:DEBUG])
        print("    residual", it.residual)
    # give up on the remaining leaves
    if Tn is None:
        Tn = unk("trip count of loop at %s" % I.where(loc), "i")
        head[2].add_ge(Tn) if False else None
    for l in order:
        if l.sol is None:
            give_up(I, l, loc)
    reset()
    f = head[2].copy()
    f.bound(k, 0, Tn - 1)
    I.setfacts(f)
    install(I, order, kp)
    it = iterate(I, cond, body, inc, post)
    if it.end is None:
        raise Structural("unstable loop")
    relocate(I, head[0], it.end[0])
    # further leaves changed while running with unknown values
    for _ in range(3):
        ds = []
        for r, v in head[0].items():
            w = it.end[0].get(r)
            if w is not None and w is not v:
                diff(v, w, r, (), ds)
        new = [d for d in ds if (d[0], d[1]) not in leaves]
        if not new:
            break
        for root, path, kind, a, b in new:
            addleaf(root, path, kind, a, b)
            give_up(I, leaves[(root, path)], loc)
        reset()
        I.setfacts(f)
        install(I, order, kp)
        it = iterate(I, cond, body, inc, post)
        if it.end is None:
            raise Structural("unstable loop")
        relocate(I, head[0], it.end[0])
    return it, Tn


def give_up(I, l, loc):
    l.why = "unknown"
    w = "loop at %s" % I.where(loc)
    if l.kind == "s":
        v = unk(w, l.sort)
        l.sol = lambda kk: v
    elif l.kind == "b":
        v = bunk(w)
        l.sol = lambda kk: v
    elif l.kind == "a":
        v = Base("unk", "%s #%d" % (w, next(A._ids)), l.sort)
        l.sol = lambda kk: v
    elif l.kind == "l":
        v = LogV(l.init.items + (("unknown", w),))
        l.sol = lambda kk: v
    else:
        u = l.upd
        if isinstance(u, Poly):
            v = unk(w, sort_of(u))
        elif isinstance(u, Bool):
            v = bunk(w)
        else:
            v = UNINIT
        l.sol = lambda kk: UNINIT
        l.sol.final = v


def rnd_closed(order, it, ph0):
    xs = [l.upd for l in order if l.kind in "sba"] + [it.c] + list(it.residual)
    for s in it.brks:
        xs += list(s[1])
    for s, _ in it.rets:
        return False
    if it.brks:
        return False
    for x in xs:
        if isinstance(x, (Poly, Bool, Arr)) and x.fv & ph0:
            return False
    return True


def phset(order):
    return frozenset(l.phkey() for l in order if l.sol is None and l.kind in ("s", "b", "a"))


def phset_all(order):
    return frozenset(l.phkey() for l in order if l.kind in ("s", "b", "a"))


def lin_sol(init, d):
    return lambda kk: init + d * kk


def pos_part(t, f):
    if f.nonneg(t):
        return t
    return ite(lt0(t), ZERO, t)


def trip_count(c, k, ph, f):
    """number of leading k = 0,1,... for which c holds, when c is an initial segment"""
    if c.fv & ph:
        return None
    if c is FALSE:
        return ZERO
    if c is TRUE:
        return None
    if k not in c.fv:
        return None
    if c.kind == "lt":
        p = c.args[0]
        lin = linear(p, [k])
        if lin is None or not p.is_int():
            return None
        b, cs = lin
        a = cs.get(k)
        if a is None:
            return None
        if a is ONE:
            return pos_part(-b, f)
        if f.nonneg(a - 1):
            return pos_part(idiv(-b + a - 1, a), f)
        return None
    if c.kind == "not" and c.args[0].kind == "eq":
        p = c.args[0].args[0]
        lin = linear(p, [k])
        if lin is None or not p.is_int():
            return None
        b, cs = lin
        a = cs.get(k)
        if a is ONE:
            return -b
        if a is not None and a.const() == -1:
            return b
        if a is not None:
            from arrays import poly_div_exact
            q = poly_div_exact(-b, a)
            return q
        return None
    if c.kind == "and":
        ts = []
        free = []
        for x in c.args:
            if k not in x.fv:
                free.append(x)
                continue
            t = trip_count(x, k, ph, f)
            if t is None:
                return None
            ts.append(t)
        r = ts[0]
        for t in ts[1:]:
            d = f.decide(lt(t, r))
            if d is True:
                r = t
            elif d is None:
                r = ite(lt(t, r), t, r)
        if free:
            r = ite(band(*free), r, ZERO)
        return r
    return None


# ------------------------------------------------------------------ odometers
def step_pattern(u, phi, ph):
    """u = (phi+1 if no carry else 0): returns (cond, value of cond when no carry, radix)"""
    pp = ap(phi)
    for c in u.conds:
        if phi not in c.fv or c.kind not in ("lt", "eq"):
            continue
        p = c.args[0]
        lin = linear(p, [phi])
        if lin is None:
            continue
        b, cs = lin
        a = cs.get(phi)
        if a is None or a.const() not in (1, -1) or b.fv & ph:
            continue
        cands = []
        if c.kind == "lt":
            if a is ONE:
                cands.append((True, -b + 1))     # phi + b < 0  with b = 1 - n
            else:
                cands.append((False, b + 2))     # -phi + b < 0 i.e. phi > b = n-2
        else:
            n = (-b if a is ONE else b) + 1
            cands.append((False, n))
        for v, n in cands:
            if T.assume(u, c, v) is pp + 1 and T.assume(u, c, not v) is ZERO:
                return c, v, n
    return None


def odometer(unsolved, ph, k):
    digits = []
    A_ = []
    s = ONE
    done = set()
    levels = []     # assumptions for "carry below, none here"
    ints = [l for l in unsolved if l.kind == "s" and l.sort == "i" and l.init is ZERO and isinstance(l.upd, Poly)]
    while True:
        hit = None
        for l in ints:
            if l in done:
                continue
            u = T.assume_all(l.upd, A_)
            if u is ap(l.ph):
                continue
            st = step_pattern(u, l.ph, ph)
            if st is not None:
                # must be unchanged on every earlier level without carry
                ok = True
                for lv in levels:
                    if T.assume_all(l.upd, lv) is not ap(l.ph):
                        ok = False
                        break
                if ok:
                    hit = (l, st)
                    break
        if hit is None:
            break
        l, (c, v, n) = hit
        done.add(l)
        digits.append((l, s, n))
        levels.append(A_ + [(c, v)])
        A_ = A_ + [(c, not v)]
        s = s * n
    if not digits:
        return None
    for l, st, n in digits:
        l.sol = digit_sol(st, n)
        l.why = "odometer digit"
    return digits, s, levels, A_


def digit_sol(st, n):
    return lambda kk: imod(idiv(kk, st), n)


def all_true(c, levels):
    return all(T.assume_all(c, lv) is TRUE for lv in levels)


class LView:
    """leaf with a rewritten update"""
    def __init__(self, l, upd):
        self.__dict__.update(l=l, upd=upd)

    def __getattr__(self, n):
        return getattr(self.l, n)

    def __setattr__(self, n, v):
        setattr(self.l, n, v)


def follower(l, digits, N, levels, allc, ph, k, cp):
    u0 = l.upd
    if not isinstance(u0, (Poly, Bool)):
        return
    if cp and u0.fv & cp.keys():
        u0 = subst(u0, cp)
    l = LView(l, u0)
    if l.kind == "b":
        p = l.ph
        if all(T.assume_all(l.upd, lv) is p for lv in levels) and l.init is FALSE:
            w = T.assume_all(l.upd, allc)
            if w is TRUE:
                l.sol = lambda kk: bnot(lt(kk, N))
                l.why = "end flag"
        elif all(T.assume(T.assume_all(l.upd, lv), p, False) is FALSE for lv in levels) and l.init is FALSE and T.assume(T.assume_all(l.upd, allc), p, False) is TRUE:
            l.sol = lambda kk: bnot(lt(kk, N))
            l.why = "end flag"
        elif all(T.assume_all(l.upd, lv) is TRUE for lv in levels) and T.assume_all(l.upd, allc) is FALSE:
            if l.init is TRUE:
                l.sol = lambda kk: lt(kk, N)
                l.why = "run flag"
        return
    if l.kind != "s":
        return
    pp = ap(l.ph)
    # copy of a digit
    for d, st, n in digits:
        if l.init is d.init and subst(l.upd, {l.ph: ap(d.ph)}) is d.upd:
            l.sol = d.sol
            l.why = "odometer digit"
            cp[l.ph] = ap(d.ph)
            return
    cs = []
    for j, lv in enumerate(levels):
        dlt = T.assume_all(l.upd, lv) - pp
        if dlt.fv & ph or k in dlt.fv:
            return
        c = dlt
        for i in range(j):
            c = c + cs[i] * (digits[i][2] - 1)
        cs.append(c)
    init = l.init
    dg = [(d.sol, c) for (d, _, _), c in zip(digits, cs)]
    # change over a full period of the odometer
    per = T.assume_all(l.upd, allc) - pp
    for (_, _, n), c in zip(digits, cs):
        per = per + c * (n - 1)
    if per.fv & ph or k in per.fv:
        return

    def sol(kk):
        r = init
        for s_, c in dg:
            if c is not ZERO:
                r = r + c * s_(kk)
        if per is not ZERO:
            r = r + per * idiv(kk, N)
        return r
    l.sol = sol
    l.why = "odometer offset"


# ------------------------------------------------------------------ scalars
def push_minus(u, phi):
    """u - phi with the subtraction pushed into conditionals; None if phi remains"""
    pp = ap(phi)
    d = u - pp
    if phi not in d.fv:
        return d
    # u = sum of atoms: find the ite atoms mentioning phi
    if len(u.t) == 1:
        (m, c), = u.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            cd, a, b = m[0][0].args
            if phi in cd.fv:
                return None
            x = push_minus(a, phi)
            if x is None:
                return None
            y = push_minus(b, phi)
            if y is None:
                return None
            return ite(cd, x, y)
    # rest + ite(..phi..)
    hits = [(m, c) for m, c in u.t.items() if any(phi in a.fv for a, _ in m)]
    if len(hits) == 1:
        m, c = hits[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            x = push_minus(ap(m[0][0]), phi)
            if x is not None:
                return x + (u - ap(m[0][0]))
    return None


def sum_sol(init, d, k):
    def sol(kk):
        v = fresh("s")
        if kk.fv and False:
            pass
        with_ = Ctx.cur.copy()
        with_.bound(v, 0, kk - 1)
        with with_facts(with_):
            b = subst(d, {k: ap(v)})
        return init + sum_split(v, kk, b)
    return sol


def sum_split(v, n, body):
    """sum, with the index split into mixed-radix digits when it is divided"""
    if atoms_of(body, lambda a: a.kind == "div" and v in a.fv):
        r = A.split_binder(v, n, [body])
        if r is not None:
            bs, kk, (b2,) = r
            for x, m in reversed(bs):
                b2 = mk_sum(x, m, b2)
            return b2
    return mk_sum(v, n, body)


def temp_sol(l, u, k):
    init = l.init

    def sol(kk):
        x = subst(u, {k: kk - 1})
        c = kk.const()
        if c is not None and c == 0:
            return init
        if l.kind == "a":
            if Ctx.cur.nonneg(kk - 1):
                return x
            return Sel(eq0(kk), init, x)
        if x is init:
            return x
        if Ctx.cur.nonneg(kk - 1):
            return x
        x0 = subst(u, {k: P(-1)}) if l.kind == "s" else None
        if x0 is init:
            return x
        return (bite if l.kind == "b" else ite)(eq0(kk), init, x)
    return sol


def solve_leaf(I, l, k, Tn, ph, order, f):
    u = l.upd
    if l.kind == "u":
        if u is UNINIT:
            l.sol = lambda kk: UNINIT
            l.sol.final = UNINIT
            return True
        if isinstance(u, (Poly, Bool, Arr)):
            if u.fv & ph or Tn is None:
                return False
            fin = subst(u, {k: Tn - 1})
            l.sol = lambda kk: UNINIT
            l.sol.final = fin
            l.why = "overwritten"
            return True
        l.sol = lambda kk: UNINIT
        l.sol.final = UNINIT
        return True
    if l.kind == "l":
        if Tn is None:
            return False
        p0 = l.ph.items[0]
        if not u.items or u.items[0] is not p0:
            return False
        new = u.items[1:]
        init = l.init
        l.sol = lambda kk: LogV(init.items + (("loop", k, kk, new),))
        l.why = "effects"
        return True
    if l.kind == "s":
        if not isinstance(u, Poly):
            return False
        if u is ap(l.ph):
            v = l.init
            l.sol = lambda kk: v
            l.why = "invariant"
            return True
        if not (u.fv & ph):
            l.sol = temp_sol(l, u, k)
            l.why = "overwritten"
            return True
        if l.ph in u.fv:
            d = push_minus(u, l.ph)
            if d is not None and not (d.fv & ph):
                if k not in d.fv:
                    l.sol = lin_sol(l.init, d)
                    l.why = "induction"
                else:
                    l.sol = sum_sol(l.init, d, k)
                    l.why = "sum"
                return True
            return solve_max(l, u, k, ph, order)
        return False
    if l.kind == "b":
        if not isinstance(u, Bool):
            return False
        if u is l.ph:
            v = l.init
            l.sol = lambda kk: v
            l.why = "invariant"
            return True
        if not (u.fv & ph):
            l.sol = temp_sol(l, u, k)
            l.why = "overwritten"
            return True
        u1 = T.assume(u, l.ph, True)
        u0 = T.assume(u, l.ph, False)
        init = l.init
        if u1 is TRUE and not (u0.fv & ph):
            l.sol = lambda kk: bor(init, exists(k, kk, u0))
            l.why = "exists"
            return True
        if u0 is FALSE and not (u1.fv & ph):
            nu = bnot(u1)
            l.sol = lambda kk: band(init, bnot(exists(k, kk, nu)))
            l.why = "forall"
            return True
        return False
    if l.kind == "a":
        return close_array(I, l, u, k, Tn, ph, order)
    return False


def exists(k, n, b):
    v = fresh("e")
    return bexists(v, n, subst(b, {k: ap(v)}))


def ite_parts(u):
    if len(u.t) == 1:
        (m, c), = u.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            return m[0][0].args
    return None


def cmp_parts(c, phi):
    """c as comparison of phi with x: returns (rel, x): phi < x -> ('lt', x); phi > x -> ('gt', x); 'le','ge'"""
    neg = False
    if c.kind == "not":
        neg = True
        c = c.args[0]
    if c.kind != "lt":
        return None
    p = c.args[0]
    lin = linear(p, [phi])
    if lin is None:
        return None
    b, cs = lin
    a = cs.get(phi)
    if a is None:
        return None
    a = a.const()
    if a is None:
        return None
    x = b * Fraction(-1, 1) * (Fraction(1) / a)
    if p.is_int():
        # a*phi + b < 0
        if a == 1:
            return ("ge", x) if neg else ("lt", x)
        if a == -1:
            # -phi + b < 0 : phi > b
            return ("le", x) if neg else ("gt", x)
        return None
    if a > 0:
        return ("ge", x) if neg else ("lt", x)
    return ("le", x) if neg else ("gt", x)


def norm_choice(u, phi):
    """u = ite(g and [phi rel x], x, phi): returns (x, guard, strict, sense)"""
    pp = ap(phi)
    parts = ite_parts(u)
    if parts is None:
        return None
    c, a, b = parts
    if a is pp and phi not in b.fv:
        c, x = bnot(c), b
    elif b is pp and phi not in a.fv:
        x = a
    else:
        # nested guard
        for g, inner in ((c, a), (bnot(c), b)):
            other = b if inner is a else a
            if other is pp and phi not in g.fv:
                r = norm_choice(inner, phi)
                if r:
                    return r[0], band(g, r[1]), r[2], r[3]
        return None
    cs = list(c.args) if c.kind == "and" else [c]
    g = TRUE
    rel = None
    for q in cs:
        if phi in q.fv:
            if rel is not None:
                return None
            rel = cmp_parts(q, phi)
            if rel is None:
                return None
        else:
            g = band(g, q)
    if rel is None:
        return None
    r, y = rel
    if y is x:
        pass
    elif x.is_int() and y.is_int():
        # integer comparisons may be shifted by one
        if r == "gt" and (y - x).const() == -1:
            r = "ge"
        elif r == "lt" and (y - x).const() == 1:
            r = "le"
        else:
            return None
    else:
        return None
    if r in ("lt", "le"):
        return x, g, r == "lt", "max"
    return x, g, r == "gt", "min"


MINF = None


def minus_inf():
    return -ap(T.INF)


def solve_max(l, u, k, ph, order):
    r = norm_choice(u, l.ph)
    if r is None:
        return False
    x, g, strict, sense = r
    if x.fv & ph or g.fv & ph:
        return False
    if sense == "min":
        x = -x
    if g is not TRUE:
        x = ite(g, x, minus_inf())
    init = l.init
    m0 = -init if sense == "min" else init

    def extended():
        v = fresh("m")
        f = Ctx.cur
        return subst(x, {k: P(-1)}) is m0
    ext = g is TRUE and extended()

    def sol(kk):
        c = kk.const()
        if c == 0:
            return init
        v = fresh("m")
        if ext:
            M = mk_max(v, kk + 1, subst(x, {k: ap(v) - 1}))
        else:
            M = mk_max(v, kk, subst(x, {k: ap(v)}))
            if T._inf_sign(m0) != -1:
                M = ite(lt0(m0 - M), M, m0)
            if not Ctx.cur.nonneg(kk - 1):
                M = ite(eq0(kk), m0, M)
        return -M if sense == "min" else M
    l.sol = sol
    l.why = sense
    # companions: leaves assigned under the same condition
    for o in order:
        if o is l or o.sol is not None or o.kind not in ("s", "b"):
            continue
        uo = o.upd
        if not isinstance(uo, (Poly, Bool)) or o.ph not in uo.fv:
            continue
        c = same_choice(u, l.ph)
        if c is None:
            continue
        if o.kind == "s":
            y1 = T.assume_all(uo, [(q, True) for q in (c.args if c.kind == "and" else [c])])
            if y1.fv & ph:
                continue
            if ite(c, y1, ap(o.ph)) is not uo:
                continue
        else:
            y1 = T.assume_all(uo, [(q, True) for q in (c.args if c.kind == "and" else [c])])
            if y1.fv & ph or bite(c, y1, o.ph) is not uo:
                continue
        o.sol = arg_sol(o, y1, x, m0, k, strict, ext)
        o.why = "arg" + sense
    return True


def same_choice(u, phi):
    parts = ite_parts(u)
    if parts is None:
        return None
    c, a, b = parts
    if a is ap(phi):
        return bnot(c)
    if b is ap(phi):
        return c
    g = None
    inner = None
    if b is ap(phi):
        pass
    for gg, inn, oth in ((c, a, b), (bnot(c), b, a)):
        if oth is ap(phi):
            r = same_choice(inn, phi)
            if r is not None:
                return band(gg, r)
    return None


def arg_sol(o, y, x, m0, k, strict, ext):
    init = o.init

    def sol(kk):
        if kk.const() == 0:
            return init
        v = fresh("m")
        kind = "amax" if strict else "lamax"
        if ext:
            j = mk_max(v, kk + 1, subst(x, {k: ap(v) - 1}), kind)
            jj = j - 1
            yv = subst(y, {k: jj})
            y0 = subst(y, {k: P(-1)})
            if y0 is init:
                return yv
            return (bite if o.kind == "b" else ite)(eq0(j), init, yv)
        j = mk_max(v, kk, subst(x, {k: ap(v)}), kind)
        yv = subst(y, {k: j})
        M = mk_max(v, kk, subst(x, {k: ap(v)}))
        better = lt0(m0 - M) if strict else bnot(lt0(M - m0))
        r = (bite if o.kind == "b" else ite)(better, yv, init)
        if not Ctx.cur.nonneg(kk - 1):
            r = (bite if o.kind == "b" else ite)(eq0(kk), init, r)
        return r
    return sol


def solve_groups(order, k, Tn, ph):
    """argmax kept only as an index: best = (E(k) > E(best)) ? k : best"""
    for l in order:
        if l.sol is not None or l.kind != "s" or not isinstance(l.upd, Poly):
            continue
        parts = ite_parts(l.upd)
        if parts is None:
            continue
        c, a, b = parts
        if b is ap(l.ph):
            pass
        elif a is ap(l.ph):
            c, a, b = bnot(c), b, a
        else:
            continue
        if a.fv & ph or c.fv & ph != frozenset([l.phkey()]):
            continue
        neg = c.kind == "not"
        q = c.args[0] if neg else c
        if q.kind != "lt":
            continue
        p = q.args[0]
        # p = E(best) - E(new)
        e1 = ZERO
        for m, cf in p.t.items():
            t = T._mkpoly({m: cf})
            if l.ph in t.fv:
                e1 = e1 + t
        e0 = p - e1
        sgn = 1
        E = e1
        if neg:
            # not (E(new) - E(best) < 0)
            E = -e1
            e0 = -e0
        if subst(E, {l.ph: a}) is not -e0:
            continue
        strict = not neg
        init = l.init
        x = -e0
        # the initial candidate must be the element just before the loop
        if subst(a, {k: P(-1)}) is init:
            off = -1
        else:
            a0 = subst(a, {k: ZERO})
            if a0 is init:
                off = 0
            else:
                continue
        kind = "amax" if strict else "lamax"

        def sol(kk, a=a, x=x, off=off, init=init, kind=kind):
            if kk.const() == 0:
                return init
            v = fresh("m")
            if off == -1:
                j = mk_max(v, kk + 1, subst(x, {k: ap(v) - 1}), kind) - 1
            else:
                j = mk_max(v, kk, subst(x, {k: ap(v)}), kind)
            return subst(a, {k: j})
        l.sol = sol
        l.why = "argmax"


# ------------------------------------------------------------------ arrays
def key_of(layer, k, Tn, cell):
    """(hit, iteration) writing `cell` through this layer, None when unknown"""
    s = solve(layer.idx, ((k, Tn),) + layer.binders, cell)
    if s is None:
        # try without the binders nested inside div
        return None
    mp, hit, free = s
    if any(v is k for v, n in free):
        return ("many", hit, None)
    return ("one", hit, mp[k])


def close_array(I, l, u, k, Tn, ph, order):
    if u is l.ph:
        v = l.init
        l.sol = lambda kk: v
        l.why = "invariant"
        return True
    if not isinstance(u, Arr):
        return False
    hk = l.phkey()
    others = ph - {hk}
    if not (u.fv & ph):
        l.sol = temp_sol(l, u, k)
        l.why = "overwritten"
        return True
    if u.fv & others:
        return False
    base, ls = chain(u)
    if base is not l.ph:
        return False
    if Tn is None:
        return False
    # uses of the previous contents inside values
    if any(hk in x.fv for L in ls for x in (L.val, L.guard, L.idx)):
        if not initial_reads(ls, {l.ph: ls}, k, Tn):
            return False
        sub = {hk: l.init}
        ls = [Layer(L.prev, L.add, L.binders, subst(L.guard, sub), L.idx, subst(L.val, sub)) for L in ls]
    return close_layers(I, l, ls, k, Tn)


def initial_reads(ls, arrays, k, Tn):
    """each read that the layers ls make of the previous contents of one of the arrays (placeholder -> layers
    written per iteration) concerns a cell that no earlier iteration has written"""
    for L in ls:
        if any(ph.key in L.idx.fv for ph in arrays):
            return False
        hs = []
        for x in (L.val, L.guard):
            atoms_of(x, lambda a: a.kind == "el" and a.args[0] in arrays, hs)
        with with_facts(A.binder_facts(L.binders)):
            for a in hs:
                for L2 in arrays[a.args[0]]:
                    if not unwritten(a.args[1], L, L2, k, Tn):
                        return False
    return True


def unwritten(cell, L, L2, k, Tn):
    """the cell read in iteration k by layer L is not written through L2 in an earlier iteration"""
    if cell is L.idx and L2 is L and not L.add:
        q = key_of(L2, k, Tn, cell)
        return q is not None and q[0] != "many"
    b2 = [(fresh("z"), n) for v, n in L2.binders]
    i2 = subst(L2.idx, {v: ap(w) for (v, _), (w, _) in zip(L2.binders, b2)})
    s = solve(i2, ((k, Tn),) + tuple(b2), cell) if k not in cell.fv else None
    if s is not None:
        return Ctx.cur.simp(s[1]) is FALSE
    kk2 = fresh("q")
    i3 = subst(i2, {k: ap(kk2)})
    s = solve(i3, ((kk2, Tn),) + tuple(b2), cell)
    if s is None:
        return False
    mp, hit, free = s
    hit = Ctx.cur.simp(hit)
    if hit is FALSE:
        return True
    if kk2 in [v for v, n in free]:
        return False
    # strictly later iterations are harmless
    return mp[kk2] is ap(k) or Ctx.cur.nonneg(mp[kk2] - ap(k))


def close_mutual(I, order, k, Tn, ph):
    """arrays written in one loop whose new elements are computed from each other's old ones"""
    G = [l for l in order if l.sol is None and l.kind == "a" and isinstance(l.upd, Arr) and l.upd is not l.ph and chain(l.upd)[0] is l.ph]
    while True:
        keys = frozenset(l.phkey() for l in G)
        H = [l for l in G if not (l.upd.fv & (ph - keys))]
        if len(H) == len(G):
            break
        G = H
    if len(G) < 2:
        return False
    layers = {l.ph: chain(l.upd)[1] for l in G}
    if not all(initial_reads(layers[l.ph], layers, k, Tn) for l in G):
        return False
    sub = {l.phkey(): l.init for l in G}
    prog = False
    for l in G:
        ls = [Layer(L.prev, L.add, L.binders, subst(L.guard, sub), L.idx, subst(L.val, sub)) for L in layers[l.ph]]
        prog = close_layers(I, l, ls, k, Tn) or prog
    return prog


def close_layers(I, l, ls, k, Tn):
    sets = [L for L in ls if not L.add]
    kinds = []
    overwritten = False
    for L in sets:
        q = key_of(L, k, Tn, ap(fresh("cell")))
        if q is None:
            q2 = split_key(L, k, Tn)
            if not q2:
                return False
            kinds.append("one")
        elif q[0] == "many":
            if k not in L.idx.fv and L.guard is TRUE:
                kinds.append("last")
            else:
                return False
        else:
            kinds.append("one")
    if len(ls) > 1 and sets:
        if all(x == "last" for x in kinds) and len(sets) == len(ls) and all(k not in L.guard.fv for L in ls):
            # every iteration overwrites the same cells: only the last one is visible
            pass
        elif any(x == "last" for x in kinds):
            # a scratch array reset and filled in each iteration
            rst = ls[0]
            if not rst.add and all(k not in L.idx.fv and k not in L.guard.fv and not any(k in n.fv for v, n in L.binders) for L in ls):
                l.sol = scratch_sol(l, ls, k)
                l.why = "scratch"
                return True
            return False
        else:
            # layers of different iterations must not interfere out of order
            for i, L in enumerate(ls):
                for j, M in enumerate(ls):
                    if j <= i or (L.add and M.add):
                        continue
                    if not same_iteration(L, M, k, Tn):
                        return False
    init = l.init
    ls = tuple(ls)

    def sol(kk):
        cur = init
        if kk is ZERO:
            return init
        for L, kd in zip(ls, layer_kinds(ls, kinds)):
            if kd == "last":
                g = bnot(eq0(kk)) if not Ctx.cur.nonneg(kk - 1) else TRUE
                sub = {k: kk - 1}
                cur = Layer(cur, False, L.binders, band(g, subst(L.guard, sub)), subst(L.idx, sub), subst(L.val, sub))
                continue
            v = fresh("b")
            ff = Ctx.cur.copy()
            ff.bound(v, 0, kk - 1)
            with with_facts(ff):
                g, i, va = subst(L.guard, {k: ap(v)}), subst(L.idx, {k: ap(v)}), subst(L.val, {k: ap(v)})
                bs = [(w, subst(n, {k: ap(v)})) for w, n in L.binders]
            if any(v in n.fv for w, n in bs):
                # ranges depend on the iteration: widen and guard
                nb = []
                for w, n in bs:
                    if v in n.fv:
                        mx = upper(n, v, kk)
                        if mx is None:
                            return Base("unk", "dependent range #%d" % next(A._ids), l.sort)
                        g = band(g, lt(ap(w), n))
                        nb.append((w, mx))
                    else:
                        nb.append((w, n))
                bs = nb
            bl = [(v, kk)] + bs
            if atoms_of(i, lambda a: a.kind == "div" and v in a.fv) or atoms_of(va, lambda a: a.kind == "div" and v in a.fv):
                r = A.split_binder(v, kk, [i, va, T.ind(g) if g is not TRUE else ONE])
                if r is not None:
                    b2, _, (i2, va2, g2) = r
                    gg = g if g is TRUE else bnot(eq0(g2))
                    bl, i, va, g = list(b2) + bs, i2, va2, gg
            cur = Layer(cur, L.add, bl, g, i, va)
        return cur
    l.sol = sol
    l.why = "array"
    return True


def layer_kinds(ls, kinds):
    out = []
    it = iter(kinds)
    for L in ls:
        out.append("one" if L.add else next(it))
    return out


def upper(n, v, kk):
    lin = linear(n, [v])
    if lin is None:
        return None
    b, cs = lin
    c = cs.get(v)
    if c is None:
        return n
    if Ctx.cur.nonneg(c):
        return b + c * (kk - 1)
    if Ctx.cur.nonneg(-c):
        return b
    return None


def scratch_sol(l, ls, k):
    init = l.init

    def sol(kk):
        if kk is ZERO:
            return init
        if not Ctx.cur.nonneg(kk - 1):
            cur = init
            g0 = bnot(eq0(kk))
        else:
            cur = init
            g0 = TRUE
        for L in ls:
            sub = {k: kk - 1}
            cur = Layer(cur, L.add, L.binders, band(g0, subst(L.guard, sub)), subst(L.idx, sub), subst(L.val, sub))
        return cur
    return sol


def split_key(L, k, Tn):
    r = A.split_binder(k, Tn, [L.idx])
    if r is None:
        return False
    bs, kk, (i2,) = r
    s = solve(i2, tuple(bs) + L.binders, ap(fresh("cell")))
    if s is None:
        return False
    mp, hit, free = s
    return not any(v in [w for w, _ in free] for v, _ in bs)


def same_iteration(L, M, k, Tn):
    """cells written by both L (iteration k') and M (iteration k) only when k' == k"""
    ff = A.binder_facts(M.binders)
    with with_facts(ff):
        b2 = [(fresh("z"), n) for v, n in L.binders]
        kk2 = fresh("q")
        i2 = subst(L.idx, dict([(v, ap(w)) for (v, _), (w, _) in zip(L.binders, b2)] + [(k, ap(kk2))]))
        s = solve(i2, ((kk2, Tn),) + tuple(b2), M.idx)
        if s is None:
            return False
        mp, hit, free = s
        if Ctx.cur.simp(hit) is FALSE:
            return True
        if kk2 in [v for v, n in free]:
            return False
        return mp[kk2] is ap(k) or Ctx.cur.decide(eq(mp[kk2], ap(k))) is True


# ------------------------------------------------------------------ exits
def final_value(l, Tn):
    if l.kind == "u":
        return getattr(l.sol, "final", UNINIT)
    return l.sol(Tn)


def finish(I, loc, k, Tn, head, reset, order, it, cond, inc, post):
    """state after the loop"""
    kp = ap(k)
    # exits through break
    bconds = []
    for st in it.brks:
        bconds.append(band(*st[1][len(it.base):]))
    rconds = [band(*st[1][len(it.base):]) for st, _ in it.rets]
    res = band(*it.residual) if it.residual else TRUE
    Teff = Tn
    brk_states = []
    if it.brks:
        b = bor(*bconds)
        m = monotone(b, k, head[2])
        if m is not None and all(leaves_at(I, st, order, kp) for st in it.brks):
            with with_facts(head[2]):
                d = head[2].decide(lt(m, Tn))
                Teff = m if d is True else (Tn if d is False else ite(lt(m, Tn), m, Tn))
                Teff = pos_part(Teff, head[2])
            bl = []
        else:
            bl = list(zip(it.brks, bconds))
    else:
        bl = []
    outs = []
    # returns
    for (st, v), c in zip(it.rets, rconds):
        E = exists(k, Tn, c)
        if E is FALSE:
            continue
        v2 = fresh("m")
        fk = mk_max(v2, Tn, subst(ind(c), {k: ap(v2)}), "amax") if k in c.fv else ZERO
        S = exit_state(I, head, st, order, k, fk)
        facts = head[2].copy()
        facts.add(E)
        rv = subst_val(v, {k: fk})
        I.rets.append(((S, head[1] + ((E,) if E is not TRUE else ()), facts), rv))
    # residual: throws and returns leave the loop
    bad = bnot(band(res, *[TRUE]))
    brk_any = bor(*bconds) if bl else FALSE
    if it.brks:
        # the residual also excludes breaks
        bad = band(bad, bnot(bor(*bconds)))
    outs = []
    notbad = TRUE
    if bad is not FALSE:
        nb = exists(k, Teff, bad)
        notbad = bnot(nb)
        if notbad is FALSE:
            if not bl:
                reset()
                raise Dead()
    reset()
    if notbad is not TRUE:
        I.assume_pc(notbad)
    base = I.snap()
    if bl:
        E = exists(k, Tn, brk_any)
        v2 = fresh("m")
        fk = mk_max(v2, Tn, subst(ind(brk_any), {k: ap(v2)}), "amax") if k in brk_any.fv else ZERO
        for st, c in bl:
            cc = subst(c, {k: fk})
            I.restore(base)
            S = exit_state(I, (I.S,) + head[1:], st, order, k, fk)
            I.S = S
            I.assume_pc(band(E, cc) if len(bl) > 1 else E)
            outs.append(I.snap())
        I.restore(base)
        if bnot(E) is not FALSE:
            I.assume_pc(bnot(E))
        else:
            join_many(I, base, outs)
            return
    with with_facts(I.facts):
        for l in order:
            v = final_value(l, Teff)
            set_leaf(I, l.root, l.path, v)
    if not post:
        # the failing evaluation of the condition may have side effects
        pc, fx = I.pc, I.facts
        I.quiet += 1
        try:
            cond()
        except Dead:
            pass
        finally:
            I.quiet -= 1
        I.pc = pc
        I.setfacts(fx)
    if outs:
        outs.append(I.snap())
        join_many(I, base, outs)


def exit_state(I, head, st, order, k, fk):
    """state st (inside iteration k) seen at the first exit fk"""
    out = {}
    for r, v in head[0].items():
        w = st[0].get(r)
        if w is None:
            continue
        out[r] = v if w is v else subst_val(w, {k: fk})
    return out


def subst_val(v, mp):
    if v is None or isinstance(v, (OpaqueV, LambdaV, FnV, OpV, MapV, LogV)):
        return v
    if isinstance(v, (Poly, Bool, Arr)):
        return subst(v, mp)
    if isinstance(v, StructV):
        return StructV(v.rec, {a: subst_val(b, mp) for a, b in v.f.items()})
    if isinstance(v, VecV):
        return VecV([subst_val(b, mp) for b in v.items])
    if isinstance(v, TupleV):
        return TupleV([subst_val(b, mp) for b in v.items])
    if isinstance(v, ArrV):
        return ArrV(subst(v.c, mp), subst(v.n, mp), v.sort)
    if isinstance(v, OptV):
        return OptV(subst(v.has, mp), subst_val(v.val, mp))
    if isinstance(v, PtrV):
        return PtrV(subst_place(v.place, mp), None if v.off is None else subst(v.off, mp), v.rev)
    if isinstance(v, Place):
        return subst_place(v, mp)
    if isinstance(v, UPtr):
        return v
    if isinstance(v, RngV):
        return RngV(subst(v.seed, mp), subst(v.ctr, mp))
    return v


def subst_place(p, mp):
    return Place(p.root, tuple(("x", subst(s[1], mp)) if isinstance(s, tuple) and s[0] == "x" else s for s in p.path))


def monotone(b, k, f):
    """m such that b(k) <=> k >= m"""
    nb = bnot(b)
    if nb.kind != "lt":
        if nb.kind == "and":
            ms = [monotone(bnot(x), k, f) for x in nb.args]
            if any(m is None for m in ms):
                return None
            r = ms[0]
            for m in ms[1:]:
                r = ite(lt(m, r), m, r)
            return r
        return None
    p = nb.args[0]
    if not p.is_int():
        return None
    lin = linear(p, [k])
    if lin is None:
        return None
    c0, cs = lin
    a = cs.get(k)
    if a is ONE:
        return -c0
    if a is not None and f.nonneg(a - 1):
        return idiv(-c0 + a - 1, a)
    return None


def leaves_at(I, st, order, kp):
    for l in order:
        if l.kind == "u":
            continue
        try:
            v = leaf_value(I, st[0], l.root, l.path)
        except KeyError:
            return False
        if v is not l.sol(kp):
            if l.why == "array":
                base, ls = chain(v)
                b2, l2 = chain(l.sol(kp))
                if len(ls) == len(l2):
                    continue
            return False
    return True


# ------------------------------------------------------------------ OpenMP
def check_omp(I, omp, loc, k, Tn, order, leaves):
    name = omp.get("name", "")
    if "parallel" not in name and "for" not in name.split():
        if "simd" not in name:
            return
    par = "parallel" in name or name.startswith("for") or "taskloop" in name
    priv = set(omp.get("private") or []) | set(omp.get("lastprivate") or []) | set(omp.get("firstprivate") or [])
    red = set(omp.get("reduction") or [])
    race = "race?" if I.guards else "race"       # updates in critical sections are not told apart here
    roots_priv = set(I.env[v].root for v in priv if v in I.env)
    roots_red = set(I.env[v].root for v in red if v in I.env)
    for l in order:
        if l.why == "invariant" or l.byinc:
            continue
        if l.root in roots_priv:
            continue
        if l.root in roots_red:
            if l.why not in ("sum", "induction", "max", "min", "exists", "forall"):
                I.event(race, TRUE, loc, "reduction variable not updated by accumulation only")
            continue
        if l.kind in ("s", "b", "u", "l"):
            if l.kind == "u" and l.upd is UNINIT:
                continue
            if par or l.why in ("sum",):
                I.event(race if par else "race-simd", TRUE, loc, "%s is shared by the iterations of a parallel loop and modified in each" % describe_leaf(I, l), definite=True)
        elif l.kind == "a":
            if not par:
                continue
            u = l.upd
            base, ls = chain(u)
            if base is not l.ph:
                # the last round starts from the closed form of the contents; use the last round that did not
                base, ls = chain(l.raw) if l.raw is not None else (None, [])
                if base is not l.ph:
                    I.event("race?", TRUE, loc, "array replaced in parallel loop")
                    continue
                if l.raw.fv & (phset_all(order) - frozenset([l.phkey()])):
                    m = {x.ph: x.sol(ap(k)) for x in order if x.kind in "sb" and x.sol is not None}
                    ls = [subst(x, m) for x in ls]
            for L in ls:
                q = key_of(L, k, Tn, ap(fresh("cell")))
                if q is None:
                    if split_key(L, k, Tn):
                        continue
                    I.event("race?", TRUE, loc, "disjointness of array writes not shown")
                elif q[0] == "many":
                    I.event(race, gt(Tn, 1), loc, "several iterations of a parallel loop write the same element", definite=True)
            if l.why == "unknown":
                I.event("race?", TRUE, loc, "array dependence between iterations not resolved")
    if not I.quiet:
        I.sites["ompchecked"] = I.sites.get("ompchecked", 0) + 1


def describe_leaf(I, l):
    for v, pl in I.env.items():
        if pl.root == l.root:
            n = I.varname(v)
            return n or "a variable"
    return "an object"
