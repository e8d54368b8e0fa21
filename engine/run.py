"""Runs one witness scenario through the abstract interpreter."""
import time
from interp import *
import interp as IN
from arrays import *


class Result:
    pass


def strarg(a):
    while a and a[0] in ("cast", "mat"):
        a = a[4] if a[0] == "cast" else a[3]
    return a[3] if a and a[0] == "str" else None


def base_place(v):
    return v


def h_dim(I, ref, args, e):
    n = strarg(args[0])
    d = I.cfg.get(n)
    if d is None:
        raise Unsupported("no size for %s" % n)
    return P(d)


def h_int(I, ref, args, e):
    n = strarg(args[0])
    if n in I.cfg:
        return P(I.cfg[n])
    return ap(symatom(n, "i"))


def h_bool(I, ref, args, e):
    n = strarg(args[0])
    if n in I.cfg:
        return T.B(bool(I.cfg[n]))
    return bsym(n)


def h_real(I, ref, args, e):
    n = strarg(args[0])
    if n in I.cfg:
        return P(I.cfg[n])
    return ap(symatom(n, "r"))


def h_assume(I, ref, args, e):
    c = I.tobool(I.ev(args[0]))
    if c is FALSE:
        raise Dead()
    f = I.facts.copy()
    f.add(c)
    I.setfacts(f)
    return None


def arr_of(I, p, loc):
    """place of the array a pointer argument points into"""
    if isinstance(p, UPtr):
        p = p.p
    pl, off = I.canon_ptr(p)
    return pl, off


def h_fill(I, ref, args, e):
    n = outname(I, args[1])
    p = I.ev(args[0])
    pl, off = arr_of(I, p, e[2])
    v = I.get(pl, e[2])
    if isinstance(v, ArrV):
        b = Base("sym", n, v.sort)
        I.put(pl, ArrV(b, v.n, v.sort), e[2])
    elif isinstance(v, VecV):
        b = Base("sym", n, v.sort or "r")
        I.put(pl, VecV([ap(mk_atom("el", (b, P(i)), b.sort)) for i in range(len(v.items))], v.sort), e[2])
    else:
        raise Unsupported("vf_fill of %s" % type(v).__name__)
    I.inputs[n] = v.n if isinstance(v, ArrV) else P(len(v.items))
    return None


def record(I, name, kind, val, extra=None):
    if I.quiet:
        raise Unsupported("output inside a loop")
    I.outs.setdefault(name, []).append((kind, val, extra, band(*I.pc), I.facts))


def h_out_int(I, ref, args, e):
    record(I, outname(I, args[0]), "int", I.ev(args[1]))


def h_out_bool(I, ref, args, e):
    record(I, outname(I, args[0]), "bool", I.tobool(I.ev(args[1])))


def h_out_real(I, ref, args, e):
    record(I, outname(I, args[0]), "real", I.ev(args[1]))


def snapshot(I, v):
    return v


def h_out_vec(I, ref, args, e):
    pl = I.lv(args[1])
    record(I, outname(I, args[0]), "vec", I.get(pl, e[2]))


def outname(I, a):
    n = strarg(a)
    if n is None:
        v = I.ev(a)
        n = getattr(v, "data", None)
        if n is None:
            pl = v if isinstance(v, Place) else getattr(v, "place", None)
            n = I.get(pl).data
    return n


def h_out_arr(I, ref, args, e):
    p = I.ev(args[1])
    n = I.ev(args[2])
    pl, off = arr_of(I, p, e[2])
    record(I, outname(I, args[0]), "arr", I.get(pl, e[2]), (off if off is not None else ZERO, n))


def h_log(I, ref, args, e):
    n = outname(I, args[0])
    who = I.ev(args[1])
    r = I.S[I.log_root]
    I.S[I.log_root] = LogV(r.items + ((n, who),))


def h_mark(I, ref, args, e):
    I.outs.setdefault("mark", []).append((outname(I, args[0]), band(*I.pc)))


HOOKS = dict(vf_dim=h_dim, vf_int=h_int, vf_bool=h_bool, vf_real=h_real, vf_dreal=h_real, vf_assume=h_assume,
             vf_fill=h_fill, vf_out_int=h_out_int, vf_out_bool=h_out_bool, vf_out_real=h_out_real,
             vf_out_vec=h_out_vec, vf_out_arr=h_out_arr, vf_log=h_log, vf_mark=h_mark)


def run(prog, name, cfg=None, facts=(), hooks=None, omplog=False, raw=False):
    """cfg: name -> int/Poly for vf_dim / vf_int; facts: Bools"""
    t0 = time.time()
    pre = []
    dyn = {}
    while True:
        try:
            R = run1(prog, name, cfg, facts, hooks, pre, dyn, omplog, raw)
            break
        except DynStatic as x:
            if x.args[0] in dyn and dyn[x.args[0]] is not None:
                raise
            dyn[x.args[0]] = x.args[1]
            pre = [q for q in pre if q[0] != x.args[0]]
        except NeedGlobal as x:
            if any(x.args[0] == v for v, _ in pre):
                raise
            pre.append(x.args)
    R.wall = time.time() - t0
    return R


def run1(prog, name, cfg, facts, hooks, pre, dyn, omplog=False, raw=False):
    I = Interp(prog)
    I.dyn, I.dynseen = dyn, set()
    I.omplog = omplog
    I.raw = raw
    I.hooks = dict(HOOKS)
    I.hooks.update(hooks or {})
    I.cfg = dict(cfg or {})
    I.outs = {}
    I.inputs = {}
    f = Facts()
    for b in facts:
        f.add(b)
    I.setfacts(f)
    fs = [x for x in prog.functions.values() if x["name"] == name and x["body"] is not None]
    if len(fs) != 1:
        raise KeyError("scenario %s: %d definitions" % (name, len(fs)))
    R = Result()
    R.I = I
    R.err = None
    R.returned = True
    try:
        I.hoisting = True
        for vid, e in pre:
            I.global_place(vid, e)
        for vid, v in dyn.items():
            if v is not None:
                I.gl[vid] = I.alloc(v)
        I.hoisting = False
        I.call(fs[0], None, [], "0:0")
    except Dead:
        R.returned = False
    except Unsupported as x:
        R.err = "unsupported: %s" % x
        R.returned = False
    except Structural as x:
        R.err = "structural: %s" % x
        R.returned = False
    R.outs = I.outs
    R.events = I.events
    return R


if __name__ == "__main__":
    prog = Program(sys.argv[1])
    cfg = {}
    facts = []
    for a in sys.argv[3:]:
        k, v = a.split("=")
        if v.lstrip("-").isdigit():
            cfg[k] = int(v)
        else:
            cfg[k] = ap(symatom(v, "i"))
            facts.append(ge(cfg[k], 2))
    R = run(prog, sys.argv[2], cfg, facts)
    print("err", R.err, "returned", R.returned, "%.2fs" % R.wall)
    for k, v in R.outs.items():
        print(k, v)
    for x in R.events:
        print("EVENT", x.kind, x.loc, x.detail, T.bool_str(x.cond, 3) if hasattr(T, "bool_str") else x.cond, x.chain[-1:])
    print(R.I.sites)
