"""C27: no rounding through float in the library instantiated for double, decided on the compiler's intermediate representation."""
import os
import re
import struct
from decimal import Decimal

from props import spec
from harness import *
import harness as H
import irmod
from specs import program as P

RANDOM = re.compile(r"^(?:[\w:<>,&* ]* )?(RandomEngine::|std::[\w:]*(_distribution|generate_canonical|random_device|_engine)\b)")


def tops(nice):
    """the qualified name without template arguments and parameters"""
    s, d = "", 0
    for c in nice:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "(" and not d:
            break
        elif not d:
            s += c
    return s.split(" ")[-1] if "operator" not in s else s


def hexdouble(t):
    return struct.unpack(">d", struct.pack(">Q", int(t, 16)))[0]


def floaty(x):
    """x is the float nearest to a short decimal fraction that double would represent more closely"""
    if x == 0 or x != x or x in (float("inf"), float("-inf")):
        return None
    try:
        f = struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError:
        return None
    if f != x:
        return None
    for n in range(1, 9):
        s = "%.*g" % (n, x)
        try:
            if struct.unpack(">f", struct.pack(">f", float(s)))[0] == x:
                return s if float(s) != x else None
        except OverflowError:
            return None
    return None


CONST = re.compile(r"\b(float|double)(?: [a-z]\w*)* (0x[0-9A-Fa-f]{16})\b|, (0x[0-9A-Fa-f]{16})\b")


class Precision:
    def __init__(self, mod):
        self.m = mod
        self.rand = set()
        for n in mod.fns:
            if RANDOM.match(tops(mod.nice(n))):
                self.rand.add(n)
        while True:
            more = {n for n in mod.fns if n not in self.rand and mod.callers.get(n) and mod.callers[n] - {n} and mod.callers[n] - {n} <= self.rand}
            if not more:
                break
            self.rand |= more
        self.memo = {}

    def is_random(self, name):
        if name is None:
            return False
        return name in self.rand or bool(RANDOM.match(tops(self.m.nice(name))))

    def lib(self, fn):
        return "smart_dnn::" in tops(self.m.nice(fn.name)) or "smart_dnn::" in self.m.nice(fn.name).split("(")[0]

    # ---- where a rounded value goes
    def escapes(self, fn, val, seen=None):
        """an instruction outside the drawing of random numbers that uses val, or None"""
        seen = set() if seen is None else seen
        if (fn.name, val) in seen:
            return None
        seen.add((fn.name, val))
        for u in fn.uses.get(val, ()):
            if u.op in ("call", "invoke"):
                name, args = u.callee()
                if name and name.startswith("llvm.dbg"):
                    continue
                if self.is_random(name):
                    continue
                g = self.m.fns.get(name)
                if g is None:
                    return u
                if g.name in self.rand:
                    continue
                for i, a in enumerate(args):
                    if val in VALS(a) and i < len(g.params) and g.params[i][1]:
                        r = self.escapes(g, g.params[i][1], seen)
                        if r:
                            return r
            elif u.op in ("phi", "select", "fneg", "fadd", "fsub", "fmul", "fdiv", "frem", "freeze"):
                r = self.escapes(fn, u.res, seen)
                if r:
                    return r
            else:
                return u
        return None

    # ---- what a rounded value is made of
    def depends(self, fn, val, seen=None):
        """true when val depends on stored or passed floating values (not only on counts, constants and draws)"""
        seen = set() if seen is None else seen
        if val in seen or not val.startswith("%"):
            return False
        seen.add(val)
        d = fn.defs.get(val)
        if d is None:
            return True         # parameter
        if d.op in ("sitofp", "uitofp", "fpext", "load") and d.op != "load":
            return False
        if d.op in ("phi", "select", "fneg", "fadd", "fsub", "fmul", "fdiv", "frem", "freeze"):
            return any(self.depends(fn, o, seen) for o in d.operands())
        if d.op in ("call", "invoke"):
            name, args = d.callee()
            if self.is_random(name):
                return False
            if name and (name not in self.m.fns or MATH.search(tops(self.m.nice(name)))):
                return any(self.depends(fn, o, seen) for a in args for o in VALS(a) if not a.startswith("ptr"))
        return True

    def drawn(self, fn, val, seen=None):
        """('draw'|'exact'|'inexact'|'other') origin of a float value that is widened"""
        seen = set() if seen is None else seen
        if val in seen:
            return "exact"
        seen.add(val)
        if not val.startswith("%"):
            return "inexact" if val.startswith("0x") and floaty(hexdouble(val[2:])) else "exact"
        d = fn.defs.get(val)
        if d is None:
            return "other"
        if d.op in ("sitofp", "uitofp"):
            return "exact"
        if d.op in ("call", "invoke"):
            name, _ = d.callee()
            return "draw" if self.is_random(name) else "other"
        if d.op == "fptrunc":
            return "other"      # reported where it is rounded
        if d.op == "load":      # float storage; a buffer of draws is filled where it is used
            return "draw" if any(i.op in ("call", "invoke") and self.is_random(i.callee()[0]) for i in fn.ins) else "stored"
        if d.op in ("phi", "select", "fneg", "freeze", "fadd", "fsub", "fmul", "fdiv", "frem"):
            ops = re.findall(r'%(?:[\w.$-]+|"[^"]*")|0x[0-9A-Fa-f]{16}', re.sub(r"%[\w.$-]+ \]", "]", d.text)) if d.op == "phi" else re.findall(r'%(?:[\w.$-]+|"[^"]*")|0x[0-9A-Fa-f]{16}', d.text)
            ks = [self.drawn(fn, o, seen) for o in ops]
            if "draw" in ks:
                return "draw"
            for x in ("inexact", "stored"):
                if x in ks:
                    return x
            if "other" in ks:
                return "other"
            return "inexact" if d.op == "fdiv" else "exact"
        return "other"


def VALS(s):
    return irmod.VAL.findall(s)


MATH = re.compile(r"^std::(sqrt|pow|exp|log|abs|fabs|max|min|floor|ceil|round|tanh)$")


def program(real):
    def text():
        t = "#define REAL %s\n" % real + P.include([h for h in P.headers() if P.public(h)])
        for q, a, ns in P.instantiations():
            b = "template class %s<%s>;\n" % (q.rsplit("::", 1)[-1], a)
            t += "namespace %s {\n%s}\n" % (ns, b) if ns else b
        with open(os.path.join(WIT, "c32.cpp")) as f:
            return t + f.read()
    return text


def analyse(flags):
    def check(k):
        p = P.source(program("double")())
        try:
            mod, err = irmod.build(p, ["-I" + REPO] + flags)
        finally:
            os.remove(p)
        if mod is None:
            ls = [l for l in err.splitlines() if "error:" in l]
            k.add("instantiates", VIOLATED if ls else UNDECIDED, "the library does not instantiate for double: %s" % (ls or [err[-200:]])[0], "", "well-formed instantiation")
            return
        A = Precision(mod)
        k.fns = sorted({re.sub(r"\bdouble, CPUDevice\b|\bdouble\b", "double", tops(mod.nice(f.name))) for f in mod.fns.values() if A.lib(f)})
        nf = ni = nt = nx = nc = 0
        own = [f for f in mod.fns.values() if f.name not in A.rand]
        for f in own:
            nf += 1
            title = mod.nice(f.name)
            title = title if len(title) < 160 else tops(title)
            lib = A.lib(f) or tops(title).startswith("use_")     # default arguments are computed by the caller
            for ins in f.ins:
                ni += 1
                if ins.op == "fptrunc" and " to float" in ins.text or ins.op == "fptrunc" and re.search(r" to <\d+ x float>", ins.text):
                    nt += 1
                    o = ins.operands()
                    if o and not A.depends(f, o[0]):
                        continue
                    e = A.escapes(f, ins.res)
                    if e is None:
                        continue
                    at = mod.where(ins.dbg)
                    k.add("%s rounds" % tops(title), VIOLATED, "%s: a value of type double is rounded to float and used by '%s' (%s)" % (title, e.text[:120], mod.where(e.dbg).replace(REPO + "/", "")), at, "no double is rounded to float")
                elif ins.op == "fpext" and "float" in ins.text.split(" to ")[0] and " to double" in ins.text:
                    nx += 1
                    v = (re.findall(r'%(?:[\w.$-]+|"[^"]*")|0x[0-9A-Fa-f]{16}', ins.text) or ["0"])[0]
                    d = A.drawn(f, v) if lib else ""
                    if d == "stored":
                        k.add("%s reads" % tops(title), VIOLATED, "%s: a value kept in a float variable takes part in a double computation ('%s')" % (title, ins.text[:120]), mod.where(ins.dbg), "double results come from double storage")
                    elif d == "inexact":
                        k.add("%s widens" % tops(title), VIOLATED, "%s: a result of float arithmetic is widened to double ('%s')" % (title, ins.text[:120]), mod.where(ins.dbg), "double results come from double arithmetic")
                if lib and "0x" in ins.text:
                    for c in CONST.finditer(ins.text):
                        ty = c.group(1) or ("double" if re.search(r"\bdouble\b", ins.text) else None)
                        h = c.group(2) or c.group(3)
                        nc += 1
                        if ty != "double":
                            continue
                        s = floaty(hexdouble(h[2:]))
                        if s:
                            k.add("%s constant" % tops(title), VIOLATED, "%s: the constant %s is rounded to float before it is used as a double ('%s')" % (title, s, ins.text[:100]), mod.where(ins.dbg), "double constants are not rounded to float")
        if not any(o.status == VIOLATED for o in k.obs):
            k.add("roundings", PROVED, "%d functions, %d instructions: %d conversions to float, all towards a random draw" % (nf, ni, nt), "", "no double is rounded to float")
            k.add("widenings", PROVED, "%d widened float values: draws or exact" % nx, "", "double results come from double arithmetic")
            k.add("constants", PROVED, "%d constants" % nc, "", "double constants are not rounded to float")
    return check


@spec("C27", "def-use and call-graph queries over the compiler's intermediate representation of every class template instantiated for double and of a program using every public function: no double that depends on stored or passed values is rounded to float except on its way into a random draw; no result of float arithmetic and no constant rounded to float enters a double computation", limit=(400, 900),
      technique="dataflow (def-use, call graph) over LLVM intermediate representation of explicit instantiations",
      assumptions=["the instantiations are those of explicit instantiation definitions of every class template and of witness/c32.cpp; a conversion to an integer type is not a rounding through float"])
def c27_cases(tier):
    H.build_frontend()
    cs = [Case("double/openmp", None, {}, analyse(["-fopenmp"]))]
    cs.append(Case("double", None, {}, analyse([])))
    cs.append(Case("double/logging", None, {}, analyse(["-DENABLE_LOGGING"])))
    if tier == "thorough":
        cs.append(Case("double/O1 inlining", None, {}, analyse(["-fopenmp", "-DENABLE_LOGGING"])))
    return cs
