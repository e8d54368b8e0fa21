"""C32: the library as seen by the programs that include it.  Deciding step: type checking (two compilers, -fsyntax-only) of
generated include sets and instantiations, and queries over the declarations in clang's syntax tree."""
import json
import os
import re
import subprocess
import tempfile

from props import spec
from harness import *
import harness as H

LIB = os.path.join(REPO, "smart_dnn")


def headers():
    out = []
    for d, ds, fs in os.walk(LIB):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".hpp", ".h", ".hh")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def public(h):
    """headers a program includes itself: not the implementation halves"""
    return not re.search(r"(\.impl\.|\.inl|[_.-](impl|inl|detail)\.|/(detail|internal|impl|details)/)", h, re.I)


CXX = {
    "clang": ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + REPO],
    "clang openmp": ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-fopenmp", "-I" + REPO],
    "gcc": ["g++", "-std=c++17", "-fsyntax-only", "-w", "-I" + REPO],
    "gcc openmp": ["g++", "-std=c++17", "-fsyntax-only", "-w", "-fopenmp", "-I" + REPO],
}


def source(text):
    fd, p = tempfile.mkstemp(suffix=".cpp", prefix="c32_", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return p


def include(hs):
    return "".join('#include "%s"\n' % h for h in hs)


def compiles(k, what, text, cxx, defines=(), rule="type checking"):
    p = source(text)
    try:
        r = subprocess.run(CXX[cxx] + ["-D" + d for d in defines] + [p], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        k.add(what, UNDECIDED, "%s did not finish" % cxx)
        return
    finally:
        os.remove(p)
    if r.returncode == 0:
        k.add(what, PROVED, "accepted by %s" % cxx, "", rule)
        return
    ls = [l for l in r.stderr.splitlines() if re.search(r"(fatal )?error:|undefined", l)]
    if not ls:
        k.add(what, UNDECIDED, "%s failed: %s" % (cxx, r.stderr[-300:]))
        return
    m = re.match(r"([^:]+:\d+)", ls[0])
    k.add(what, VIOLATED, "%s: %s" % (cxx, ls[0].replace(p, "program")), (m.group(1) if m else "").replace(p, "program"), rule)


def decls(text, defines=()):
    p = source(text)
    o = p + ".json"
    try:
        r = subprocess.run([os.path.join(BUILD, "vfront"), o, "decls:" + LIB, p, "-std=c++17", "-I" + REPO, "-w"] + ["-D" + d for d in defines], capture_output=True, text=True)
        if not os.path.exists(o):
            return None
        with open(o) as f:
            return json.load(f)
    finally:
        for x in (p, o):
            if os.path.exists(x):
                os.remove(x)


def alone(h):
    def check(k):
        for c in (["clang", "gcc"] if k.tier == "quick" else list(CXX)):
            compiles(k, "included alone, %s" % c, include([h]) + "int main() { return 0; }\n", c)
        compiles(k, "included twice, with OpenMP", include([h, h]), "clang openmp")
        compiles(k, "included alone with logging", include([h]), "clang", ("ENABLE_LOGGING",))
    return check


def names(d):
    s = {(f["q"], f["sig"]) for f in d["functions"]} | {(c["q"], c.get("args", "")) for c in d["classes"]}
    return s | {(v["q"], "") for v in d["vars"]}


def hidden(k, what, mine, text, order):
    every = decls(text)
    if mine is None or every is None:
        k.add(what, UNDECIDED, "no syntax tree")
        return
    lost = sorted(names(mine) - names(every))
    if lost:
        k.add(what, VIOLATED, "%d declarations of the header are lost when it is included %s, e.g. %s %s" % (len(lost), order, lost[0][0], lost[0][1]), "", "declarations survive")
    else:
        k.add(what, PROVED, "%d declarations are visible in both" % len(names(mine)), "", "declarations survive")


def together(h):
    def check(k):
        hs = [x for x in headers() if public(x)]
        rest = [x for x in hs if x != h]
        compiles(k, "first, then the others", include([h] + rest), "clang")
        compiles(k, "last, after the others", include(rest + [h]), "gcc")
        mine = decls(include([h]))
        hidden(k, "its declarations when last", mine, include(rest + [h]), "after the others")
        if k.tier == "thorough":
            for x in rest:
                compiles(k, "before %s" % x, include([h, x]), "clang")
                hidden(k, "its declarations after %s" % x, mine, include([x, h]), "after " + x)
    return check


def orders(k):
    hs = [x for x in headers() if public(x)]
    for c in CXX:
        compiles(k, "all, %s" % c, include(hs), c)
        compiles(k, "all, reversed, %s" % c, include(hs[::-1]), c)
        compiles(k, "all, with logging, %s" % c, include(hs), c, ("ENABLE_LOGGING",))
    a, b = decls(include(hs)), decls(include(hs[::-1]))
    if a is None or b is None:
        k.add("same declarations", UNDECIDED, "no syntax tree")
        return
    diff = names(a) ^ names(b)
    if diff:
        x = sorted(diff)[0]
        k.add("same declarations", VIOLATED, "%s %s is declared in one order of inclusion only" % x, "", "declarations do not depend on order")
    else:
        k.add("same declarations", PROVED, "%d declarations in both orders" % len(names(a)), "", "declarations do not depend on order")


def instantiations():
    """(name with arguments) of every class template a program can instantiate with an element type"""
    d = decls(include(headers()))
    out = []
    for c in d["classes"] if d else ():
        if c.get("outer") or "params" not in c or c["full"] or re.search(r"(^|::)(detail|internal|impl|details)::", c["q"]):
            continue
        ps = c["params"]
        if any(p["k"] != "type" or p.get("pack") for p in ps) or not ps or "evice" in ps[0]["name"] or any("evice" not in p["name"] for p in ps[1:]):
            continue
        sub = {ps[0]["name"]: "REAL"}
        sub.update({p["name"]: "CPUDevice" for p in ps[1:]})
        args = c.get("args") or ", ".join(p["name"] for p in ps)
        args = re.sub(r"\b(%s)\b" % "|".join(map(re.escape, sub)), lambda m: sub[m.group(1)], args)
        ns = c["q"].rsplit("::", 1)[0] if "::" in c["q"] else ""
        out.append((c["q"], args, ns))
    return sorted(set(out))


def instantiate(q, args, ns, real):
    def check(k):
        body = "template class %s<%s>;\n" % (q.rsplit("::", 1)[-1], args)
        text = include([x for x in headers() if public(x)]) + "#define REAL %s\n" % real
        text += "namespace %s {\n%s}\n" % (ns, body) if ns else body
        for c in ("clang", "gcc"):
            compiles(k, "every member, %s" % c, text, c, rule="explicit instantiation")
        if k.tier == "thorough":
            compiles(k, "every member, with logging and OpenMP", text, "clang openmp", ("ENABLE_LOGGING",), rule="explicit instantiation")
    return check


def programs(real):
    def check(k):
        hs = [x for x in headers() if public(x)]
        with open(os.path.join(WIT, "c32.cpp")) as f:
            body = f.read()
        for i, c in enumerate(CXX):
            compiles(k, "user program, %s" % c, include(hs if i % 2 else hs[::-1]) + body, c, ("REAL=" + real,), "type checking of a program using every public function")
        compiles(k, "user program with logging", include(hs) + body, "clang", ("REAL=" + real, "ENABLE_LOGGING"), "type checking of a program using every public function")
    return check


def defined(k):
    d = decls(include(headers()))
    if d is None:
        k.add("defined", UNDECIDED, "no syntax tree")
        return
    special = {c["q"] for c in d["classes"] if c["partial"] or c["full"]}
    # a template that is only implemented by its specialisations defines none of its own members
    own = {}
    for f in d["functions"]:
        if f.get("class") in special and not f["deleted"]:
            own.setdefault(f["cloc"], []).append(f)
    dead = {c for c, fs in own.items() if not any(f["defined"] for f in fs)}
    n = 0
    for f in d["functions"]:
        if f["deleted"] or f["pure"] or f.get("acc") == 2:      # AS_private
            continue
        if f.get("cloc") in dead and not f["defined"]:
            continue
        n += 1
        if not f["defined"]:
            k.add("%s defined" % f["q"], VIOLATED, "%s %s is declared and has no definition: a program that calls it does not link" % (f["q"], f["sig"]), f["loc"], "declared functions are defined")
    k.add("defined", PROVED, "%d declared functions looked up" % n, "", "declared functions are defined")


def strong(k):
    d = decls(include(headers()))
    if d is None:
        k.add("one definition", UNDECIDED, "no syntax tree")
        return
    n = 0
    for f in d["functions"]:
        n += 1
        if f["defined"] and f["external"] and not f["inline"] and not f["dependent"] and not f["templ"]:
            k.add("%s inline" % f["q"], VIOLATED, "%s %s is defined in a header without inline: two translation units that include it do not link" % (f["q"], f["sig"]), f["defloc"] if f.get("defloc") else f["loc"], "definitions in headers are inline")
    for v in d["vars"]:
        n += 1
        if v["definition"] and v["external"] and not v["inline"] and not v["dependent"]:
            k.add("%s inline" % v["q"], VIOLATED, "%s is defined in a header without inline" % v["q"], v["loc"], "definitions in headers are inline")
        if v.get("member") and not v["defined"] and not v["inline"] and not v["constexpr"]:
            k.add("%s defined" % v["q"], VIOLATED, "static member %s has no definition" % v["q"], v["loc"], "declared variables are defined")
    k.add("one definition", PROVED, "%d declarations" % n, "", "definitions in headers are inline")


def emitted(real):
    def check(k):
        hs = [x for x in headers() if public(x)]
        with open(os.path.join(WIT, "c32.cpp")) as f:
            body = f.read()
        p = source("#define REAL %s\n" % real + include(hs) + body)
        try:
            r = subprocess.run(["clang++", "-std=c++17", "-O0", "-w", "-S", "-emit-llvm", "-Xclang", "-disable-llvm-passes", "-I" + REPO, "-o", p + ".ll", p], capture_output=True, text=True)
            if r.returncode:
                k.add("emitted definitions", UNDECIDED, r.stderr[-200:])
                return
            with open(p + ".ll") as f:
                ll = f.read()
        finally:
            for x in (p, p + ".ll"):
                if os.path.exists(x):
                    os.remove(x)
        bad, n, lost, have = [], 0, [], set(re.findall(r"^(?:define|declare)[^@]*@\"?([\w.$]+)", ll, re.M))
        for m in re.finditer(r"^define ([^@]*)@\"?([\w.$]+)", ll, re.M):
            n += 1
            if not re.search(r"\b(linkonce_odr|internal|weak_odr|available_externally|private|linkonce|weak)\b", m.group(1)):
                bad.append(m.group(2))
        for m in re.finditer(r"^@\"?([\w.$]+)\"? = (?!.*\b(linkonce_odr|internal|weak_odr|available_externally|private|external|linkonce|weak)\b).*\b(global|constant)\b", ll, re.M):
            bad.append(m.group(1))
        dem = lambda xs: subprocess.run(["c++filt"] + xs, capture_output=True, text=True).stdout.split("\n") if xs else []
        mine = [x for x in dem(bad) if x and not x.startswith("use_") and x != "main"]
        for x in mine:
            k.add("%s emitted" % x, VIOLATED, "%s is emitted as a strong definition by every translation unit that includes the headers" % x, "", "emitted definitions are mergeable")
        und = dem([m.group(1) for m in re.finditer(r"^declare [^@]*@\"?([\w.$]+)", ll, re.M)])
        for x in und:
            if "smart_dnn" in x.split("(")[0] and not x.startswith("std::"):
                k.add("%s resolved" % x, VIOLATED, "%s is used and defined nowhere" % x, "", "used functions are defined")
        k.add("emitted definitions", PROVED, "%d functions in the compiler's intermediate representation" % n, "", "emitted definitions are mergeable")
    return check


@spec("C32", "type checking by clang and gcc of generated include sets (each header alone, twice, first and last), explicit instantiations of every class template with float and double, and a program using every public function; queries over the declarations of all headers (declared functions are defined, definitions in headers are inline, no declaration depends on inclusion order) and over the linkage of the emitted functions", limit=(300, 900),
      technique="type-level witnesses (programs that must type-check) and queries over the syntax tree of all headers",
      assumptions=["the compilers are clang 18 and gcc 13 in C++17 mode, the mode of the project's build file; element types float and double, device type CPUDevice"])
def c32_cases(tier):
    H.build_frontend()
    cs = [Case("program/%s" % r, None, {}, programs(r)) for r in ("float", "double")]
    cs += [Case("orders", None, {}, orders), Case("declared", None, {}, defined), Case("one definition", None, {}, strong)]
    cs += [Case("emitted/%s" % r, None, {}, emitted(r)) for r in ("float", "double")]
    for h in headers():
        if public(h):
            cs.append(Case("header/%s" % h[len("smart_dnn/"):], None, {}, alone(h)))
            cs.append(Case("with the others/%s" % h[len("smart_dnn/"):], None, {}, together(h)))
    for q, args, ns in instantiations():
        for r in ("float", "double"):
            cs.append(Case("instantiate/%s<%s>/%s" % (q, args, r), None, {}, instantiate(q, args, ns, r)))
    return cs
