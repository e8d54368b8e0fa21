"""The compiler's intermediate representation of a translation unit, as text: functions, instructions, def-use and call graph."""
import re
import subprocess

VAL = re.compile(r'%(?:[\w.$-]+|"[^"]*")')
GLB = re.compile(r'@(?:"([^"]*)"|([\w.$-]+))')


class Ins:
    __slots__ = ("res", "text", "op", "dbg", "fn")

    def __init__(self, fn, res, text, dbg):
        self.fn, self.res, self.text, self.dbg = fn, res, text, dbg
        t = text.split()
        self.op = t[0] if t else ""
        if self.op in ("tail", "musttail", "notail") and len(t) > 1:
            self.op = t[1]

    def operands(self):
        return VAL.findall(self.text)

    def callee(self):
        """(name or None, argument texts) of a call"""
        m = re.search(r'(?:@(?:"([^"]*)"|([\w.$-]+))|(%[\w.$-]+))\(', self.text)
        if not m:
            return None, []
        i, depth, args, cur = m.end(), 1, [], ""
        inq = False
        while i < len(self.text) and depth:
            c = self.text[i]
            if c == '"':
                inq = not inq
            if not inq:
                if c in "([{<":
                    depth += 1
                elif c in ")]}>":
                    depth -= 1
                    if not depth:
                        break
                elif c == "," and depth == 1:
                    args.append(cur.strip())
                    cur = ""
                    i += 1
                    continue
            cur += c
            i += 1
        if cur.strip():
            args.append(cur.strip())
        return m.group(1) or m.group(2), args


class Fn:
    def __init__(self, name, head):
        self.name, self.head = name, head
        self.ins = []
        self.defs, self.uses = {}, {}
        m = re.search(r'@(?:"[^"]*"|[\w.$-]+)\(', head)
        self.params = []
        depth, cur, i = 1, "", m.end()
        while i < len(head) and depth:
            c = head[i]
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            if depth == 1 and c == ",":
                self.params.append(cur.strip())
                cur = ""
            elif depth:
                cur += c
            i += 1
        if cur.strip():
            self.params.append(cur.strip())
        self.params = [(p.split()[0], (VAL.findall(p) or [None])[-1]) for p in self.params]
        self.dbg = (re.search(r"!dbg !(\d+)", head) or [None, None])[1]

    def add(self, ins):
        self.ins.append(ins)
        if ins.res:
            self.defs[ins.res] = ins
        for o in set(ins.operands()):
            self.uses.setdefault(o, []).append(ins)


class Module:
    def __init__(self, text):
        self.fns = {}
        self.globals = []
        self.meta = {}
        cur = None
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if cur is None:
                if l.startswith("define "):
                    m = GLB.search(l)
                    cur = Fn(m.group(1) or m.group(2), l)
                elif l.startswith("@"):
                    self.globals.append(l)
                elif l.startswith("!"):
                    m = re.match(r"!(\d+) = (.*)", l)
                    if m:
                        self.meta[m.group(1)] = m.group(2)
                continue
            if l.startswith("}"):
                self.fns[cur.name] = cur
                cur = None
                continue
            s = l.strip()
            if not s or s.startswith(";") or re.match(r'("[^"]*"|[\w.$-]+):', s):
                continue
            while i < len(lines) and (s.startswith(("switch", "%")) and s.endswith("[") or re.search(r"\b(invoke)\b", s) and "to label" not in s or s.endswith(",")):
                s += " " + lines[i].strip()
                i += 1
            if " landingpad " in s or s.startswith("landingpad"):
                while i < len(lines) and re.match(r"\s+(catch|cleanup|filter)", lines[i]):
                    i += 1
            dbg = (re.search(r"!dbg !(\d+)", s) or [None, None])[1]
            s = re.sub(r",? ![\w.]+ !\d+", "", s)
            m = re.match(r'(%(?:[\w.$-]+|"[^"]*")) = (.*)', s)
            cur.add(Ins(cur, m.group(1) if m else None, m.group(2) if m else s, dbg))
        self._dem = {}
        names = list(self.fns)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self._dem = dict(zip(names, out))
        self.callers = {}
        for f in self.fns.values():
            for ins in f.ins:
                for m in GLB.finditer(ins.text):
                    n = m.group(1) or m.group(2)
                    if n in self.fns:
                        self.callers.setdefault(n, set()).add(f.name)

    def nice(self, name):
        return self._dem.get(name) or subprocess.run(["c++filt", name], capture_output=True, text=True).stdout.strip()

    def field(self, mid, key):
        m = re.search(r"\b%s: (?:!(\d+)|\"([^\"]*)\"|([\w]+))" % key, self.meta.get(mid, ""))
        return (m.group(1) or m.group(2) or m.group(3)) if m else None

    def where(self, dbg):
        if dbg is None:
            return ""
        line, scope = self.field(dbg, "line"), self.field(dbg, "scope")
        n = 0
        while scope and not self.field(scope, "file") and n < 20:
            scope = self.field(scope, "scope")
            n += 1
        f = self.field(scope, "file") if scope else None
        if not f:
            return ""
        name, d = self.field(f, "filename"), self.field(f, "directory")
        if name and not name.startswith("/"):
            name = "%s/%s" % (d, name)
        return "%s:%s" % (name, line)


def build(path, flags):
    """optimisation-free intermediate representation in SSA form"""
    r = subprocess.run(["clang++", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-w", "-S", "-emit-llvm", "-o", "-", path] + flags, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    o = subprocess.run(["opt", "-S", "-passes=function(sroa)"], input=r.stdout, capture_output=True, text=True)
    if o.returncode:
        return None, o.stderr
    return Module(o.stdout), ""
