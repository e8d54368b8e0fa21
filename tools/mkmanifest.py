"""writes MANIFEST.json from the registered specifications and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
import props
props.load(None) if False else None
for f in sorted(os.listdir(os.path.join(HERE, "engine", "specs"))):
    if f.endswith(".py") and f != "__init__.py":
        __import__("specs." + f[:-3])
NA = {
    "C35": "the size of floating-point rounding errors depends on run-time operand values and the compiler's evaluation order; the value-flow analysis is exact over the reals by construction, and no sound static error bound over tensors of arbitrary size and content is in reach (an interval-based bound would be vacuous)",
    "C36": "whether gradient descent lowers the loss depends on data, initial weights and learning rate at run time; no static argument bounds it (the static part - correct gradients, update rules and call order - is decided by C10, C12-C16, C19-C24)",
    "C37": "the repository declares saveModel/loadModel but contains no definition of either, so there is no code whose behaviour could be analysed; the missing definitions are reported by C32",
}
LEVEL_NOTE = "Static value-flow analysis of the current source: every case is derived by abstract interpretation with symbolic sizes and contents. Obligations whose normal forms coincide hold for all sizes and contents of the case; the others are decided by random interpretation of the derived terms. Exact real arithmetic and the library models in engine/stdlib.py are assumed."
TECH = "static value-flow analysis (abstract interpretation of the clang AST with recurrence solving) compared with a specification"
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    s = props.REG.get(p)
    if s is None:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 engine/check.py %s --tier quick" % p,
        "thorough_cmd": "python3 engine/check.py %s --tier thorough" % p,
        "technique": s.technique or TECH,
        "level": "other",
        "level_note": s.note or LEVEL_NOTE,
    })
m = {"version": 1, "setup_cmd": "bash frontend/build.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
