"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current source."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness import *
import harness as H
import props


def known():
    """known_findings.txt: 'finding: property=<id> key=<obligation> <text>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                parts = l.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                out.append((d["property"], d["key"], parts[3].strip() if len(parts) > 3 else ""))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in sys.argv
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
        if a == "--only":
            only = sys.argv[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    spec = props.load(prop)
    cases = [c for c in spec.cases(tier) if only is None or c.name.startswith(only)]
    units = []
    for c in cases:
        if c.unit not in units:
            units.append(c.unit)
    progs = {}
    obs = []          # (case, label, key, status, detail, loc, rule)
    from concurrent.futures import ThreadPoolExecutor
    H.build_frontend()

    def fe(u):
        src, defs = (u, ()) if isinstance(u, str) else (u[0], u[1:])
        return u, H.frontend(os.path.join(WIT, src), out=os.path.join(BUILD, "%s_%s_%s_%d.json" % (prop, src.replace("/", "_"), "_".join(d.replace("=", "") for d in defs), os.getpid())), defines=defs)
    dumps = []
    with ThreadPoolExecutor(8) as ex:
        for u, (path, diag) in ex.map(fe, [u for u in units if u]):
            if path is None:
                lines = [l for l in diag.splitlines() if ": error:" in l or ": fatal error:" in l]
                own = [l for l in lines]
                obs.append((str(u), "compile", "instantiates", VIOLATED, "use of the public interface does not compile: " + (own[0] if own else diag[-400:]), own[0].split(" error:")[0] if own else "", "well-formed instantiation"))
            else:
                dumps.append(path)
                progs[u] = Program(path)
    for p in dumps:
        os.remove(p)
    run = [c for c in cases if c.unit in progs or c.unit is None]
    progs[None] = None
    run = [c for c in run if getattr(c, "need", None) is None or c.need(progs[c.unit], c.scenario)]
    limit = spec.limit(tier)
    results = run_cases(run, progs, tier, limit)
    fns, loops, cov = set(), {}, {}
    broken = []
    per = {}
    for c, r in zip(run, results):
        if r[0] == "error":
            broken.append((c.name, r[1]))
            obs.append((c.name, "engine", "analysis", UNDECIDED, r[1], "", ""))
            continue
        for label, os_, st in r[1]:
            fns |= set(st["fns"])
            for k, v in st["sites"].items():
                cov[k] = cov.get(k, 0) + v
            for w, n, ls in st["loops"]:
                loops[w.replace(REPO + "/", "")] = (n, ls)
            per.setdefault(c.name, []).append((label, st["wall"], st["err"]))
            for key, status, detail, loc, rule in os_:
                obs.append((c.name, label, key, status, detail, loc, rule))
    count = {}
    for o in obs:
        count[o[3]] = count.get(o[3], 0) + 1
    kn = [(k, t) for p, k, t in known() if p == prop]
    viol, found = [], []
    seen = set()
    for o in obs:
        if o[3] != VIOLATED:
            continue
        key = "%s/%s" % (o[0], o[2])
        hit = [(k, t) for k, t in kn if k == key or (k.endswith("*") and key.startswith(k[:-1]))]
        if hit:
            found.append(hit[0])
        elif (o[0], o[2], o[5]) not in seen:
            seen.add((o[0], o[2], o[5]))
            viol.append(o)
    for k, t in dict.fromkeys(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    # a case with a general result is decided when it or its instances decide it
    decided = {}
    for o in obs:
        if o[3] in (PROVED, AGREED, VIOLATED):
            decided.setdefault(o[0], 0)
            decided[o[0]] += 1
    undec_cases = [c.name for c in run if not decided.get(c.name)]
    incons = [o for o in obs if o[3] == INCONSISTENT]
    replay = None
    if viol:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        replay = os.path.join(BUILD, "replay", "%s.txt" % prop)
        with open(replay, "w") as f:
            for o in viol:
                f.write("property %s\nrule      %s\ncase      %s (%s)\nobligation %s\nat        %s\n%s\n\n" % (prop, o[6], o[0], o[1], o[2], o[5], o[4]))
        for o in viol[:12]:
            print("violation: [%s] %s: %s @ %s: %s" % (o[1], o[0], o[2], o[5].replace(REPO + "/", ""), o[4][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    general = [o for o in obs if o[1] in ("general", "fixed", "rule")]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "other",
        "coverage": {
            "explanation": spec.explain,
            "cases": len(cases),
            "obligations": len(obs),
            "proved_for_all_sizes_in_case": sum(o[3] == PROVED and o[1] in ("general", "fixed", "rule") for o in obs),
            "proved_at_instance_sizes": sum(o[3] == PROVED and o[1].startswith("instance") for o in obs),
            "agreed_by_random_interpretation": count.get(AGREED, 0),
            "undecided": count.get(UNDECIDED, 0),
            "violations": len(viol),
            "cases_without_a_decision": undec_cases,
            "functions_analysed": sorted(fns),
            "program_points": {k: v for k, v in cov.items()},
            "loops_summarised": ["%s trip=%s %s" % (w, n, ",".join(str(x) for x in ls)) for w, (n, ls) in sorted(loops.items())][:200],
            "samples": ["%s | %s | %s | %s | %s" % (o[0], o[1], o[2], o[3], o[4][:160]) for o in obs[:: max(1, len(obs) // 12)]][:14],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": spec.assumptions,
        "violations": ["%s/%s: %s" % (o[0], o[2], o[4][:300]) for o in viol],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d obligations: %s; %.1fs" % (prop, tier, len(cases), len(obs), ", ".join("%d %s" % (v, k) for k, v in sorted(count.items())), time.time() - t0))
    if verbose:
        for o in obs:
            if o[3] != PROVED or "-vv" in sys.argv:
                print("  %-9s [%s] %s: %s @%s %s" % (o[3], o[1], o[0], o[2], o[5], o[4][:int(os.environ.get("W", "400"))]))
        if "-t" in sys.argv:
            for n, l in per.items():
                print("  time", n, l)
    for n, e in broken:
        if verbose:
            print("  engine error in %s: %s" % (n, e))
    if viol:
        return 1
    if incons:
        print("not decided: normal form and evaluation disagree: %s %s" % (incons[0][0], incons[0][4][:600]))
    if not cases or not decided:
        print("ANALYSIS-BROKEN: no case was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
