"""writes the table of planted changes into DESIGN.md (caught: results of /verif's checks, given as id=prop,prop arguments or all)"""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | breaks | reported by |", "|---|---|---|---|"]
miss = set(sys.argv[1:])
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], "none (missed)" if i in miss else m["property"]))
s = open(here + "/DESIGN.md").read()
a, b = s.index("<!-- planted table -->"), s.index("What planting changed in the checks")
open(here + "/DESIGN.md", "w").write(s[:a] + "<!-- planted table -->\n" + "\n".join(rows) + "\n\n" + s[b:])
