"""Writes /verif/DESIGN.md (run with /opt/venv/bin/python -B tools/gen_design.py)."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V)
import mc.sut
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(HERE + "/design_head.md").read().rstrip(), "", "## Per property: what is enumerated, against what, within what bounds", ""]
for p in props:
    i = p["id"]
    m = importlib.import_module("mc.checks." + i.lower())
    q = {s.name: s.bound for s in m.spaces("quick")}
    t = {s.name: s.bound for s in m.spaces("thorough")}
    out += ["### %s %s" % (i, p["title"]), "", "*Technique:* %s." % m.TECHNIQUE, "", "*Rule:* %s." % m.RULE, ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["*Assumes:* %s." % "; ".join(m.ASSUMPTIONS), ""]
    out += ["| space | quick | thorough |", "|---|---|---|"]
    for n in list(q) + [n for n in t if n not in q]:
        a, b = q.get(n, "-"), t.get(n, "-")
        esc = lambda s: s.replace("|", "\\|").replace("\n", "\\n").replace("\r", "\\r")
        out.append("| %s | %s | %s |" % (n, esc(a), "same" if a == b else esc(b)))
    out.append("")
k = json.load(open(V + "/known_findings.json"))
out += ["## Genuine defects found", "", "%d open, %d repaired in /repo (each a `fix:` commit; the check reports the violation again if it returns):" % (len(k["findings"]), len(k["fixed"])), ""]
out += ["- OPEN: %s" % (json.dumps(f)) for f in k["findings"]] + ["- " + f for f in k["fixed"]]
out += ["", "## Planted bugs", "", "Each in `seeded/<id>/`, written from the property and the code alone. The last column: found by the check of its property (quick tier), as run by `vcheck` or the planting tool.", "",
        "| id | property | what it breaks | what it needs | caught |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], d["property"], d["what_it_breaks"], d["needs"], d.get("caught", "yes")))
out += ["", open(HERE + "/design_tail.md").read().rstrip()] if os.path.exists(HERE + "/design_tail.md") else []
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out))
