"""Writes /verif/MANIFEST.json from the check modules (run with /opt/venv/bin/python)."""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return d
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]; path = V + "/mc/checks/%s.py" % i.lower()
    if not os.path.exists(path):
        na.append(dict(property=i, reason="its check is not built yet")); continue
    d = consts(path)
    note = "Exhaustive within the bounds listed per space in the evidence file, on the real code. " + d["RULE"][0].upper() + d["RULE"][1:] + "."
    if d.get("ASSUMPTIONS"): note += " Assumes: " + "; ".join(d["ASSUMPTIONS"]) + "."
    checks.append(dict(property=i, quick_cmd="./run " + i, thorough_cmd="VERIF_TIER=thorough ./run " + i,
        evidence_file="evidence/%s.json" % i, technique=d["TECHNIQUE"], level=d["LEVEL"], level_note=note))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/selftest.py", checks=checks, not_applicable=na,
    notes="No hooks: the code under test is used as it is in /repo/src, imported from source on every run.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), len(na))
