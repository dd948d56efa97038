"""Writes known_findings.json: the open findings listed here and one 'fixed' line per fix: commit in /repo."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(x.split(":") for x in """a1d4b21:C01 b376f68:C01 cf4c497:C01 a8ab263:C02 2e718ca:C02 b77eb8d:C02 0480249:C02 960a494:C04 4fd2365:C03
d06bb64:C06 5771dac:C06 617f391:C06 79fcec3:C06 fdb130c:C06 f88e158:C04 1b48e87:C10 cb8d507:C07 4b89eb2:C10 6e92fe5:C09 047bafd:C08 9f48465:C13
df34e20:C09 b2b60f5:C05 f685360:C05 5ea4410:C05 560beef:C05 d383266:C05 ae13da8:C05 3ba80d4:C05 63ca269:C05 150f839:C05 17bc89f:C26 1269467:C26
dcd4bd0:C10 e6761f6:C14 b55cdb7:C14 1736341:C14 8a6ce6a:C15 78f1a3e:C15 aa91a27:C16 92d8660:C16 2e7a1d9:C16 0ccfc1a:C17 589e49e:C19 ca04e69:C19
9825d24:C19 244aa6b:C18 42a7a5e:C20""".split())
EXTRA = os.path.join(V, "tools", "fix_props.txt")
if os.path.exists(EXTRA):
    PROP.update(dict(l.split(":") for l in open(EXTRA).read().split()))
FINDINGS = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        fixed.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[4:].strip()))
json.dump(dict(findings=FINDINGS, fixed=fixed), open(V + "/known_findings.json", "w"), indent=1); open(V + "/known_findings.json", "a").write("\n")
print(len(FINDINGS), len(fixed))
