"""Rewrite the generated part (detection matrix, fix list) of DESIGN.md from
seeded/*/meta.json, known_findings.txt and tools/misses.txt."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/gen_design.py -->"
misses = {}
for l in open(os.path.join(ROOT, "tools/misses.txt"), encoding="utf-8"):
    l = l.strip()
    if l and not l.startswith("#"):
        k, _, v = l.partition(":")
        misses[k.strip()] = v.strip()
out = [MARK, "", "## Planted bugs and what catches them", "",
       "Each was written from a property and the code, confirmed to pass the 252 tests and to be told apart by its demonstration, and then tried",
       "against the check of its property in the quick tier (`tools/plant.py`). *Missed at first* means that the check was strengthened afterwards.", "",
       "| planted bug | caught by | needs | missed at first |", "|---|---|---|---|"]
n = 0
for p in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    miss = misses.get(i, "")
    caught = m["property"]
    if miss.startswith("NOT CAUGHT"):
        caught = "-"
    out.append("| %s | %s | %s | %s |" % (i, caught, m["needs"].replace("|", "/"), miss))
    n += 1
out += ["", "%d planted bugs." % n, "", "## Genuine defects found", "",
        "Every one was shown on the original code by the check named and repaired by a separate `fix:` commit, except the open one.", ""]
for l in open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8"):
    l = l.strip()
    if l.startswith("open:"):
        out.append("* **open** " + l[5:].strip())
    elif l.startswith("fixed:"):
        out.append("* fixed " + l[6:].strip())
path = os.path.join(ROOT, "DESIGN.md")
text = open(path, encoding="utf-8").read()
head = text.split(MARK)[0].rstrip() + "\n\n"
open(path, "w", encoding="utf-8").write(head + "\n".join(out) + "\n")
print(n, "planted bugs")
