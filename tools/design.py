"""Writes DESIGN.md from tools/design_head.md, known_findings.json and the seeded changes with their results."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "tools", "design_head.md")) as fh:
    out = [fh.read().rstrip()]
with open(os.path.join(ROOT, "known_findings.json")) as fh:
    known = json.load(fh)
out += ["", "## Defects found and repaired (\"fix:\" commits in /repo)", ""]
out += ["- " + f[len("fixed: "):] for f in known["fixed"]]
res = {}
fn = os.path.join(ROOT, "tools", "seeded_results.json")
if os.path.exists(fn):
    with open(fn) as fh:
        res = json.load(fh)
out += ["", "## Planted changes", "",
        "Each was written from a property's text and the code, passes the 114 tests, and has a demonstration "
        "(`seeded/<id>/`). `tools/run_seeded.py` runs the check of its property against a scratch copy that has it.", "",
        "| change | property | needs | caught by its quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", i, "meta.json")) as fh:
        m = json.load(fh)
    c = res.get(i, {}).get("caught")
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), {True: "yes", False: "NO"}.get(c, "not run")))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out) + "\n")
