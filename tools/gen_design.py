"""Puts DESIGN.md together from design_head.md, design_tail.md and the planted changes."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
rows = ["| planted change | caught by | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
text = open(os.path.join(here, "design_head.md")).read() + open(os.path.join(here, "design_tail.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(text.replace("SEEDTABLE", "\n".join(rows)))
