"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.join(os.path.dirname(__file__), "..")
p = os.path.join(root, "DESIGN.md")
head = open(p).read().split("<!-- seeds -->")[0]
rows = []
for d in glob.glob(os.path.join(root, "seeded", "*")):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["needs"], m["what_it_breaks"]))
with open(p, "w") as f:
    f.write(head + "<!-- seeds -->\n| caught by | bug | needs | breaks |\n|---|---|---|---|\n")
    for r in sorted(rows):
        f.write("| %s |\n" % " | ".join(str(x).replace("|", "\\|").replace("\n", " ") for x in r))
