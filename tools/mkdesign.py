"""DESIGN.md: tools/design.md and the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/design.md").read()
note = {"c-base-last": "; first missed: the classes of the check had no base with hooks of its own"}
rows = ["## Planted bugs", "", "Each was written from the text of its property; all are caught by the quick check of the property they break"
        " (exit 1 and its VIOLATION line). `seeded/<id>/` holds patch and demonstration.", "", "| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
    cell = lambda x: x.replace("|", "\\|")
    rows.append("| %s | %s%s | %s | %s |" % (i, m["property"], note.get(i, ""), cell(m["what_it_breaks"]), cell(m["needs"])))
open(V + "/DESIGN.md", "w").write(s.replace("@@SEEDS@@", "\n".join(rows)))
