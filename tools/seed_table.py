"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand, not by a check)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "## Planted bugs\n"
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught', d['property'])} |")
text = open(root + "/DESIGN.md").read().split(mark)[0].rstrip() + "\n\n" + mark
text += """Each was written from the text of a property and the code, confirmed in a scratch copy (it builds, the stable tests
pass, its demonstration fails with it and passes without it), then run against the checks; where a check missed it, the
specification, its histories or the harness were extended until it was caught.  The last column is the check that
reports it.

| id | property | what it breaks | needs | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(root + "/DESIGN.md", "w").write(text)
