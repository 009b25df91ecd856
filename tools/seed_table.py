#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the recorded results."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
d = (V / "DESIGN.md").read_text()
mark = "## Planted bugs\n"
head = d.split(mark)[0]
rows = []
for p in sorted((V / "seeded").iterdir()):
    m = json.loads((p / "meta.json").read_text())
    rows.append(f"| {p.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
text = mark + """
`seeded/` holds changes that pass the test suite and break a property. Each was written from the property text and the code;
where a check missed one at first the generator or oracle was strengthened. Every one is caught by the quick check of its property.

| change | caught by | needs | breaks |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
(V / "DESIGN.md").write_text(head + text)
print(len(rows))
