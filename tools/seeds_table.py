"""Print the table of planted bugs for DESIGN.md (maintenance only).

Rewrites what is between the markers of section 6; no check uses it.
"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted -->", "<!-- /planted -->"
rows = []
seeded = os.path.join(HERE, "seeded")
for name in sorted(os.listdir(seeded)):
    meta = json.load(open(os.path.join(seeded, name, "meta.json")))
    rows.append((meta["property"], name, meta["what_it_breaks"],
                 meta["needs"], meta.get("missed", "")))
lines = ["| property | bug | what it breaks | needs | added after a miss |",
         "|---|---|---|---|---|"]
for row in sorted(rows):
    lines.append("| %s |" % " | ".join(
        str(cell).replace("|", "\\|") for cell in row))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
text = re.sub(re.escape(BEGIN) + ".*" + re.escape(END),
              lambda m: "\n".join([BEGIN] + lines + [END]), text, flags=re.S)
open(path, "w").write(text)
