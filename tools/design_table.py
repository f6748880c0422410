"""Writes section 5 of DESIGN.md from seeded/*/meta.json and the records of what was missed at first."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(ROOT, "tools", "first_missed.txt")).read().split())
NOT_CAUGHT = set()
p = os.path.join(ROOT, "tools", "not_caught.txt")
if os.path.exists(p):
    NOT_CAUGHT = set(open(p).read().split())
rows = []
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    by = "**missed**" if i in NOT_CAUGHT else m["property"] + (" \u2020" if i in FIRST_MISSED else "")
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {by} |")
d = os.path.join(ROOT, "DESIGN.md")
s = open(d).read()
mark = "## 5. Planted changes"
s = s[: s.index(mark)] + mark + f"""

`seeded/<id>/` holds {len(rows)} changes that pass the existing tests, with a demonstration each. The last column is the quick check
that catches it; \u2020 marks those the check of the time missed, and was strengthened for (wider inputs or a stricter oracle, never
a rule about the change itself).

| change | breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(d, "w").write(s)
