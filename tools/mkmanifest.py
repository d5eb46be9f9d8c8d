"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read(), NOTES)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vlib", "props", i.lower() + ".py")):
        t, n = NOTES["N"].get(i, ("property-based testing against the reference implementation", ""))
        checks.append(dict(
            property=i,
            quick_cmd="python3 -m vlib.run %s --tier quick" % i,
            thorough_cmd="python3 -m vlib.run %s --tier thorough" % i,
            technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="python3 -m vlib.run --setup", checks=checks,
         not_applicable=na,
         notes="Every check is seeded Hypothesis search over JSON cases against an explicit oracle; "
         "python3 -m vlib.run C07 --replay replays/FILE replays one failure. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
