"""Writes the table of planted bugs into DESIGN.md (meta.json of each, 'caught' as recorded in tools/caught.json)."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
try: caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
except FileNotFoundError: caught = {}
rows = ["| bug | property | needs | breaks | caught by (quick) |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?')} |".replace("\n", " "))
p = os.path.join(ROOT, "DESIGN.md"); s = open(p).read()
open(p, "w").write(re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- /matrix -->", s, flags=re.S))
