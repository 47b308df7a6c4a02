# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = m.get("caught_by", [m["property"]])
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].strip().rstrip("."), m["needs"].strip().rstrip("."), ", ".join(c) if c else "missed"))
t = """## Planted bugs

`seeded/`; each confirmed in a copy (applies, compiles, stable tests pass, `demo.sh` tells the trees
apart) and run against its property's check with `tools/plant/try.sh`. This table is written by
`tools/gen_plants.py`.

| change | what it breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
p = root + "/DESIGN.md"
s = open(p).read()
i = s.find("@@PLANTS@@")
if i < 0: i = s.index("## Planted bugs")
open(p, "w").write(s[:i] + t)
