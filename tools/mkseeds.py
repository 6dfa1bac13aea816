"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "| change | caught by | what it breaks |\n"
i = s.find(mark)
i = i if i >= 0 else s.index("@SEEDS@")
rows = []
for m in sorted(glob.glob(os.path.join("/verif/seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} (needs: {d['needs']}) |\n")
open(p, "w").write(s[:i] + mark + "|---|---|---|\n" + "".join(rows))
