"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "| change | check | breaks | needs |\n|---|---|---|---|\n"
p = f"{R}/DESIGN.md"; s = open(p).read(); rows = []
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(p, "w").write(s[:s.index(H)] + H + "\n".join(rows) + "\n")
