"""Re-runs every planted bug against its property's check (plant.py --recheck) and rewrites the table in DESIGN.md
(rows of planted bugs that the given output doesn't mention are kept).
usage: seed_table.py [FILE with the output of plant.py --recheck]"""
import json, re, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
txt = Path(sys.argv[1]).read_text() if len(sys.argv) > 1 else subprocess.run([sys.executable, str(V / "tools/plant.py"), "--recheck"], stdout=subprocess.PIPE, text=True).stdout
p = V / "DESIGN.md"
design = p.read_text()
head = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
rows = {}
for line in design[design.index("<!-- seeds -->"):].splitlines():
    m = re.match(r"\| (c\d\d-\S+) \|", line)
    if m and (V / "seeded" / m[1]).is_dir():
        rows[m[1]] = line
for line in sorted(txt.splitlines()):
    m = re.match(r"(\S+) +(C\d\d) (CAUGHT|MISSED\S*) ?.*?(?:sub-check (\w+))?:?", line)
    if not m:
        continue
    d = json.loads((V / "seeded" / m[1] / "meta.json").read_text())
    s = re.search(r"sub-check (\w+)", line)
    rows[m[1]] = (f"| {m[1]} | {m[2]} | {d['needs']} | {'`' + s[1] + '`' if m[3] == 'CAUGHT' and s else m[3].lower() if m[3] == 'CAUGHT' else '**missed**'} |")
s = design
p.write_text(s[:s.index("<!-- seeds -->") + 15] + "\n".join(head + [rows[k] for k in sorted(rows)]) + "\n" + s[s.index("<!-- /seeds -->"):])
