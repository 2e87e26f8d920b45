"""development aid: (re)writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seedkinds.txt"""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
kinds = dict(re.findall(r"(\S+)\[([^\]]*)\]", (root / "tools/seedkinds.txt").read_text()))
rows = ["| planted bug | property | manifests with | caught by (kind of violation, quick tier) |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} | {m['property']}: {kinds.get(d.name, 'not measured')} |")
p = root / "DESIGN.md"
t = p.read_text()
mark = "<!-- seeded table -->"
p.write_text(t.split(mark)[0].rstrip() + "\n\n" + mark + "\n" + "\n".join(rows) + "\n")
