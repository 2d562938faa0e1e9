"""Rewrite the table of planted bugs in DESIGN.md from /verif/seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).parent.parent
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['property']} (quick) |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
p.write_text(s)
