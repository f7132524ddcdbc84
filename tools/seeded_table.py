"""Prints the table of planted bugs for DESIGN.md."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parents[1]
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
