"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, pathlib, importlib.util
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NOTES = json.load(open(V / "tools" / "levels.json"))
NA = json.load(open(V / "tools" / "not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness" / f"{i.lower()}.py").exists() and i not in NA:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json", level="model_checking",
            technique=n.get("technique", "TLA+ specification checked with TLC; recorded traces validated against it and generated behaviours replayed into the code"),
            level_note=n.get("note", "TLC explores the specification's bounded state space; the real code is bound to it by replayed behaviours and validated traces, so the assurance is bounded by those sizes.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+), harnesses in harness/, runner in vf/.")
json.dump(m, open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
