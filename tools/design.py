"""Fill the generated tables of DESIGN.md from the manifest, the known findings and the planted bugs."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
src = (V / "tools/design_src.md").read_text()
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
man = json.loads((V / "MANIFEST.json").read_text())
checks = {}
for c in man["checks"]:
    for p in ([c["property"]] if "property" in c else c.get("properties", [])):
        checks[p] = c
t = ["## How each property is decided", "", "| id | property | deciding machinery |", "|---|---|---|"]
for p in props:
    c = checks.get(p["id"], {})
    na = next((n["reason"] for n in man.get("not_applicable", []) if n.get("property") == p["id"]), "")
    t.append(f"| {p['id']} | {p['title']} | {(c.get('technique') or 'not claimed: ' + na).replace('|', '/')} |")
kf = json.loads((V / "known_findings.json").read_text())
seeded = []
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    seeded.append(f"| {d.parent.name} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', 'yes')} |")
src = src.replace("@@TABLE@@", "\n".join(t))
src = src.replace("@@FIXES@@", "\n".join("* " + f.removeprefix("fixed: ") for f in kf["fixed"]))
src = src.replace("@@KNOWN@@", "\n".join(f"* {f['property']} `{f['key']}`: {f['what']}" for f in kf["findings"]))
src = src.replace("@@SEEDED@@", "\n".join(["| change | property | what it breaks | caught by its check |", "|---|---|---|---|", *seeded]))
(V / "DESIGN.md").write_text(src)
