#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/map.txt from tools/props/*.py (run by hand, not by checks)."""
import glob, json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na, maps, design = [], [], [], [], []

def P(id, crate, title, statement, over, text, why, files, mech, observe, technique, note, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    props.append({"id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": text}, "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe, "hook_needed": hook}})
    maps.append((id, crate))
    design.append(f"**{id} — {title}.** `{crate}`. Enumerated: {text}. Method: {technique}. {' '.join(note.split())} Beyond the tests: {' '.join(why.split())}\n")
    checks.append({"property": id, "quick_cmd": f"bash check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {id}",
        "technique": technique, "level": "model_checking", "level_note": " ".join(note.split())})

def NA(id, title, statement, over, text, why, files, mech, reason):
    props.append({"id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [], "observe_at": [], "hook_needed": None}})
    na.append({"property": id, "reason": reason})
    design.append(f"**{id} — {title}.** Not applicable: {reason}\n")

for f in sorted(glob.glob(V + "/tools/props/*.py")):
    runpy.run_path(f, {"P": P, "NA": NA})
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids)), "duplicate id"
for p in props:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: the harnesses compile copies of its source files (see DESIGN.md, Binding)."}, f, indent=1)
    f.write("\n")
with open(V + "/harness/map.txt", "w") as f:
    for i, c in maps:
        f.write(f"{i} {c}\n")
d = open(V + "/DESIGN.md").read()
a, b = d.index("<!-- properties -->"), d.index("<!-- /properties -->")
open(V + "/DESIGN.md", "w").write(d[:a] + "<!-- properties -->\n\n" + "\n".join(design) + "\n" + d[b:])
d = open(V + "/DESIGN.md").read()
notes = json.load(open(V + "/tools/seeded.json"))
rows = "".join(f"| {b} | {json.load(open(f'{V}/seeded/{b}/meta.json'))['property']} | {notes.get(b, 'caught')} |\n" for b in sorted(os.listdir(V + "/seeded")))
a, b = d.index("<!-- seeded -->"), d.index("<!-- /seeded -->")
open(V + "/DESIGN.md", "w").write(d[:a] + "<!-- seeded -->\n" + rows + d[b:])
import jsonschema
for p in props:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "checks")
