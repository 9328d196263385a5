"""Writes DESIGN.md from properties.jsonl, mc/props and tools/design_notes.py."""
import ast, json, pathlib, re, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
import design_notes as N

props = [json.loads(x) for x in (ROOT / "properties.jsonl").open()]
known = json.loads((ROOT / "known-findings.json").read_text())
known = known.get("fixed", known) if isinstance(known, dict) else known


def consts(pid):
    out = {}
    for node in ast.parse((ROOT / "mc" / "props" / f"{pid.lower()}.py").read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


parts = [N.HEADER.strip(), "", "## Properties", ""]
for p in props:
    c = consts(p["id"])
    n = N.NOTES[p["id"]]
    parts += [
        f"### {p['id']}: {p['title']}", "",
        f"- **Enumerated (bounds).** {c['RULE']}.",
        f"- **Oracle.** {n['oracle']}",
        f"- **Assumptions.** {'; '.join(c.get('ASSUMPTIONS', ['none']))}.",
        f"- **Why tests cannot settle it.** {n['why']}",
        f"- **Cost.** {n['cost']}",
        "",
    ]
parts += ["## Genuine defects found and repaired", ""]
parts += [f"- {k}" for k in (known if isinstance(known, list) else [])]
parts += ["", N.FALSE_ALARMS.strip(), "", "## Planted bugs and which checks catch them", "",
          N.SEEDED.strip(), "", "| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    caught = N.CAUGHT.get(d.parent.name, m["property"])
    parts.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {caught} |")
parts += ["", N.TAIL.strip(), ""]
(ROOT / "DESIGN.md").write_text("\n".join(parts))
