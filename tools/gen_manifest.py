"""Writes MANIFEST.json from properties.jsonl and the modules in mc/props."""
import ast, json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").open()]
checks, rest = [], []
for p in props:
    path = ROOT / "mc" / "props" / f"{p['id'].lower()}.py"
    if not path.exists():
        rest.append(dict(property=p["id"], reason="check not built yet"))
        continue
    mod = ast.parse(path.read_text())
    vals = {}
    for node in mod.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
            technique=vals.get(
                "TECHNIQUE",
                "explicit-state model checking of the real code: exhaustive "
                "enumeration of a bounded space, each state compared to an "
                "independent executable reference model",
            ),
            level="model_checking",
            level_note=vals["RULE"],
        )
    )
out = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python mc/build.py",
    checks=checks,
    not_applicable=rest,
    notes="run.py rebuilds from /repo's working tree (out of tree, under /verif/.build) before every check.",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "claimed")
