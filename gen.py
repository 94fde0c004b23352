"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import props

with open("properties.jsonl", "w") as f:
    for p in props.PROPS.values():
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    for p in props.NOT_APPLICABLE:
        f.write(json.dumps({k: v for k, v in p.items() if k != "reason"}) + "\n")
py = "/opt/venv/bin/python -W ignore"
m = dict(version=1, setup_cmd=f"{py} -c 'from symx import env; env.setup(); import z3; print(z3.get_version_string())'",
         checks=[dict(property=i, quick_cmd=f"{py} check.py {i} --tier quick", thorough_cmd=f"{py} check.py {i} --tier thorough",
                      technique="bounded symbolic execution of the real Python code, decided by SMT (z3, cvc5)",
                      level="other",
                      level_note=("every assertion is decided by the solver for all inputs within the bounds printed in the evidence; "
                                  "real arithmetic instead of floating point, tolerance 1e-6 relative. " + p["note"]).strip())
                 for i, p in props.PROPS.items()],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in props.NOT_APPLICABLE])
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(props.PROPS), "properties")

# COVERAGE.md
from symx import env
env.setup()
env.preload()
import importlib
import os
from symx import registry
for f in sorted(os.listdir("harness")):
    if f.endswith(".py") and f != "__init__.py":
        importlib.import_module("harness." + f[:-3])
jobs = {}
for j in registry.JOBS:
    e = jobs.setdefault(j.prop, {}).setdefault(j.key.split("(")[0], [0, j.bounds, " ".join((j.fn.__doc__ or "").split())])
    e[0] += 1
with open("COVERAGE.md", "w") as f:
    f.write("# Jobs and bounds of every property (written by gen.py)\n")
    for i, p in props.PROPS.items():
        f.write(f"\n## {i} {p['title']}\n\n")
        for n, (c, b, d) in jobs[i].items():
            f.write(f"* `{n}` ({c} parameter set{'s' if c > 1 else ''}){': ' + d if d else ''} — {b}\n")
