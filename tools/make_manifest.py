"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for it yet")))
        continue
    src = open(f).read()
    ns = {}
    for name in ("LEVEL", "TECHNIQUE", "BOUNDS", "NOTE"):
        import ast
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
                ns[name] = eval(compile(ast.Expression(n.value), f, 'eval'), dict(ns))
    checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"],
                       thorough_cmd="bash run.sh %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=ns.get("TECHNIQUE", "bounded-exhaustive enumeration of inputs and operation sequences on the real code, compared step by step with an independent reference model"),
                       level=ns.get("LEVEL", "model_checking"),
                       level_note=ns.get("NOTE", "Every case in the stated finite space is executed on the current source and compared with a reference model; nothing is sampled. Bounds: %s. Says nothing about values outside these bounds; trusts Python, numpy/scipy and the reference model." % ns.get("BOUNDS", "see DESIGN.md"))))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Checks import geotecha from /repo's current tree and compile its Fortran sources into a scratch folder on demand; known findings and fixed defects are in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
