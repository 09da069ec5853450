"""Writes MANIFEST.json from the check modules present (claimed) and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "checks" / f"{i.lower()}.py"
    if f.exists() and i not in NA:
        src = f.read_text()
        ns = {}
        for key in ("TECHNIQUE", "NOTE"):
            for line in src.splitlines():
                if line.startswith(key + " = "):
                    ns[key] = eval(line.split("=", 1)[1])
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=ns.get("TECHNIQUE", "bounded exhaustive enumeration of configurations on the real code against a reference model"),
                           level="model_checking",
                           level_note=ns.get("NOTE", "Every configuration within the stated bound is executed on the real implementation and compared with an independent reference model; nothing is claimed beyond the bound. Trusts numpy/pandas/scipy and the reference model.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="All checks drive /repo directly through ./check <id> <tier>; no hooks in /repo are needed."), open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
