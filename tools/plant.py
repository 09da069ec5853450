"""Plant one bug: python3 tools/plant.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO).

Applies the edits to /repo, checks that the demonstration separates the trees and that the stable tests still pass, stores the
seeded bug under /verif/seeded/ID and restores /repo."""
import json, pathlib, subprocess, sys
V, R = pathlib.Path("/verif"), pathlib.Path("/repo")
SH = '#!/bin/bash\n# exit 0 where the property holds\nhere=$(cd "$(dirname "$0")" && pwd)\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(spec, check=True):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "dirty /repo"
    d = V / "seeded" / ns["ID"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.sh").write_text(SH)
    (d / "demo.sh").chmod(0o755)
    (d / "demo.py").write_text(ns["DEMO"].lstrip())
    demo = lambda: sh("bash", str(d / "demo.sh"), cwd="/repo")
    ok = demo()
    if ok.returncode:
        print("demo fails on the unchanged tree:", ok.stdout[-800:], ok.stderr[-800:])
        return 2
    try:
        for f, old, new in ns["EDITS"]:
            p = R / f
            s = p.read_text()
            assert s.count(old) >= 1, (f, old)
            p.write_text(s.replace(old, new, 1))
        (d / "patch.diff").write_text(sh("git", "-C", "/repo", "diff").stdout)
        bad = demo()
        print("demo with patch:", bad.returncode, (bad.stdout + bad.stderr)[-200:].strip())
        if not bad.returncode:
            return 3
        t = sh("bash", "/tmp/t.sh").stdout.strip()
        print("tests:", t[:300])
        if not t.endswith("missing []"):
            return 4
        (d / "meta.json").write_text(json.dumps(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), indent=1))
        if check:
            c = sh("timeout", "900", "./check", ns["PROPERTY"], "quick", cwd="/verif")
            print("check", ns["PROPERTY"], "exit", c.returncode, [l for l in c.stdout.splitlines() if l.startswith("#")][:1])
            sh("rm", "-rf", f"/verif/replays/{ns['PROPERTY']}")
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    return 0


if __name__ == "__main__":
    for s in sys.argv[1:]:
        print("==", s)
        rc = main(s)
        if rc:
            print("NOT KEPT", rc)
            ns = {}
            exec(pathlib.Path(s).read_text(), ns)
            sh("rm", "-rf", f"/verif/seeded/{ns['ID']}")
