"""Re-run one recorded violation: plain execution of a single case."""
import importlib, json, sys
from mc.core import run_case

d = json.load(open(sys.argv[1]))
mod = importlib.import_module("checks." + d["property"].lower())
r = run_case(mod, d["case"])
hit = False
for k, m in r.violations:
    print(("* " if k == d["key"] else "  ") + k, "\n   ", m)
    hit |= k == d["key"]
print("reproduced" if hit else "NOT reproduced")
sys.exit(1 if hit else 0)
