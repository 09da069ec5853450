"""C04: the last export wins, whatever the target contained before."""
import hashlib
import itertools
import os
from checks import c03
from mc import canon, core, nets

ID = "C04"
HS = [0]
TECHNIQUE = "exhaustive enumeration of all export histories of a family of networks to one target up to a length, in every format, with re-imports between; the imported network is compared with a complete description of the last exported one"
RULE = "after any history of exports to a target, importing gives the network exported last; imports leave the target as it is and are repeatable"
ASSUMPTIONS = c03.ASSUMPTIONS


def BOUNDS(tier):
    return f"7 networks (none, some and all component types, with and without series, custom data, meta data, shapes, types, periods), all histories of length {2 if tier == 'quick' else 3} and read-modify-write histories, 4 formats"


KINDS = ["bus", "full", "bare", "periods", "custom", "other", "solved"]


def cases(tier):
    for f in c03.FORMATS:
        for a in KINDS:
            yield dict(f=f, first=[a], rmw=False)
        for a in KINDS:
            yield dict(f=f, first=[a], rmw=True)
        if tier != "quick":
            for a, b in itertools.product(KINDS, KINDS):
                yield dict(f=f, first=[a, b], rmw=False)


def make(kind):
    import pandas as pd
    n = nets.pypsa.Network()
    if kind == "bus":
        n.add("Bus", "b0")
    elif kind == "full":
        n = canon.rich(time="int", n_each=2, comps=["Bus", "Carrier", "LineType", "Generator", "Load", "Line", "Link", "Shape", "StorageUnit"], static="half", series="some", outputs=False)
        n.add("TransformerType", "own", vsc=3.0)
        n.to_crs(3035)
    elif kind == "bare":
        n = canon.rich(time="int", n_each=2, comps=["Bus", "Carrier", "Generator", "Load", "Line", "Link"], static="none", series="none", custom=False, meta="none", name="", weights=False)
    elif kind == "periods":
        n = canon.rich(time="midt", n_each=1, comps=["Bus", "Store", "Link", "Generator"], static="half", series="all", custom=False, meta="none", name="other", outputs=False)
    elif kind == "custom":
        n.set_snapshots(["a", "b"])
        n.add("Bus", ["b0", "x"], my_text=["u", "v"])
        n.add("Generator", "generator0", bus="b0", my_number=5.5)
        n.add("Carrier", "z")
        n.generators_t["my_other"] = pd.DataFrame({"generator0": [1.5, 2.5]}, index=n.snapshots)
        n.meta = {"z": 1}
    elif kind == "other":
        n.set_snapshots([7, 8, 9, 10])
        n.add("Bus", ["b1", "b0"])
        n.add("Generator", ["generator1", "generator0"], bus="b0", p_nom=[1.0, 2.0])
        n.generators_t.p_max_pu = pd.DataFrame({"generator0": [0.5, 0.25, 0.125, 0.75]}, index=n.snapshots)
        n.add("ShuntImpedance", "q", bus="b0", g=0.5)
        n.add("GlobalConstraint", "co2", constant=5.0)
    elif kind == "solved":
        n.set_snapshots([0, 1])
        n.add("Bus", "b0")
        n.add("Generator", "generator0", bus="b0", p_nom=10, marginal_cost=2.0)
        n.add("Load", "load0", bus="b0", p_set=[1.0, 2.0])
        nets.optimize(n)
    return n


def fingerprint(path):
    if os.path.isdir(path):
        return {f: hashlib.sha256(open(os.path.join(path, f), "rb").read()).hexdigest() for f in sorted(os.listdir(path))}
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


def run(case):
    r = core.Result()
    f = case["f"]
    cache = {k: make(k) for k in KINDS if k in case["first"] or not case["rmw"] or k in ("bus", "full")}
    want = {k: c03.clean(n, f) for k, n in cache.items()}
    for last in KINDS if not case["rmw"] else ["bus", "full"]:
        history = case["first"] + [last]
        with c03.Target(f) as t:
            for k in history[:-1]:
                c03.export(cache[k], f, t.path)
            if case["rmw"]:
                # read, change and write back to the place it came from
                m = c03.load(f, t.path)
                for c in sorted(m.all_components - {"SubNetwork", "Bus", "Carrier", "LineType", "TransformerType"}):
                    m.remove(c, list(m.static(c).index))
                if m.has_periods:
                    m = nets.pypsa.Network(name="fresh")
                m.add("Bus", "fresh")
                m.add("Load", "fresh", bus="fresh", p_set=[1.5 + i for i in range(len(m.snapshots))])
                m.meta = {"fresh": True}
                target = c03.clean(m, f)
                c03.export(m, f, t.path)
                if last != "bus":
                    c03.export(cache[last], f, t.path)
                    target = want[last]
            else:
                c03.export(cache[last], f, t.path)
                target = want[last]
            before = fingerprint(t.path)
            what = f"{' then '.join(case['first'])}{' then edited' if case['rmw'] else ''} then {last}"
            for time in ("", "second ") if not case["rmw"] else ("",):
                try:
                    m = c03.load(f, t.path)
                except Exception as e:
                    r.bad(f"{f} {time}import {type(e).__name__}", f"export of {what}: the {time}import raised {type(e).__name__}: {str(e)[:200]}")
                    break
                c03.compare(r, f"{f} {time}import", f"after exporting {what} to {f}, {time}import", c03.clean(m, f), target, f)
                r.traces += 1
            if fingerprint(t.path) != before:
                r.bad(f"{f} target changed", f"importing {what} from {f} changed the target")
            if not os.listdir(t.dir) == [os.path.basename(t.path)]:
                r.bad(f"{f} other files", f"export of {what} left {os.listdir(t.dir)}")
            r.state(core.digest([f, history, case["rmw"]]))
    r.outcome((f, case["rmw"]))
    return r
