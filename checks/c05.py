"""C05: copies, slices and merges are exact and independent."""
import itertools
import pickle
from mc import canon, core, nets

ID = "C05"
HS = [0]
TECHNIQUE = "exhaustive enumeration of all bus and snapshot selections, all distributions of components over two networks and all copy arguments on richly filled networks; afterwards every cell, table, entry and component of either network is changed and the other one is re-read completely"
RULE = "copy, slice and merge equal the description computed from the original's full description; after any mutation of one network the complete description of the other is unchanged; a refused merge changes neither network"
ASSUMPTIONS = ["the order of merged components, custom columns only present in the merged-in network and standard types are not judged in a merge", "the sub-network assignment is reset in slices"]
NETS = {
    "int": dict(time="int", n_each=3), "dt": dict(time="dt", n_each=3, series="all"), "mi": dict(time="mi", n_each=3), "midt": dict(time="midt", n_each=2, series="all"),
    "half": dict(time="int", n_each=3, static="half", series="none", custom=False, meta="none", name=""), "names": dict(time="names", n_each=3, names="odd"), "default": dict(time="default", n_each=2), "mione": dict(time="mione", n_each=2),
}
STATES = ["plain", "topology", "lpf", "solved", "crs"]
MUT = ["cells", "series", "weights", "meta", "add", "addport", "remove", "snapshots", "topology", "rename", "columns", "attributes"]


def BOUNDS(tier):
    return "networks with 14 component types, 2-3 rows each and 5 kinds of time axes: all non-empty bus selections (list and mask) x all non-empty snapshot selections (mask, list, slice), all copy arguments with every non-empty snapshot subset, all splits of 3 rows of every type over two networks, 12 kinds of mutation of either side"


WAYS = ["copy", "copy snapshots", "copy some", "copy no time", "slice", "slice time", "slice some", "merge", "merge given", "merge inplace"]


def cases(tier):
    q = tier == "quick"
    for k in NETS:
        for s in STATES:
            if s in ("plain", "crs") or k == "int":
                yield dict(k="copy", net=k, state=s)
    for k in ["int", "midt", "mi"] if q else NETS:
        yield dict(k="copysns", net=k)
        for part in range(3):
            yield dict(k="slice", net=k, part=part, every=not q)
    for w in WAYS:
        for s in STATES:
            yield dict(k="independent", net="int", state=s, way=w)
        yield dict(k="independent", net="mi", state="plain", way=w, muts=["cells", "series", "weights", "snapshots"])
        if not q:
            for k in NETS:
                for s in ("plain", "crs"):
                    yield dict(k="independent", net=k, state=s, way=w)
    for k in ["int", "mi"] if q else NETS:
        for part in range(4):
            yield dict(k="merge", net=k, part=part, every=not q)
    yield dict(k="refused")


def build(key, state="plain"):
    if state in ("lpf", "solved", "topology"):
        n = nets.new(snapshots=[0, 1, 2], weightings=[0.5, 1, 2])
        n.name, n.meta = "solved", {"a": {"b": [1]}}
        nets.bulk(n, [["Carrier", "AC", {}], ["Bus", "a", {}], ["Bus", "b", {}], ["Bus", "c", {}], ["Bus", "d", {}], ["Line", "l", dict(bus0="a", bus1="b", x=0.1, s_nom=100)], ["Line", "m", dict(bus0="b", bus1="a", x=0.2, s_nom=100)], ["Link", "k", dict(bus0="b", bus1="c", bus2="d", efficiency2=0.5, p_nom=50)],
                      ["Generator", "g", dict(bus="a", p_nom=100, marginal_cost=1)], ["Generator", "h", dict(bus="c", p_nom=10, marginal_cost=5, p_max_pu=[0.5, 0.6, 0.7])], ["Load", "e", dict(bus="c", p_set=[1.0, 2.0, 9.0])], ["Store", "s", dict(bus="d", e_nom=100)]])
        if state == "topology":
            n.determine_network_topology()
        elif state == "lpf":
            n.lpf()
        else:
            nets.optimize(n)
        return n
    n = canon.rich(**NETS[key])
    if state == "crs":
        n.to_crs(3035)
    return n


def describe(n):
    d = canon.canon(n)
    for c in sorted(n.all_components):
        d["attrs", c] = tuple(n.components[c].attrs.index)
        d["defaults", c] = tuple(canon.val(x) for x in n.components[c].attrs.default)
    if len(n.sub_networks) and "obj" in n.sub_networks:
        d["owner"] = all(s.n is n for s in n.sub_networks.obj)
    return d


def owner(r, way, n, m):
    """The sub-networks of a derived network belong to it; judged once, then repaired to judge the rest."""
    if len(m.sub_networks) and "obj" in m.sub_networks and not all(s.n is m for s in m.sub_networks.obj):
        r.bad("sub-networks-of-" + way.replace(" ", "-"), f"after {way}, the sub-networks of the derived network are sub-networks of another network")
        m.sub_networks["obj"] = [nets.pypsa.SubNetwork(m, x) for x in m.sub_networks.index]


def expect(n, rows, sns, periods=None):
    """The description of n restricted to rows {component: names} and snapshot positions."""
    d = describe(n)
    out = {}
    labels = [canon.val(n.snapshots[i]) for i in sns]
    for k, v in d.items():
        if k == "snapshots":
            v = (tuple(labels), v[1])
        elif k == "periods":
            v = tuple(dict.fromkeys(x[0] for x in labels)) if v else ()
        elif isinstance(k, tuple):
            if k[0] == "snapshot_weightings":
                v = tuple(v[i] for i in sns)
            elif k[0] == "investment_period_weightings":
                ps = [canon.val(p) for p in n.investment_periods]
                v = tuple(dict(zip(ps, v))[p] for p in dict.fromkeys(y[0] for y in labels)) if ps else ()
            elif k[0] == "names":
                v = tuple(x for x in v if x in rows[k[1]])
            elif k[0] == "static":
                v = tuple(x for x, name in zip(v, d["names", k[1]]) if name in rows[k[1]])
                if not v:
                    continue
            elif k[0] == "dtype" and not rows[k[1]]:
                continue
            elif k[0] == "dynindex":
                cols = [x for x in d if isinstance(x, tuple) and x[0] == "dyn" and x[1:3] == k[1:3] and x[3] in rows[k[1]]]
                v = tuple(labels) if cols else len(labels)
            elif k[0] in ("dyn", "dyndtype"):
                if k[3] not in rows[k[1]]:
                    continue
                if k[0] == "dyn":
                    v = tuple(v[i] for i in sns)
        out[k] = v
    return out


def subsets(m, full=True):
    for size in range(1, m + 1):
        yield from itertools.combinations(range(m), size)


def compare(r, key, what, got, want, ignore=()):
    g = {k: v for k, v in got.items() if not (isinstance(k, tuple) and k[0] in ignore or k in ignore)}
    w = {k: v for k, v in want.items() if not (isinstance(k, tuple) and k[0] in ignore or k in ignore)}
    for d in (g, w):
        for k in list(d):
            if isinstance(k, tuple) and k[0] == "columns" and not d.get(("names", k[1])):
                del d[k]
            elif isinstance(k, tuple) and k[0] == "static":
                d[k] = tuple("" if x is None else x for x in d[k])
    bad = canon.diff(g, w)
    r.transitions += 1
    for b in bad[:3]:
        r.bad(f"{key} {b.split(':')[0][:60]}", f"{what}: {b}")
    return not bad


def run(case):
    r = core.Result()
    globals()["do_" + case["k"]](r, case)
    return r


def everything(n):
    return {c: set(n.static(c).index) for c in n.all_components}


def do_copy(r, case):
    n = build(case["net"], case["state"])
    d = describe(n)
    for name, f in (("copy()", lambda: n.copy()), ("copy(ignore_standard_types=False)", lambda: n.copy(ignore_standard_types=False)), ("copy(snapshots=n.snapshots)", lambda: n.copy(snapshots=n.snapshots)), ("copy(ignore_standard_types=True)", lambda: n.copy(ignore_standard_types=True))):
        m = f()
        what = f"{case['net']}/{case['state']} {name}"
        owner(r, "copy()" if name in ("copy()", "copy(ignore_standard_types=False)") else name, n, m)
        ok = compare(r, name, what, describe(m), d, () if "True" not in name else ())
        if name in ("copy()", "copy(ignore_standard_types=False)") and ok:
            if not (m == n and n == m):
                r.bad("equal", f"{what}: copy and original compare unequal")
        compare(r, "original", what, describe(n), d)
        r.traces += 1
        r.state(core.digest(what))
    r.outcome(case["state"])


def do_copysns(r, case):
    n = build(case["net"])
    d = describe(n)
    rows = everything(n)
    T = len(n.snapshots)
    sel = list(subsets(T)) + ([tuple(range(T))[::-1]] if T > 1 else [])
    for s in sel:
        idx = n.snapshots[list(s)]
        forms = [("index", idx), ("list", list(idx))]
        if len(s) == 1:
            forms.append(("label", idx[0]))
        for form, arg in forms:
            if form != "index" and len(s) > 1 and s != sel[-2]:
                continue
            m = n.copy(snapshots=arg)
            compare(r, f"copy(snapshots {form})", f"{case['net']} copy(snapshots={list(idx)}) as {form}", describe(m), expect(n, rows, s))
            r.traces += 1
            r.state(core.digest([case["net"], s, form]))
    m = n.copy(snapshots=[])
    if len(m.snapshots) != 1 or any(df.shape[1] for c in m.all_components for df in m.dynamic(c).values()) or m.has_periods:
        r.bad("copy(snapshots=[])", f"{case['net']}: copy(snapshots=[]) has snapshots {list(m.snapshots)} and series")
    if n.has_periods:
        for ps in subsets(len(n.investment_periods)):
            per = [n.investment_periods[i] for i in ps]
            s = [i for i, x in enumerate(n.snapshots) if x[0] in per]
            compare(r, "copy(investment_periods)", f"{case['net']} copy(investment_periods={per})", describe(n.copy(investment_periods=per)), expect(n, rows, s))
            compare(r, "copy(snapshots, investment_periods)", f"{case['net']} copy(snapshots, investment_periods={per})", describe(n.copy(snapshots=n.snapshots[s], investment_periods=per)), expect(n, rows, s))
            r.traces += 2
    compare(r, "original", f"{case['net']} after copying", describe(n), d)
    r.outcome(case["net"])


def selected(n, buses):
    rows = everything(n)
    rows["Bus"] = set(buses)
    rows["SubNetwork"] = set()
    for c in n.one_port_components:
        rows[c] = {x for x in n.static(c).index if n.static(c).bus[x] in buses}
    for c in n.branch_components:
        st = n.static(c)
        ports = [p for p in st.columns if p.startswith("bus") and (p[3:].isdigit())]
        rows[c] = {x for x in st.index if all(st.at[x, p] in buses or (st.at[x, p] == "" and p not in ("bus0", "bus1")) for p in ports)}
    return rows


def do_slice(r, case):
    import numpy as np
    n = build(case["net"])
    # varied attachments: all pairs of buses, a link with a third bus
    b = list(n.buses.index)
    for i, x in enumerate(n.lines.index):
        n.lines.loc[x, ["bus0", "bus1"]] = [b[i % len(b)], b[(i + 1) % len(b)]]
    for i, x in enumerate(n.links.index):
        n.links.loc[x, ["bus0", "bus1"]] = [b[(2 * i) % len(b)], b[(2 * i + 1) % len(b)]]
        if "bus2" in n.links:
            n.links.loc[x, "bus2"] = [b[-1], "", b[0]][i]
    d = describe(n)
    T = len(n.snapshots)
    allb = list(subsets(len(b)))
    count = 0
    for bs in (allb + ([(1, 0)] if len(b) > 1 else []))[case["part"]::3]:
        names = [b[i] for i in bs]
        rows = selected(n, names)
        mask = np.isin(np.arange(len(b)), bs)
        for t in [None] + (list(subsets(T)) if bs in (allb[0], allb[-1]) else [(0,)]):
            keys = []
            if t is None:
                keys = [("list", names), ("mask", mask), ("series mask", n.buses.index.to_series().isin(names))] + ([("slice", slice(names[0], names[-1]))] if list(bs) == list(range(bs[0], bs[-1] + 1)) else [])
            else:
                tm = np.isin(np.arange(T), t)
                keys = [("time mask", (tm, names)), ("time list", (list(n.snapshots[list(t)]), names)), ("time index", (n.snapshots[list(t)], mask))]
                if list(t) == list(range(t[0], t[-1] + 1)):
                    keys.append(("time slice", (slice(n.snapshots[t[0]], n.snapshots[t[-1]]), names)))
            count += 1
            for kind, key in keys if case["every"] else keys[count % len(keys):][:1]:
                m = n[key]
                want = expect(n, rows, list(range(T)) if t is None else t)
                want["names", "Bus"] = tuple(names) if "mask" not in kind and kind not in ("slice", "time index") else tuple(b[i] for i in sorted(bs))
                if want["names", "Bus"] != tuple(b[i] for i in sorted(bs)):
                    perm = [sorted(bs).index(i) for i in bs]
                    for k in list(want):
                        if isinstance(k, tuple) and k[:2] == ("static", "Bus"):
                            want[k] = tuple(want[k][i] for i in perm)
                for k in list(want):
                    if k == ("static", "Bus", "sub_network"):
                        want[k] = tuple("" for _ in bs)
                compare(r, f"slice {kind}", f"{case['net']}: n[{kind} {names}, {t}]", describe(m), want, ("objective", "objective_constant"))
                r.traces += 1
                r.state(core.digest([case["net"], kind, bs, t]))
    compare(r, "original", f"{case['net']} after slicing", describe(n), d)
    r.outcome(case["net"])


def poison(m, what):
    """Change everything of the named kind, in place as a user would."""
    import numpy as np
    import pandas as pd
    new = {"O": "poison", "f": -99.5, "i": -99, "b": None}
    if what == "cells":
        for c in sorted(m.all_components):
            df = m.static(c)
            for i, col in enumerate(df.columns):
                if col == "geometry":
                    continue
                if len(df) and (c, col) not in canon.SKIP:
                    k = df[col].dtype.kind
                    v = new[k] if k != "b" else not df[col].iloc[-1]
                    if i % 2:
                        df.iloc[-1, df.columns.get_loc(col)] = v
                    else:
                        df.loc[df.index[-1], col] = v
    elif what == "series":
        for c in sorted(m.all_components):
            for a, df in m.dynamic(c).items():
                if df.shape[1]:
                    df.iloc[0, 0] = -99.5
                    df[df.columns[-1]] = -1.25
                    try:
                        df.values[...] = -77.0
                    except ValueError:
                        pass
                elif len(m.static(c)):
                    df[m.static(c).index[0]] = 3.0
    elif what == "weights":
        for w in (m.snapshot_weightings, m.investment_period_weightings):
            if len(w):
                w.iloc[0, 0] = 55
                w["years" if "years" in w else "stores"] = 44.0
                w.loc[w.index[-1], "objective"] = 33
    elif what == "meta":
        def rec(o):
            for k in list(o) if isinstance(o, dict) else range(len(o)):
                if isinstance(o[k], (dict, list)):
                    rec(o[k])
                else:
                    o[k] = "poison"
            if isinstance(o, dict):
                o["poison"] = 1
            else:
                o.append("poison")
        rec(m.meta)
    elif what == "add":
        for c in canon.COMPS:
            if c != "Shape":
                m.add(c, ["poison"], **({"bus": "poison"} if c in m.one_port_components else {}))
    elif what == "addport":
        m.add("Link", "poison", bus0=m.buses.index[0], bus1=m.buses.index[0], bus7=m.buses.index[0], efficiency7=0.25)
    elif what == "remove":
        for c in sorted(m.all_components):
            m.remove(c, list(m.static(c).index))
    elif what == "snapshots":
        m.set_snapshots(["x", "y"])
        m.set_investment_periods([2077])
    elif what == "topology":
        for s in list(m.sub_networks.get("obj", [])):
            if len(s.buses_i()) > 1:
                s.calculate_PTDF()
            s.lpf()
        m.determine_network_topology(skip_isolated_buses=True)
    elif what == "rename":
        for c in canon.COMPS:
            m.components[c].rename_component_names(**{str(x): f"{x} poison" for x in m.static(c).index})
    elif what == "columns":
        for c in canon.COMPS:
            m.static(c)["poison"] = 1.0
            if "p_nom" in m.static(c):
                m.static(c).drop(columns="p_nom", inplace=True)
            m.dynamic(c)["poison"] = pd.DataFrame(index=m.snapshots)
            m.dynamic(c).pop("p", None)
            m.static(c).index.name = "poison"
    elif what == "attributes":
        m.name = "poison"
        m.objective = -1.0
        m.to_crs(25832)


def do_independent(r, case):
    def merged(n):
        other = nets.pypsa.Network(ignore_standard_types=False)
        other.set_snapshots(n.snapshots)
        other.snapshot_weightings = n.snapshot_weightings.copy()
        other.investment_period_weightings = n.investment_period_weightings.copy()
        other.add("Bus", "other")
        other.add("Load", "otherload", bus="other", p_set=range(len(n.snapshots)))
        return other

    def merge_receiving(n):
        return n.merge(merged(n))

    def merge_given(n):
        return merged(n).merge(n)

    def merge_given_inplace(n):
        o = merged(n)
        o.merge(n, inplace=True)
        return o

    ways = {"copy": lambda n: n.copy(), "copy snapshots": lambda n: n.copy(snapshots=n.snapshots), "copy some": lambda n: n.copy(snapshots=n.snapshots[:1]), "copy no time": lambda n: n.copy(snapshots=[]), "slice": lambda n: n[n.buses.index],
            "slice time": lambda n: n[n.snapshots, n.buses.index], "slice some": lambda n: n[n.snapshots[:1], n.buses.index[:1]], "merge": merge_receiving, "merge given": merge_given, "merge inplace": merge_given_inplace}
    way, f = case["way"], ways[case["way"]]
    state = case["state"]
    muts = case.get("muts", MUT)
    if state in ("lpf", "topology", "solved"):
        # expensive to build: changes to the derived network leave the original as it was (judged),
        # changes to the original accumulate
        muts = ["series", "topology", "weights", "meta", "cells"]
        base = build(case["net"], state)
    elif state == "crs":
        muts = ["attributes"]
    for side in ("derived", "original"):
        m = None
        for mut in muts:
            if state == "crs" and "merge" in way:
                continue
            if state in ("lpf", "topology", "solved"):
                n = base
                m = f(n) if side == "derived" or m is None else m
                owner(r, "copy()" if way == "copy" else way, n, m)
            else:
                n = build_cached(case)
                m = f(n)
            a, b = (m, n) if side == "derived" else (n, m)
            before = describe(b)
            poison(a, mut)
            compare(r, f"{mut} of {way}", f"{case['net']}/{state}: {mut} of the {side} network of {way} seen in the other", describe(b), before)
            r.traces += 1
            r.state(core.digest([case["net"], state, way, mut, side]))
    r.outcome(case["state"])


_cache = {}


def build_cached(case):
    key = (case["net"], case["state"])
    if case["state"] in ("lpf", "solved", "topology"):
        return build(*key)
    if key not in _cache:
        _cache[key] = pickle.dumps(build(*key))
    return pickle.loads(_cache[key])


def part(n, side):
    """Remove the rows of the other side."""
    m = pickle.loads(pickle.dumps(n))
    for c, keep in side.items():
        m.remove(c, [x for x in m.static(c).index if x not in keep])
    return m


def do_merge(r, case):
    n = build(case["net"])
    types = [c for c in canon.COMPS if c not in ("LineType", "TransformerType")]
    rows = {c: list(n.static(c).index) for c in types}
    m0 = len(rows["Bus"])
    full = describe(n)
    # the same split for all types, and each type on its own against the buses
    splits = []
    for s in range(2 ** m0):
        splits.append({c: [x for i, x in enumerate(rows[c]) if s >> i & 1] for c in types})
    for c in types:
        splits.append({k: (rows[k] if k != c else rows[k][:1]) for k in types})
        splits.append({k: ([] if k != c else rows[k][1:]) for k in types})
    for i, side in list(enumerate(splits))[case["part"]::4]:
        a = part(n, side)
        b = part(n, {c: [x for x in rows[c] if x not in side[c]] for c in types})
        # standard and custom types stay with both: not merged
        da, db = describe(a), describe(b)
        for inplace, with_time in ((False, True), (True, True), (False, False)) if case["every"] or i < 8 else ((True, True),):
            a1 = pickle.loads(pickle.dumps(a))
            try:
                m = a1.merge(b, inplace=inplace, with_time=with_time)
            except Exception as e:
                r.bad(f"merge {type(e).__name__}", f"{case['net']}: merging {side} raised {type(e).__name__}: {str(e)[:200]}")
                continue
            if inplace:
                if m is not None:
                    r.bad("merge inplace", "merge in place returned something")
                m = a1
            else:
                compare(r, "merge receiving", f"{case['net']}: the receiving network after merging", describe(a1), da)
            compare(r, "merge given", f"{case['net']}: the given network after merging", describe(b), db)
            got, want = describe(m), dict(full)
            for d in (got, want):
                for c in canon.COMPS:
                    order = sorted(range(len(d["names", c])), key=lambda i: d["names", c][i])
                    for k in list(d):
                        if isinstance(k, tuple) and k[0] in ("names", "static") and k[1] == c:
                            d[k] = tuple(d[k][i] for i in order)
            outs = {c: [x for x in n.components[c].attrs.index[n.components[c].attrs.varying] if not n.components[c].attrs.at[x, "static"]] for c in types}
            drop = set()
            for k in list(got) + list(want):
                if not isinstance(k, tuple) or len(k) < 2 or len(k) < 3 and k[0] != "columns" or k[1] not in types:
                    continue
                if k[0] in ("columns", "dtype") and (not side[k[1]] or k[0] == "dtype"):
                    drop.add(k)
                # custom attributes only present in the given network may be ignored
                if k[0] == "static" and k[2].startswith("my_") and not side[k[1]] or k[0] in ("dyn", "dynindex", "dyndtype") and k[2].startswith("my_"):
                    drop.add(k)
                if k[0] in ("dyn", "dyndtype", "dynindex") and (not with_time and (k[0] != "dyn" or k[3] not in side[k[1]])):
                    drop.add(k)
                # outputs get default series for all components as soon as one has them
                if k[0] in ("dyn", "dyndtype", "dynindex") and k[1] in outs and k[2] in outs[k[1]] and (k not in want or isinstance(want[k], int)):
                    drop.add(k)
            for k in drop:
                got.pop(k, None), want.pop(k, None)
            if with_time is False:
                for k in [k for k in got if isinstance(k, tuple) and k[0] == "dyn" and k[1] in types and k[3] not in side[k[1]]]:
                    r.bad("merge with_time", f"{k} merged without time")
            compare(r, f"merge {'inplace' if inplace else ''}{'' if with_time else ' static'}", f"{case['net']}: merging {[c for c in types if len(side[c]) < len(rows[c])]} inplace={inplace} with_time={with_time}", got, want)
            r.traces += 1
            r.state(core.digest([case["net"], side, inplace, with_time]))
    r.outcome(case["net"])


def do_refused(r, case):
    """Overlaps and misaligned snapshots are refused without any change."""
    base = build("int")
    p = pickle.dumps(base)
    only = lambda c: {k: ([] if k != c else list(base.static(c).index)) for k in canon.COMPS}
    for c in canon.COMPS:
        if c in ("LineType", "TransformerType"):
            continue
        for others in ("nothing", "fresh"):
            a, b = pickle.loads(p), part(base, only(c))
            if others == "fresh":
                b.add("Bus", "fresh", x=1.0)
                b.add("Generator", "fresh", bus="fresh")
            refused(r, f"overlapping {c}", a, b)
    for what, f in (("snapshots", lambda n: n.set_snapshots([7, 8, 9])), ("fewer snapshots", lambda n: n.set_snapshots([0, 1])), ("order", lambda n: n.set_snapshots([2, 1, 0])), ("weightings", lambda n: n.snapshot_weightings.__setitem__("stores", 9.0)), ("one weighting", lambda n: n.snapshot_weightings.loc.__setitem__((0, "generators"), 9.0))):
        b = nets.pypsa.Network()
        b.set_snapshots([0, 1, 2])
        b.snapshot_weightings = base.snapshot_weightings.copy()
        b.add("Bus", "fresh")
        f(b)
        refused(r, what, pickle.loads(p), b)
        # without time data it is fine
        a = pickle.loads(p)
        m = a.merge(b, with_time=False)
        if list(m.snapshots) != [0, 1, 2] or "fresh" not in m.buses.index or len(m.buses) != len(a.buses) + 1:
            r.bad("with_time", f"merging without time data of {what} gave {list(m.snapshots)} {list(m.buses.index)}")
    a, b = pickle.loads(p), part(base, only("Load"))
    b.add("Bus", "fresh")
    m = a.merge(b, components_to_skip=["Load"])
    if list(m.loads.index) != list(a.loads.index) or "fresh" not in m.buses.index:
        r.bad("components_to_skip", "skipping a component type failed")
    r.traces += 1
    r.outcome("refused")


def refused(r, what, a, b):
    da, db = describe(a), describe(b)
    for inplace in (False, True):
        try:
            a.merge(b, inplace=inplace)
            r.bad(f"refused {what}", f"merge with {what} was accepted")
        except ValueError:
            pass
        compare(r, f"refused {what}", f"receiving network after a refused merge ({what})", describe(a), da)
        compare(r, f"refused {what}", f"given network after a refused merge ({what})", describe(b), db)
    try:
        a + b
        r.bad(f"refused {what}", f"+ with {what} was accepted")
    except ValueError:
        pass
    r.traces += 1
    r.state(core.digest(what))
