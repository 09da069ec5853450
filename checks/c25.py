"""C25: spatial clustering conserves what it aggregates."""
import itertools, math
from mc import core, nets, canon

ID = "C25"
HS = [0]
TECHNIQUE = "exhaustive enumeration of bus partitions x aggregation options x branch graphs of small networks, against direct summation over the original components"
RULE = ("clustering gives one bus per cluster, components at the cluster of their bus, conserved totals per cluster and carrier, one electrically equivalent line per pair of clusters, "
        "no branch inside a cluster, an untouched and unshared original, and the identity assignment reproduces the network")
ASSUMPTIONS = ["attributes without an aggregation strategy agree within a cluster (documented; otherwise rejected)", "line lengths are recomputed from the coordinates and impedances scaled in proportion (documented)",
               "unsolved networks; bus maps cover all buses"]
NB = 4
TOL = 1e-9


def partitions(k):
    """All set partitions of range(k) as restricted growth strings."""
    out = []

    def go(s, m):
        if len(s) == k:
            out.append(s)
            return
        for v in range(m + 2):
            go(s + [v], max(m, v))
    go([0], 0)
    return out


OPTIONS = {
    "default": {}, "gens": dict(aggregate_generators_weighted=True), "gens-wind": dict(aggregate_generators_weighted=True, aggregate_generators_carriers=["wind"]),
    "gens-none": dict(aggregate_generators_weighted=True, aggregate_generators_carriers=[]), "loads": dict(aggregate_one_ports=["Load"]),
    "sus": dict(aggregate_one_ports=["StorageUnit"]), "stores": dict(aggregate_one_ports=["Store"]),
    "all": dict(aggregate_generators_weighted=True, aggregate_one_ports=["Load", "StorageUnit", "Store"]), "gen-one-port": dict(aggregate_one_ports=["Generator"]),
    "no-time": dict(with_time=False), "no-time-all": dict(with_time=False, aggregate_generators_weighted=True, aggregate_one_ports=["Load", "StorageUnit", "Store"]),
    "factor": dict(line_length_factor=1.5), "no-scale": dict(scale_link_capital_costs=False), "group": dict(custom_line_groupers=["build_year"]),
    "strategy": dict(generator_strategies={"p_max_pu": "max", "marginal_cost": "min"}, aggregate_generators_weighted=True, line_strategies={"s_max_pu": "min"}, bus_strategies={"x": "max"}),
    "one-strategy": dict(aggregate_one_ports=["Load", "Store"], one_port_strategies={"Load": {"q_set": "max"}, "Store": {"e_initial": "sum"}}),
}
TIMES = ["flat", "one", "multi"]
MAPS = ["series", "dict", "shuffled", "names"]
VARIANTS = ["base", "bus-series", "typed", "geo0", "len0", "nodyn", "transformers"]


def BOUNDS(tier):
    return dict(tier=tier, buses=NB, partitions=15, options=list(OPTIONS), times=TIMES, maps=MAPS, variants=VARIANTS, graphs="all multigraphs on 3 buses with at most 3 lines, all orientations", stubs="all multigraphs on <= 5 buses with <= 5 lines")


def cases(tier):
    full = tier == "thorough"
    parts = partitions(NB)
    for o in OPTIONS:
        for i, p in enumerate(parts):
            for t, m, v in itertools.product(TIMES, MAPS, VARIANTS):
                dev = (t != "flat") + (m != "series") + (v != "base")
                if not full:
                    if dev > 1 or (dev and o not in ("default", "all")) or (o == "default" and dev and i % 2):
                        continue
                    if dev and o == "all" and i % 3:
                        continue
                elif dev > 2:
                    continue
                yield dict(kind="map", opt=o, part=p, time=t, map=m, var=v)
    for m in range(1, 4 if not full else 5):
        for g in nets.multigraphs(3, m):
            for orient in range(2 ** m):
                if not full and m == 3 and orient not in (0, 5, 2):
                    continue
                for p in partitions(3):
                    yield dict(kind="graph", edges=g, orient=orient, part=p)
    for nb in range(1, 6 if not full else 7):
        for m in range(0, min(nb + 1, 6)):
            yield dict(kind="stubs", nb=nb, m=m)
    for how in ("kmeans", "hac", "modularity", "hac-feature", "kmeans-sub"):
        for k in range(1, NB + 1):
            for e in ("path", "ring", "star"):
                yield dict(kind="auto", how=how, k=k, e=e)


def cost(case):
    return 0.5 if case["kind"] != "stubs" else 0.3


def tag(case):
    return f"{case['kind']}-{case.get('opt', case.get('how', ''))}-{case.get('var', '')}-{case.get('time', '')}"


XY = [(10.0, 50.0), (11.0, 50.5), (10.5, 52.0), (13.0, 49.0), (12.0, 51.0)]
V = [380.0, 380.0, 220.0, 380.0, 220.0]


def hav(a, b):
    (lon1, lat1), (lon2, lat2) = a, b
    lon1, lat1, lon2, lat2 = map(math.radians, (lon1, lat1, lon2, lat2))
    h = math.sin((lat2 - lat1) / 2) ** 2 + math.cos(lat1) * math.cos(lat2) * math.sin((lon2 - lon1) / 2) ** 2
    return 6371.000 * 2 * math.asin(math.sqrt(h))


def build(time, var, lines, nb=NB):
    import pandas as pd
    n = nets.new()
    if time == "flat":
        n.set_snapshots([0, 1, 2])
    elif time == "one":
        n.set_snapshots(pd.DatetimeIndex(["2030-01-01"], name="snapshot"))
    else:
        n.set_snapshots(pd.MultiIndex.from_product([[2020, 2030], [0, 1]], names=["period", "timestep"]))
        n.set_investment_periods([2020, 2030])
        n.investment_period_weightings["objective"] = [2.0, 3.0]
    T = len(n.snapshots)
    n.snapshot_weightings.iloc[:, :] = [[1.0 + 0.5 * t + 0.1 * c for c in range(3)] for t in range(T)]

    def s(*v):
        return [v[t % len(v)] + 0.01 * t for t in range(T)]
    n.add("Carrier", ["gas", "wind", "AC", "hydro"], co2_emissions=[0.2, 0.0, 0.0, 0.0], color=["r", "b", "k", "c"])
    for i in range(nb):
        x, y = XY[i] if var != "geo0" else (0.0, 0.0)
        n.add("Bus", f"b{i}", x=x, y=y, v_nom=V[i], carrier="AC", v_mag_pu_max=1.1 + 0.01 * i)
    if var == "bus-series":
        for i in range(nb):
            n.buses_t.v_mag_pu_set[f"b{i}"] = s(1.01, 1.02)
    if var == "typed":
        n.add("LineType", "mine", f_nom=50, r_per_length=0.03, x_per_length=0.3, c_per_length=10.0, i_nom=0.7)
    dyn = var != "nodyn"
    for i, (c, b, p) in enumerate([("wind", 0, 10.0), ("wind", 1, 30.0), ("gas", 1, 40.0), ("gas", 2, 50.0), ("wind", 3, 5.0), ("gas", 3, 25.0), ("wind", 0, 7.0)]):
        b = b % nb
        n.add("Generator", f"g{i}", bus=f"b{b}", carrier=c, p_nom=p, p_nom_max=p * 3 if i != 2 else math.inf, p_nom_min=p / 2, marginal_cost=5.0 + i, capital_cost=100.0 + 7 * i,
              p_max_pu=(s(0.3 + 0.1 * i, 0.9, 0.5) if c == "wind" and i != 6 and dyn else 0.95 - 0.01 * i), p_nom_extendable=c == "wind", efficiency=0.5 + 0.02 * i, ramp_limit_up=0.5 + 0.05 * i)
    if dyn:
        n.generators_t.marginal_cost["g3"] = s(4.0, 6.0)
    for i, b in enumerate([0, 1, 2, 2, 3]):
        n.add("Load", f"l{i}", bus=f"b{b % nb}", p_set=s(10.0 + i, 20.0) if i != 3 and dyn else 4.0, q_set=1.0 + i, carrier="" if i < 4 else "gas")
    for i, b in enumerate([0, 2, 3]):
        n.add("StorageUnit", f"s{i}", bus=f"b{b % nb}", carrier="hydro", p_nom=8.0 + i, p_nom_max=30.0 + i, capital_cost=10.0 + i, marginal_cost=0.1 * i, inflow=s(1.0 + i, 2.0) if dyn and i else 1.5, max_hours=4.0 + i)
    for i, b in enumerate([1, 1, 3]):
        n.add("Store", f"e{i}", bus=f"b{b % nb}", carrier="gas", e_nom=100.0 + i, e_nom_max=200.0 + i, e_initial=5.0, capital_cost=2.0 + i, e_cyclic=True)
    n.add("ShuntImpedance", "sh", bus=f"b{2 % nb}", b=1e-4)
    for i, (a, b) in enumerate(lines):
        L = hav(XY[a], XY[b])
        kw = dict(bus0=f"b{a}", bus1=f"b{b}", x=20.0 + 3 * i, r=2.0 + i, b=1e-5 * (i + 1), g=1e-6 * (i + 1), s_nom=100.0 + 10 * i, s_nom_max=500.0 + i, s_nom_min=1.0 * i, num_parallel=1.0 + i,
                  length=L * (1.25 if i % 2 else 1.0) if var != "len0" or i % 2 else 0.0, capital_cost=30.0 + i, s_max_pu=0.7 + 0.01 * i, build_year=2000 + 10 * (i % 2), s_nom_extendable=i == 2, terrain_factor=1.0 + 0.1 * i)
        if var == "typed":
            kw["type"] = "mine"
        n.add("Line", f"L{i}", **kw)
        if i == 1 and dyn:
            n.lines_t.s_max_pu["L1"] = s(0.4, 0.8, 0.6)
    if nb >= 4:
        n.add("Link", "k0", bus0="b0", bus1="b3", p_nom=20.0, capital_cost=11.0, length=300.0, efficiency=0.9, p_max_pu=s(0.5, 1.0) if dyn else 1.0)
        n.add("Link", "k1", bus0="b2", bus1="b1", bus2="b0", p_nom=30.0, capital_cost=12.0, efficiency=s(0.8, 0.7) if dyn else 0.8, efficiency2=0.3, length=0.0, p_min_pu=-0.2)
        n.add("Link", "k2", bus0="b3", bus1="b0", p_nom=7.0, capital_cost=13.0, marginal_cost=2.0)
        if var == "transformers":
            n.add("Transformer", "t0", bus0="b1", bus1="b2", x=0.1, s_nom=50.0, tap_ratio=1.05)
            n.add("Transformer", "t1", bus0="b0", bus1="b3", x=0.2, s_nom=60.0, s_max_pu=s(0.5, 0.6))
    n.add("GlobalConstraint", "co2", type="primary_energy", carrier_attribute="co2_emissions", constant=100.0, sense="<=")
    return n


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def dense(n, c, attr, name):
    """The attribute's effective values over all snapshots."""
    d = n.dynamic(c).get(attr)
    if d is not None and name in d.columns:
        return [float(v) for v in d[name]]
    return [float(n.static(c).at[name, attr])] * len(n.snapshots)


def wavg(vals, w):
    t = sum(w)
    return sum(v * x for v, x in zip(vals, w)) / t if t > 0 else sum(vals) / len(vals)


def check(res, key, got, want):
    res.transitions += 1
    if isinstance(want, list):
        ok = len(got) == len(want) and all(close(a, b) for a, b in zip(got, want))
    else:
        ok = close(got, want)
    if not ok:
        res.bad(key, f"{key}: {got!r} instead of {want!r}")
    return ok


SUMS = {"Generator": ["p_nom", "p_nom_max", "p_nom_min"], "StorageUnit": ["p_nom", "p_nom_max"], "Store": ["e_nom", "e_nom_max"], "Load": []}
CAPAVG = {"Generator": ["capital_cost", "efficiency", "marginal_cost", "p_max_pu", "p_min_pu"], "StorageUnit": ["capital_cost", "marginal_cost", "max_hours", "p_max_pu", "p_min_pu"], "Store": [], "Load": []}
CAP = {"Generator": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom"}
SERSUM = {"Generator": ["p_set"], "StorageUnit": ["inflow"], "Store": [], "Load": ["p_set", "q_set"]}
MEAN = {"Generator": ["ramp_limit_up"]}
TYPICAL = {"Generator": ["p_nom_extendable", "committable"], "StorageUnit": ["cyclic_state_of_charge"], "Store": ["e_cyclic", "e_initial"], "Load": ["sign"]}


def judge(res, n, nc, linemap, bm, kw, bc):
    ports = {"Generator": "bus", "Load": "bus", "StorageUnit": "bus", "Store": "bus", "ShuntImpedance": "bus"}
    tm = kw.get("with_time", True)
    clusters = sorted(set(bm.values()))
    if sorted(nc.buses.index) != clusters:
        res.bad("buses", f"clusters {clusters}, buses {sorted(nc.buses.index)}")
        return
    mem = {c: [b for b in n.buses.index if bm[b] == c] for c in clusters}
    for c in clusters:
        bs = n.buses.loc[mem[c]]
        xs = list(bs.x)
        check(res, "bus-x", nc.buses.at[c, "x"], max(xs) if bc.get("x") == "max" else sum(xs) / len(xs))
        check(res, "bus-y", nc.buses.at[c, "y"], sum(bs.y) / len(bs))
        check(res, "bus-v_nom", nc.buses.at[c, "v_nom"], max(bs.v_nom))
        check(res, "bus-v_mag_pu_max", nc.buses.at[c, "v_mag_pu_max"], min(bs.v_mag_pu_max))
        if tm:
            check(res, "bus-v_mag_pu_set", dense(nc, "Bus", "v_mag_pu_set", c), dense(n, "Bus", "v_mag_pu_set", mem[c][0]))
        check(res, "bus-carrier", nc.buses.at[c, "carrier"], "AC")
    if tm:
        if not nc.snapshots.equals(n.snapshots):
            res.bad("snapshots", f"{list(nc.snapshots)}")
            return
        if not nc.snapshot_weightings.equals(n.snapshot_weightings) or not nc.investment_period_weightings.equals(n.investment_period_weightings) or list(nc.investment_periods) != list(n.investment_periods):
            res.bad("weightings", "weightings or periods differ")
    # ------------------------------------------------------------- one ports
    agg = set(kw.get("aggregate_one_ports", ()))
    if kw.get("aggregate_generators_weighted"):
        agg.add("Generator")
    for c, cap in ports.items():
        st, sc = n.static(c), nc.static(c)
        if c not in agg or c == "ShuntImpedance":
            single, groups = list(st.index), {}
        else:
            sel = set(st.carrier) if c != "Generator" or kw.get("aggregate_generators_carriers") is None else set(kw["aggregate_generators_carriers"])
            single = [i for i in st.index if st.at[i, "carrier"] not in sel]
            groups = {}
            for i in st.index:
                if i not in single:
                    groups.setdefault((bm[st.at[i, "bus"]], st.at[i, "carrier"]), []).append(i)
        names = sorted(single + [" ".join(k).strip() for k in groups])
        if sorted(sc.index) != names:
            res.bad(f"{c}-names", f"{sorted(sc.index)} instead of {names}")
            continue
        for i in single:
            unchanged(res, n, nc, c, i, {"bus": bm[st.at[i, "bus"]]}, tm)
        strat = kw.get("generator_strategies", {}) if c == "Generator" and kw.get("aggregate_generators_weighted") else kw.get("one_port_strategies", {}).get(c, {})
        for (cl, car), ms in groups.items():
            k = " ".join((cl, car)).strip()
            check(res, f"{c}-bus", sc.at[k, "bus"], cl)
            check(res, f"{c}-carrier", sc.at[k, "carrier"], car)
            for a in SUMS[c]:
                check(res, f"{c}-{a}", sc.at[k, a], sum(st.at[i, a] for i in ms))
            w = [st.at[i, CAP[c]] for i in ms] if c in CAP else None
            ops = {**{a: "cap" for a in CAPAVG[c]}, **{a: "sum" for a in SERSUM[c]}, **{a: "mean" for a in MEAN.get(c, ())}, **strat}
            for a, op in ops.items():
                f = {"cap": lambda v: wavg(v, w), "sum": sum, "max": max, "min": min, "mean": lambda v: sum(v) / len(v)}[op]
                check(res, f"{c}-{a}", sc.at[k, a], f([float(st.at[i, a]) for i in ms]))
                if tm and a in n.dynamic(c) and a not in ("e_initial",):
                    d = [dense(n, c, a, i) for i in ms]
                    check(res, f"{c}-{a}-series", dense(nc, c, a, k), [f([x[t] for x in d]) for t in range(len(n.snapshots))])
            for a in TYPICAL[c]:
                if a not in strat:
                    check(res, f"{c}-{a}", sc.at[k, a], st.at[ms[0], a])
    # ------------------------------------------------------------- lines
    L, M = n.lines, nc.lines
    extra = kw.get("custom_line_groupers", [])
    groups = {}
    for i in L.index:
        a, b = bm[L.at[i, "bus0"]], bm[L.at[i, "bus1"]]
        if a != b:
            groups.setdefault((*sorted((a, b)), *[L.at[i, e] for e in extra]), []).append(i)
    found = {}
    for i in M.index:
        k = (*sorted((M.at[i, "bus0"], M.at[i, "bus1"])), *[M.at[i, e] for e in extra])
        if k in found:
            res.bad("line-twice", f"two lines for {k}")
        found[k] = i
    if set(found) != set(groups):
        res.bad("line-pairs", f"{sorted(found)} instead of {sorted(groups)}")
    else:
        fac = kw.get("line_length_factor", 1.0)
        ls = kw.get("line_strategies", {})
        for k, ms in groups.items():
            i = found[k]
            for m in ms:
                if linemap.get(m) != i:
                    res.bad("linemap", f"{m} -> {linemap.get(m)} instead of {i}")
            p, q = [(float(nc.buses.at[c, "x"]), float(nc.buses.at[c, "y"])) for c in k[:2]]
            length = hav(p, q) * fac
            check(res, "line-length", M.at[i, "length"], length)
            vnew = max(nc.buses.at[k[0], "v_nom"], nc.buses.at[k[1], "v_nom"])
            lf = [length / L.at[m, "length"] if L.at[m, "length"] > 0 else 1.0 for m in ms]
            vf = [(n.buses.at[L.at[m, "bus0"], "v_nom"] / vnew) ** 2 for m in ms]
            w = [L.at[m, "s_nom"] for m in ms]
            if not L.at[ms[0], "type"]:
                for a in ("x", "r"):
                    ad = [v / (f * L.at[m, a]) if f * L.at[m, a] else math.inf for m, f, v in zip(ms, lf, vf)]
                    check(res, f"line-{a}", M.at[i, a], 1 / sum(ad))
                for a in ("b", "g"):
                    check(res, f"line-{a}", M.at[i, a], sum(v * f * L.at[m, a] for m, f, v in zip(ms, lf, vf)))
            else:
                check(res, "line-type", M.at[i, "type"], L.at[ms[0], "type"])
            for a in ("s_nom", "s_nom_max", "s_nom_min", "num_parallel"):
                check(res, f"line-{a}", M.at[i, a], sum(L.at[m, a] for m in ms))
            check(res, "line-s_nom_extendable", bool(M.at[i, "s_nom_extendable"]), any(L.at[m, "s_nom_extendable"] for m in ms))
            check(res, "line-capital_cost", M.at[i, "capital_cost"], wavg([L.at[m, "capital_cost"] * f for m, f in zip(ms, lf)], w))
            check(res, "line-terrain", M.at[i, "terrain_factor"], sum(L.at[m, "terrain_factor"] for m in ms) / len(ms))
            f = min if ls.get("s_max_pu") == "min" else lambda v: wavg(v, w)
            if tm:
                d = [dense(n, "Line", "s_max_pu", m) for m in ms]
                check(res, "line-s_max_pu-series", dense(nc, "Line", "s_max_pu", i), [f([x[t] for x in d]) for t in range(len(n.snapshots))])
            else:
                check(res, "line-s_max_pu", M.at[i, "s_max_pu"], f([L.at[m, "s_max_pu"] for m in ms]))
    gone = [i for i in L.index if bm[L.at[i, "bus0"]] == bm[L.at[i, "bus1"]] and i in linemap]
    if gone:
        res.bad("linemap-inside", f"{gone} mapped")
    # ------------------------------------------------------------- links and transformers
    for c in ("Link", "Transformer"):
        st, sc = n.static(c), nc.static(c)
        keep = [i for i in st.index if bm[st.at[i, "bus0"]] != bm[st.at[i, "bus1"]]]
        if sorted(sc.index) != sorted(keep):
            res.bad(f"{c}-names", f"{sorted(sc.index)} instead of {sorted(keep)}")
            continue
        for i in keep:
            over = {b: bm[st.at[i, b]] for b in st.columns if b.startswith("bus") and b[3:].isdigit() and st.at[i, b]}
            if c == "Link":
                p, q = [(float(nc.buses.at[bm[st.at[i, e]], "x"]), float(nc.buses.at[bm[st.at[i, e]], "y"])) for e in ("bus0", "bus1")]
                L0 = st.at[i, "length"]
                over["length"] = hav(p, q) * kw.get("line_length_factor", 1.0) if L0 > 0 else 0.0
                if L0 > 0 and kw.get("scale_link_capital_costs", True):
                    over["capital_cost"] = st.at[i, "capital_cost"] * over["length"] / L0
            unchanged(res, n, nc, c, i, over, tm)
        for a, d in nc.dynamic(c).items():
            if set(d.columns) - set(keep):
                res.bad(f"{c}-series", f"series {a} of {sorted(set(d.columns) - set(keep))}")
    for c in ("Carrier", "GlobalConstraint", "LineType", "TransformerType"):
        if not canon.diff(tables(n, c), tables(nc, c)) == []:
            res.bad(c, f"{canon.diff(tables(n, c), tables(nc, c))}"[:300])


def tables(n, c):
    return {i: {a: canon.val(v) for a, v in row.items()} for i, row in n.static(c).sort_index().to_dict("index").items()}


def unchanged(res, n, nc, c, i, over, tm):
    st, sc = n.static(c), nc.static(c)
    a0 = n.components[c]["attrs"]
    for a in st.columns:
        if a in a0.index and a0.status[a].startswith("Output") or a == "control":     # one generator becomes the slack
            continue
        check(res, f"{c}-{a}-kept", sc.at[i, a] if a in sc else "missing", over.get(a, st.at[i, a]))
    if tm:
        for a, d in n.dynamic(c).items():
            if i in d.columns and not (a in a0.index and a0.status[a].startswith("Output")):
                check(res, f"{c}-{a}-series-kept", dense(nc, c, a, i), dense(n, c, a, i))
            elif a in st.columns and i in nc.dynamic(c)[a].columns:
                check(res, f"{c}-{a}-series-kept", dense(nc, c, a, i), dense(n, c, a, i))


def scribble(nc):
    """Change every value of the clustered network's tables in place."""
    for c in nc.components.keys():
        frames = [nc.static(c)] + list(nc.dynamic(c).values())
        for f in frames:
            for k in list(f.columns):
                if f[k].dtype.kind == "f" and len(f):
                    f.loc[f.index[0], k] = 123.456
    nc.snapshot_weightings.iloc[:, :] = 77.0
    nc.meta["scribble"] = 1


LINES = [(0, 1), (1, 0), (2, 1), (3, 2), (1, 3), (0, 2)]


def run(case):
    res = core.Result()
    if case["kind"] == "stubs":
        return stubs(case, res)
    if case["kind"] == "auto":
        return auto(case, res)
    import pandas as pd
    from pypsa.clustering.spatial import get_clustering_from_busmap
    if case["kind"] == "graph":
        edges = [tuple(e) if not case["orient"] >> i & 1 else tuple(e)[::-1] for i, e in enumerate(case["edges"])]
        n, kw, nb = build("flat", "base", edges, 3), {}, 3
    else:
        n, kw, nb = build(case["time"], case["var"], LINES), OPTIONS[case["opt"]], NB
    names = [f"c{v}" for v in case["part"]]
    mp = case.get("map", "series")
    if mp == "names":     # cluster named after the last of its buses
        last = {v: f"b{i}" for i, v in enumerate(case["part"])}
        names = [last[v] for v in case["part"]]
    bm = {f"b{i}": names[i] for i in range(nb)}
    arg = pd.Series(bm)
    if mp == "dict":
        arg = dict(bm)
    elif mp == "shuffled":
        arg = arg.iloc[::-1]
    before = canon.canon(n)
    argb = dict(arg)
    import copy
    kk = copy.deepcopy(kw)
    try:
        cl = get_clustering_from_busmap(n, arg, **kk)
    except AssertionError as e:
        res.bad("rejected", f"{e}"[:300])
        return res
    res.traces += 1
    if canon.diff(before, canon.canon(n)):
        res.bad("original-changed", f"{canon.diff(before, canon.canon(n))}"[:300])
    if dict(arg) != argb or kk != kw:
        res.bad("arguments-changed", f"{dict(arg)} {kk}")
    judge(res, n, cl.n, dict(cl.linemap), bm, kw, kw.get("bus_strategies", {}))
    res.state([case["kind"], case["part"], case.get("opt"), case.get("time"), case.get("var"), case.get("edges")])
    res.outcome([len(cl.n.buses), len(cl.n.lines), len(cl.n.links), len(cl.n.generators)])
    scribble(cl.n)
    if canon.diff(before, canon.canon(n)):
        res.bad("original-shared", f"changing the clustered network changes the original: {canon.diff(before, canon.canon(n))}"[:300])
    return res


def stubs(case, res):
    """Every graph: removing dead ends leaves the core, each tree mapped to its root."""
    from pypsa.clustering.spatial import busmap_by_stubs
    for edges in nets.multigraphs(case["nb"], case["m"]):
        n = nets.new()
        names = [f"b{i}" for i in range(case["nb"])]
        n.add("Bus", names, v_nom=[380.0 if i % 2 else 220.0 for i in range(case["nb"])])
        for k, (a, b) in enumerate(edges):
            n.add("Line", f"L{k}", bus0=names[a], bus1=names[b], x=0.1, s_nom=1.0)
        for attrs in (None, ["v_nom"]):
            bm = busmap_by_stubs(n, attrs)
            res.transitions += 1
            adj = {v: {w for a, b in edges for w in ((b,) if a == v else (a,) if b == v else ())} for v in range(case["nb"])}
            same = lambda u, v: attrs is None or u % 2 == v % 2
            alive = set(adj)
            # the set of survivors: repeatedly drop a dead end with an accepted neighbour
            rep = {v: int(bm[f"b{v}"][1:]) for v in adj}
            roots = set(rep.values())
            key = f"{edges} {attrs}"
            if any(rep[r] != r for r in roots):
                res.bad("stub-root", f"{key}: {rep}")
            while True:
                dead = [v for v in sorted(alive) if len(adj[v] & alive) == 1 and same(v, next(iter(adj[v] & alive)))]
                dead = [v for v in dead if not (len(adj[v] & alive) == 1 and next(iter(adj[v] & alive)) in dead and v in roots)] or dead[:1]
                if not dead:
                    break
                alive.discard(dead[0])
            if len(roots) != len(alive):
                res.bad("stub-number", f"{key}: {sorted(roots)} instead of {sorted(alive)}")
            for r in roots:
                ms = {v for v in adj if rep[v] == r}
                # members form a connected tree hanging off the root
                seen, todo = {r}, [r]
                while todo:
                    for w in adj[todo.pop()] & ms:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
                if seen != ms:
                    res.bad("stub-connected", f"{key}: {sorted(ms)}")
                if attrs and any(not same(v, r) for v in ms):
                    res.bad("stub-attrs", f"{key}: {sorted(ms)}")
        res.state([case["nb"], edges])
    res.traces += 1
    res.outcome([case["nb"], case["m"]])
    return res


EDGES = {"path": [(0, 1), (1, 2), (2, 3)], "ring": [(0, 1), (1, 2), (2, 3), (3, 0)], "star": [(0, 1), (0, 2), (0, 3)]}


def auto(case, res):
    import pandas as pd
    how, k = case["how"], case["k"]
    n = build("flat", "base", EDGES[case["e"]])
    before = canon.canon(n)
    w = pd.Series([1, 2, 1, 3], n.buses.index)
    if how == "kmeans":
        bm = n.cluster.busmap_by_kmeans(w, k, random_state=0)
        nc = n.cluster.cluster_spatially_by_kmeans(w, k, random_state=0)
    elif how == "kmeans-sub":
        bm = n.cluster.busmap_by_kmeans(w, min(k, 3), buses_i=n.buses.index[1:], random_state=0)
        if list(bm.index) != ["b1", "b2", "b3"]:
            res.bad("kmeans-sub", f"{dict(bm)}")
        nc, k = None, min(k, 3)
    elif how == "hac":
        bm = n.cluster.busmap_by_hac(k)
        nc = n.cluster.cluster_spatially_by_hac(k)
    elif how == "hac-feature":
        f = n.buses[["x", "y"]]
        bm = n.cluster.busmap_by_hac(k, feature=f, branch_components=["Line"])
        nc = n.cluster.cluster_spatially_by_hac(k, feature=f, branch_components=["Line"])
    else:
        bm = n.cluster.busmap_by_greedy_modularity(k)
        nc = n.cluster.cluster_spatially_by_greedy_modularity(k)
    res.traces += 1
    res.transitions += 1
    if how != "modularity" and canon.diff(before, canon.canon(n)):
        res.bad("original-changed", f"{how}: {canon.diff(before, canon.canon(n))}"[:300])
    if bm.isna().any() or bm.nunique() != k:
        res.bad("number-of-clusters", f"{how} {k}: {dict(bm)}")
    if how.startswith("hac") and how != "hac":   # connected clusters
        for c in set(bm):
            ms = {int(b[1:]) for b in bm.index if bm[b] == c}
            if len([s for s in nets.components(4, [e for e in EDGES[case["e"]] if set(e) <= ms]) if s & ms]) != 1:
                res.bad("hac-connected", f"{how} {k} {case['e']}: {dict(bm)}")
    if nc is not None:
        if sorted(nc.buses.index) != sorted(set(bm)):
            res.bad("auto-buses", f"{how}: {sorted(nc.buses.index)} {dict(bm)}")
        else:
            judge(res, n, nc, LM(n, nc, dict(bm)), dict(bm), {}, {})
    res.state([how, k, case["e"]])
    res.outcome(sorted(bm.value_counts()))
    return res


def LM(n, nc, bm):
    """Line map recovered from the clustered network (the accessor returns the network only)."""
    pair = {tuple(sorted((nc.lines.at[i, "bus0"], nc.lines.at[i, "bus1"]))): i for i in nc.lines.index}
    out = {}
    for i in n.lines.index:
        a, b = bm[n.lines.at[i, "bus0"]], bm[n.lines.at[i, "bus1"]]
        if a != b:
            out[i] = pair.get(tuple(sorted((a, b))))
    return out
