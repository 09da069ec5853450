"""C03: export followed by import reproduces the network in every format."""
import itertools
import math
import os
import shutil
import tempfile
from mc import canon, core, nets

ID = "C03"
HS = [0]
TECHNIQUE = "exhaustive enumeration of network shapes (component sets, attribute patterns, time axes, names, meta data, custom data) x formats x options, each exported and re-imported with the real code and compared with a complete description"
RULE = "the complete description (components, names, order, static values and types, series, snapshots, weightings, periods, meta, crs, attributes) of the imported network equals the exported one's; the exported network is unchanged"
ASSUMPTIONS = ["derived attributes (sub_network, r_pu ... b_pu) and series which only hold the default of a component with that default are not stored", "text formats: numbers agree to 1e-14; custom text which reads as a number and empty custom text are not judged", "missing custom values: NaN, None and empty text are the same"]
FORMATS = ["nc", "h5", "csv", "xlsx"]
EXT = {"nc": ".nc", "h5": ".h5", "csv": "", "xlsx": ".xlsx"}
DERIVED = {"sub_network", "r_pu", "x_pu", "g_pu", "b_pu", "r_pu_eff", "x_pu_eff", "s_nom_pu"}


def BOUNDS(tier):
    return "4 formats x 9 time axes x attribute patterns (all set, half set, each attribute alone, series of default values) x every component type alone, 4 name styles, meta data styles, ragged custom columns, network attributes, type tables and export/import options"


def cases(tier):
    q = tier == "quick"
    for f in FORMATS:
        yield dict(f=f, k="rich", kw=dict(time="int", n_each=2))
        for time in canon.TIMES:
            yield dict(f=f, k="rich", kw=dict(time=time, n_each=2, comps=["Bus", "Carrier", "Generator", "Link", "StorageUnit"], static="half"))
        for c in canon.COMPS[2:]:
            yield dict(f=f, k="rich", kw=dict(time="one", n_each=1, comps=["Bus", c], meta="none", custom=False, name=""))
        yield dict(f=f, k="rich", kw=dict(time="mi", n_each=3, series="all", names="same"))
        yield dict(f=f, k="rich", kw=dict(time="dt", n_each=3, series="none", names="odd"))
        for k in ("singles", "plain", "ragged", "netattrs", "names", "metas", "types", "times", "shapes", "orders", "solved"):
            parts = 6 if f == "xlsx" and k in ("names", "metas", "times", "ragged", "orders", "netattrs") else 1
            for part in range(parts):
                yield dict(f=f, k=k, part=part, parts=parts)
        yield dict(f=f, k="options")
        if not q:
            for time, static, series, names, custom in itertools.product(canon.TIMES, ("full", "half", "none"), ("some", "all", "none"), ("plain", "odd", "same"), (True, False)):
                yield dict(f=f, k="rich", kw=dict(time=time, static=static, series=series, names=names, custom=custom, n_each=3))
            for time in canon.TIMES:
                for c in canon.COMPS[2:]:
                    yield dict(f=f, k="rich", kw=dict(time=time, n_each=2, comps=["Bus", c]))


class Target:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c03")
        self.path = os.path.join(self.dir, "net" + EXT[self.f])
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def export(n, f, path, **kw):
    return {"nc": n.export_to_netcdf, "h5": n.export_to_hdf5, "csv": n.export_to_csv_folder, "xlsx": n.export_to_excel}[f](path, **kw)


def load(f, path, **kw):
    n = nets.pypsa.Network(**kw.pop("init", {}))
    {"nc": n.import_from_netcdf, "h5": n.import_from_hdf5, "csv": n.import_from_csv_folder, "xlsx": n.import_from_excel}[f](path, **kw)
    return n


def missing(x):
    return x is None or x == "nan" or x == ""


def clean(n, f, extra=()):
    """The part of the description which a stored network has to reproduce."""
    d = canon.canon(n, skip=("SubNetwork",))
    out = {}
    for k, v in d.items():
        if isinstance(k, tuple):
            if k[0] in ("static", "dtype") and k[2] in DERIVED or k[0] in ("dynindex", "dyndtype"):
                continue
            at = n.components[k[1]].attrs if k[1] in n.all_components else None
            if k[0] == "columns":
                v = tuple(x for x in v if d["names", k[1]] and (x not in at.index) and any(not missing(y) for y in d["static", k[1], x]))
            if k[0] == "dtype":
                if k[2] not in at.index:
                    if any(missing(y) for y in d["static", k[1], k[2]]) or f == "xlsx":
                        continue
                    v = n.static(k[1])[k[2]].dtype.kind
            if k[0] == "static" and k[2] not in at.index:
                if all(missing(y) for y in v):
                    continue
                v = tuple(None if missing(y) else y for y in v)
                if f == "xlsx":
                    v = tuple(float(y) if isinstance(y, int) and not isinstance(y, bool) else y for y in v)
            if k[0] == "dyn" and k[2] in at.index:
                default = canon.val(at.at[k[2], "default"])
                st = n.static(k[1])
                static = canon.val(st.at[k[3], k[2]]) if k[2] in st and k[3] in st.index else default
                if all(x == default for x in v) and static == default:
                    continue
        if k in ("objective_constant",):
            continue
        out[k] = v
    for a in extra:
        out["attr", a] = canon.val(getattr(n, a, "missing"))
    return out


def near(x, y):
    if x == y:
        return type(x) is type(y) or not isinstance(x, (bool, str)) and not isinstance(y, (bool, str))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, (int, float)) and math.isfinite(x) and math.isfinite(y):
        return abs(x - y) <= 1e-14 * max(abs(x), abs(y))
    return False


def compare(r, key, what, got, want, f, tol=None):
    r.transitions += 1
    bad = 0
    for k in list(want) + [k for k in got if k not in want]:
        x, y = want.get(k, "missing"), got.get(k, "missing")
        if x == y or f in ("csv", "xlsx") and near(x, y) or tol and tol(x, y):
            continue
        bad += 1
        if bad <= 4:
            kk = k if isinstance(k, str) else "/".join(map(str, k[:3]))
            r.bad(f"{key} {kk}", f"{what}: {k} was {str(x)[:150]} and is {str(y)[:150]} after the round trip")
    return not bad


def roundtrip(r, f, n, what, key="", extra=(), tol=None, export_kw={}, load_kw={}, edit=lambda d: None):
    r.counter = getattr(r, "counter", -1) + 1
    if r.counter % getattr(r, "parts", 1) != getattr(r, "part", 0):
        return None
    before = canon.canon(n)
    want = clean(n, f, extra)
    edit(want)
    with Target(f) as t:
        try:
            export(n, f, t.path, **export_kw)
            r.traces += 1
            compare(r, f"{f} exported network {key}", f"{what} during export to {f}", canon.canon(n), before, None)
            m = load(f, t.path, **load_kw)
        except Exception as e:
            import traceback
            at = traceback.extract_tb(e.__traceback__)
            at = [x for x in at if "/pypsa/" in x.filename][-1:]
            r.bad(f"{f} {key} {type(e).__name__}", f"{what}: storing as {f} and reading back raised {type(e).__name__}: {str(e)[:200]} ({at})")
            return None
    got = clean(m, f, extra)
    compare(r, f"{f} {key}", f"{what} as {f}", got, want, f, tol)
    r.state(core.digest([f, what]))
    return m


def run(case):
    r = core.Result()
    f = case["f"]
    r.part, r.parts = case.get("part", 0), case.get("parts", 1)
    if case["k"] == "rich":
        n = canon.rich(**case["kw"])
        roundtrip(r, f, n, f"network {case['kw']}")
    else:
        globals()["do_" + case["k"]](r, f)
    r.outcome((f, case["k"]))
    return r


def base(sns=(0, 1, 2), **kw):
    n = nets.new(snapshots=list(sns) if sns is not None else None, **kw)
    nets.bulk(n, [["Bus", "b0", {}], ["Bus", "b1", dict(v_nom=110.0)]])
    return n


def do_singles(r, f):
    """Every attribute of every type non-default in exactly one row; every series alone; series at the default over non-default static values."""
    import pandas as pd
    comps = canon.COMPS
    n = base()
    m = base()
    nm = {c: ["b0", "b1"] if c == "Bus" else ["c0"] for c in comps}
    for c in comps:
        if c == "Bus":
            continue
        at = n.components[c].attrs
        req = {a: nm[canon.REF[a]][0] for a in at.index if a in canon.REF and at.at[a, "status"].startswith("Input (req")}
        if c == "Shape":
            from shapely.geometry import Point
            req["geometry"] = Point(0, 1)
        sattrs = [a for a in at.index if at.at[a, "static"] and a not in ("name", "geometry", "type") and a not in req and a not in DERIVED]
        for net in (n, m):
            net.add(c, [f"{c} {a}" for a in sattrs] + [f"{c} none"], **req)
        st = n.static(c).copy()
        for j, a in enumerate(sattrs):
            if a in canon.REF:
                v = nm[canon.REF[a]][-1]
            else:
                v = canon.value(c, a, at.at[a, "typ"], 1, j, nm)
            st[a] = st[a].astype(object)
            st.at[f"{c} {a}", a] = v
        for a in sattrs:
            n.static(c)[a] = st[a].astype(n.static(c)[a].dtype)
        rows = list(n.static(c).index)
        for j, a in enumerate(at.index[at.varying]):
            d = at.at[a, "default"]
            n.dynamic(c)[a] = pd.DataFrame({rows[j % len(rows)]: [0.5 + j, 1.5, 2.25]}, index=n.snapshots)
            # series that hold the default everywhere, over static values that do not
            if at.at[a, "static"]:
                m.static(c).loc[rows[0], a] = 0.375
                m.dynamic(c)[a] = pd.DataFrame({x: [float(d)] * 3 for x in rows[:2]}, index=m.snapshots)
    roundtrip(r, f, n, "each attribute alone", "singles")
    roundtrip(r, f, m, "series of default values over other static values", "default series")


def do_plain(r, f):
    """Networks in which nothing but the names is given; integers and infinities; no snapshots attributes."""
    n = base(None)
    roundtrip(r, f, n, "two buses", "plain")
    n = base()
    for c in canon.COMPS:
        if c not in ("Bus", "Shape"):
            n.add(c, ["x", "y"], **{a: "b0" for a in n.components[c].attrs.index if a in ("bus", "bus0", "bus1")})
    roundtrip(r, f, n, "all defaults", "plain")
    n.set_snapshots([3, 5])
    n.snapshot_weightings.loc[3, "stores"] = 2.5
    n.generators.loc["x", ["p_nom_max", "p_nom_min", "marginal_cost"]] = [0.0, -0.0, 1e300]
    n.lines.loc["y", "s_nom_max"] = 5e-324
    roundtrip(r, f, n, "extreme numbers", "plain")
    for v in (0, 1, 3):
        n = base(range(v + 1), periods=None)
        n.add("Load", "l", bus="b0", p_set=[float(t) for t in range(v + 1)])
        roundtrip(r, f, n, f"{v + 1} snapshots", "plain")


def do_ragged(r, f):
    """Custom columns given for some components only, of every kind of value, and several per type."""
    vals = {"text": "DE", "float": 2.5, "int": 3, "bool": True, "false": False, "zero": 0.0}
    for kind, v in vals.items():
        for rows in ([0], [1], [0, 1], [0, 1, 2]):
            n = base()
            for i in range(3):
                n.add("Generator", f"g{i}", bus="b0", **({f"my_{kind}": v} if i in rows else {}))
            if kind == "text":
                n.add("Bus", "b2", country="NA,\"x\"; y\tz 'ä€")
            roundtrip(r, f, n, f"custom {kind} for generators {rows}", f"ragged {kind}")
    n = base()
    n.add("Generator", ["g0", "g1"], bus="b0")
    n.generators["a"] = [1, 2]
    n.generators["t_min"] = [1.5, 2.5]
    n.generators["b"] = ["u", "v"]
    n.generators["c"] = [True, False]
    n.buses["p_nom"] = [0.5, 1.5]
    n.generators["some space"] = [0.25, 0.5]
    n.generators_t["my_series"] = nets_frame(n, {"g0": [1.5, 2.5, 3.5]})
    n.generators_t["my_ints"] = nets_frame(n, {"g1": [1, 2, 3], "g0": [0, 0, 0]})
    n.generators_t["weights-a_b"] = nets_frame(n, {"g1": [1.25, 0, 0]})
    roundtrip(r, f, n, "custom columns and series", "custom")


def nets_frame(n, d):
    import pandas as pd
    return pd.DataFrame(d, index=n.snapshots)


def do_netattrs(r, f):
    for name in ("", "net", "2030", "1.50", "a b,c\"d'", "ä", "True", "None"):
        n = base()
        n.name = name
        roundtrip(r, f, n, f"network name {name!r}", "network name")
    n = base()
    n.my_text, n.my_number, n.my_int = "text", 2.5, 7
    roundtrip(r, f, n, "network attributes", "network attributes", extra=("my_text", "my_number", "my_int"))
    for crs in (4326, 3035, 25832):
        n = base()
        if crs != 4326:
            n.to_crs(crs)
        m = roundtrip(r, f, n, f"crs {crs}", "crs")
        # a network read later is not affected
    n = base()
    n._objective = 12.5
    roundtrip(r, f, n, "objective", "objective", extra=("objective",))


def do_names(r, f):
    """Names which are numbers, markers of missing values, time levels, contain separators ..."""
    sets = [["1", "2"], ["01", "1"], ["0.50", "0.5"], ["1e3", "inf"], ["nan", "NA"], ["None", "null"], ["True", "False"], ["snapshot", "period"], ["name", "timestep"], ["a,b", "c\"d"], ["ä", "日本"], ["a/b", "a.b"], [" a", "a "], ["x-y", "x_y"], ["2030-01-01", "2030-01-01 00:00"], ["A", "a"], ["index", "level_0"], ["snapshots", "generators_i"]]
    for a, b in sets:
        n = nets.new(snapshots=[0, 1])
        n.add("Carrier", [a, b], co2_emissions=[0.1, 0.2])
        n.add("Bus", [a, b], carrier=[a, b])
        n.add("Generator", [b, a], bus=[a, b], carrier=[b, a], p_nom=[1.0, 2.0])
        n.add("Line", [a], bus0=a, bus1=b, x=0.5)
        n.add("Link", [a, b], bus0=a, bus1=b, bus2=[a, ""], efficiency2=0.5)
        n.generators_t.p_max_pu = nets_frame(n, {a: [0.25, 0.5], b: [0.75, 1.0]})
        n.links_t.p = nets_frame(n, {b: [0.25, 0.5]})
        roundtrip(r, f, n, f"names {a!r} {b!r}", f"names {a!r}")
    n = nets.new(snapshots=[0, 1])
    n.add("Bus", [str(i) for i in range(12)])
    n.add("Load", [str(i) for i in range(11, -1, -1)], bus=[str(i) for i in range(12)], p_set=1.5)
    n.loads_t.p_set = nets_frame(n, {str(i): [i + 0.5, i + 0.25] for i in (11, 2, 10, 1)})
    roundtrip(r, f, n, "number names", "names numbers")


def do_metas(r, f):
    metas = [{}, {"a": 1}, {"a": None}, {"a": True, "b": False}, {"a": [1, 2]}, {"a": {}}, {"a": []}, {"a": {"b": {"c": [None, {"d": 1.5}]}}}, {"a": "1"}, {"a": "text", "b": ""}, {"a": "{\"b\": 1}"}, {"a": "[1]"}, {"a b": 1.5}, {"1": 2}, {"a": "nan"}, {"nan": 1}, {"a": 1.0}, {"a": 0}, {"a": "x" * 500}, {"ä": "€\n\t"}, {"a": 2 ** 40}, {"a": "true"}, {"a": "2030-01-01"}]
    for meta in metas:
        n = base()
        n.meta = meta
        roundtrip(r, f, n, f"meta {str(meta)[:60]}", f"meta {str(meta)[:30]}")


def do_types(r, f):
    n = base()
    n.add("LineType", "mine", x_per_length=0.5, r_per_length=0.1, f_nom=50.0)
    n.add("TransformerType", "mine too", s_nom=5.0, vsc=2.5, tap_neutral=1)
    n.add("Line", "l", bus0="b0", bus1="b1", type="mine", length=2.5)
    n.add("Transformer", "t", bus0="b0", bus1="b1", type="mine too")
    roundtrip(r, f, n, "own types", "types")
    n.line_types.loc[n.line_types.index[0], "x_per_length"] = 77.0
    roundtrip(r, f, n, "all types", "types", export_kw=dict(export_standard_types=True), load_kw=dict(init=dict(ignore_standard_types=True)))
    n = nets.pypsa.Network(ignore_standard_types=True)
    n.set_snapshots([0, 1, 2])
    n.add("Bus", ["b0", "b1"])
    roundtrip(r, f, n, "without standard types", "types", load_kw=dict(init=dict(ignore_standard_types=True)))
    n.add("LineType", "mine", x_per_length=0.5)
    roundtrip(r, f, n, "without standard types", "types", load_kw=dict(init=dict(ignore_standard_types=True)))


def do_times(r, f):
    """Time axes of many kinds, with series, weightings and period weightings."""
    import pandas as pd
    axes = {"now": ["now"], "one int": [2030], "falling": [2, 1, 0], "gaps": [1, 5, 7], "negative": [-1, 0], "floats": [0.5, 1.5], "strings": ["a", "b"], "mixed digits": ["01", "b"], "days": pd.date_range("2013-01-01", periods=3), "seconds": pd.DatetimeIndex(["2013-01-01 00:00:01", "2013-01-01 00:00:02"]), "unsorted": pd.DatetimeIndex(["2013-01-02", "2013-01-01"]), "old": pd.DatetimeIndex(["1950-01-01", "2100-12-31 23:00"]), "milliseconds": pd.DatetimeIndex(["2013-01-01 00:00:00.250", "2013-01-01 00:00:00.500"])}
    for key, sns in axes.items():
        for periods in (None, [2030], [2030, 2045]):
            if periods and key in ("now", "mixed digits", "falling", "unsorted"):
                continue
            n = nets.new()
            n.set_snapshots(sns)
            if periods:
                n.set_investment_periods(periods)
                n.investment_period_weightings["years"] = [5.0 + i for i in range(len(periods))]
                n.investment_period_weightings["objective"] = [0.5 + i for i in range(len(periods))]
            T = len(n.snapshots)
            n.snapshot_weightings["generators"] = [0.5 + t for t in range(T)]
            n.snapshot_weightings["stores"] = [1.25 + t for t in range(T)]
            n.add("Bus", ["b0", "b1"])
            n.add("Load", "l", bus="b0", p_set=[float(t) for t in range(T)])
            n.loads_t.p = nets_frame(n, {"l": [t + 0.5 for t in range(T)]})
            roundtrip(r, f, n, f"snapshots {key} periods {periods}", f"times {key}{' periods' if periods else ''}")
    # periods with different timesteps
    n = nets.new()
    n.set_snapshots(pd.MultiIndex.from_tuples([(2030, 0), (2030, 1), (2045, 1)], names=["period", "timestep"]))
    n.investment_periods = [2030, 2045]
    n.add("Bus", ["b0", "b1"])
    n.add("Load", "l", bus="b0", p_set=[0.0, 1.0, 2.0])
    roundtrip(r, f, n, "periods of different length", "times uneven")


def do_shapes(r, f):
    from shapely.geometry import LineString, MultiPolygon, Point, Polygon
    geos = [Point(0.1, 0.2), LineString([(0, 0), (1, 1.5)]), Polygon([(0, 0), (1, 0), (0, 1)]), MultiPolygon([Polygon([(0, 0), (1, 0), (0, 1)]), Polygon([(5, 5), (6, 5), (5, 6)])])]
    for k in range(1, 5):
        n = base()
        n.add("Shape", [f"s{i}" for i in range(k)], geometry=geos[:k], component="Bus", idx="b0", type="region")
        roundtrip(r, f, n, f"{k} shapes", "shapes")
    n = base()
    n.to_crs(3035)
    n.add("Shape", "s", geometry=geos[2], idx="b1", my_value=1.5)
    m = roundtrip(r, f, n, "shapes with a crs", "shapes")
    if m is not None and (m.shapes.crs is None or not m.shapes.crs.equals(n.crs)):
        r.bad(f"{f} shapes crs", f"the shapes read from {f} have crs {m.shapes.crs}")


def do_orders(r, f):
    """Order of components, of series columns and interplay of several types with similar list names."""
    for perm in itertools.permutations(("g2", "g0", "g10")):
        n = base()
        n.add("Generator", perm, bus="b0", p_nom=[1.0, 2.0, 3.0])
        n.generators_t.p_max_pu = nets_frame(n, {perm[2]: [0.5, 0.25, 0.125], perm[0]: [0.75, 0.5, 0]})
        roundtrip(r, f, n, f"order {perm}", "order")
    # similar list names
    n = base()
    n.add("Store", "x", bus="b0", e_nom=1.5)
    n.add("StorageUnit", "x", bus="b0", p_nom=2.5, inflow=[1.0, 2.0, 3.0], state_of_charge_set=[0.5, 0.25, 0.125])
    n.add("Line", "x", bus0="b0", bus1="b1", s_max_pu=[0.5, 0.25, 0.125])
    n.add("LineType", "x", x_per_length=0.5)
    n.add("Transformer", "x", bus0="b0", bus1="b1")
    n.add("TransformerType", "x", vsc=2.0)
    n.add("Load", "x", bus="b0", p_set=[0.5, 0.25, 0.125])
    n.add("Link", "x", bus0="b0", bus1="b1", efficiency=[0.5, 0.25, 0.125], marginal_cost_quadratic=[0.5, 0.25, 0.125])
    for bits in range(8):
        m = n.copy()
        for i, cs in enumerate((["StorageUnit", "Transformer", "Load"], ["Store", "TransformerType", "Link"], ["Line", "LineType"])):
            if bits >> i & 1:
                for c in cs:
                    m.remove(c, "x")
        roundtrip(r, f, m, f"similar list names without {bits:b}", "list names")
    # many link ports
    n = base()
    n.add("Link", ["a", "b"], bus0="b0", bus1="b1", bus2=["b0", ""], bus3=["", "b1"], bus11="b0", efficiency2=[0.5, 1.0], efficiency3=0.25, efficiency11=[0.75, 0.5])
    n.links_t.efficiency3 = nets_frame(n, {"b": [0.5, 0.75, 1.0]})
    n.links_t.p11 = nets_frame(n, {"b": [0.5, 0.75, 1.0], "a": [0.0, 0.0, 0.0]})
    roundtrip(r, f, n, "link ports", "ports")


def do_solved(r, f):
    n = nets.new(snapshots=[0, 1, 2], weightings=[0.5, 1, 2])
    nets.bulk(n, [["Carrier", "AC", {}], ["Bus", "a", {}], ["Bus", "b", {}], ["Bus", "c", {}], ["Line", "l", dict(bus0="a", bus1="b", x=0.1, s_nom=100)], ["Line", "m", dict(bus0="b", bus1="a", x=0.2, s_nom=100)], ["Link", "k", dict(bus0="b", bus1="c", p_nom=50, p_nom_extendable=True, capital_cost=0.5)],
                  ["Generator", "g", dict(bus="a", p_nom=100, marginal_cost=1, committable=True, min_up_time=2)], ["Generator", "h", dict(bus="c", p_nom=10, marginal_cost=5, p_max_pu=[0.5, 0.6, 0.7])], ["Load", "e", dict(bus="c", p_set=[1.0, 2.0, 9.0])], ["Store", "s", dict(bus="b", e_nom=100)], ["StorageUnit", "u", dict(bus="b", p_nom=1, inflow=[0, 1, 0.5])], ["GlobalConstraint", "co2", dict(type="primary_energy", constant=50, sense="<=")]])
    nets.optimize(n)
    roundtrip(r, f, n, "a solved network", "solved", extra=("objective",))
    n.pf()
    roundtrip(r, f, n, "a network after power flow", "solved", extra=("objective",))


def do_options(r, f):
    import numpy as np
    n = canon.rich(time="mi", n_each=2, comps=["Bus", "Carrier", "Generator", "Link", "Shape", "Line"])
    # without time series
    def static_only(d):
        for k in list(d):
            if isinstance(k, tuple) and k[0].startswith("dyn"):
                del d[k]
    roundtrip(r, f, n, "skip_time", "skip_time", load_kw=dict(skip_time=True), edit=static_only)
    # the constructor reads files
    with Target(f) as t:
        export(n, f, t.path)
        import pathlib
        for p in (t.path, pathlib.Path(t.path)):
            compare(r, f"{f} constructor", f"Network({type(p).__name__})", clean(nets.pypsa.Network(p), f), clean(n, f), f)
            r.traces += 1
        later = nets.pypsa.Network()
        if later.crs != nets.pypsa.Network().crs or len(later.links.columns) != len(nets.pypsa.Network().links.columns):
            r.bad(f"{f} later networks", "reading a network changes later networks")
    if f == "nc":
        for kw in (dict(compression={"zlib": True, "complevel": 4}), dict(compression={"zlib": False})):
            roundtrip(r, f, n, f"options {kw}", "options", export_kw=kw)
        f32 = lambda x: float(np.float32(x)) if isinstance(x, float) else x

        def tol(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return all(tol(a, b) for a, b in zip(x, y))
            return f32(x) == f32(y) or {x, y} == {"float64", "float32"} or x == "f" == y
        roundtrip(r, f, n, "float32", "float32", export_kw=dict(float32=True), tol=tol)
        ds = n.export_to_netcdf()
        m = nets.pypsa.Network()
        m.import_from_netcdf(ds)
        compare(r, "nc dataset", "the returned dataset", clean(m, f), clean(n, f), f)
        m = nets.pypsa.Network()
        m.import_from_netcdf(ds)
        compare(r, "nc dataset", "the dataset read again", clean(m, f), clean(n, f), f)
        with Target(f) as t:
            ds2 = n.export_to_netcdf(t.path)
            if not ds2.identical(ds):
                r.bad("nc dataset", "the dataset returned with and without path differ")
    if f == "h5":
        roundtrip(r, f, n, "complevel", "options", export_kw=dict(complevel=0))
    if f == "csv":
        roundtrip(r, f, n, "quotechar", "options", export_kw=dict(quotechar="'"), load_kw=dict(quotechar="'"))
        roundtrip(r, f, n, "encoding", "options", export_kw=dict(encoding="latin-1"), load_kw=dict(encoding="latin-1"))
