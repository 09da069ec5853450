"""C26: the consistency check reports every seeded inconsistency and no sound network."""
import itertools, logging, math
from mc import core, nets, canon

ID = "C26"
HS = [0]
TECHNIQUE = "exhaustive seeding of every documented inconsistency at every component type, attribute, element and snapshot (and all pairs of kinds) into sound networks, plus enumeration of sound networks"
RULE = ("a sound network passes strict mode silently; every seeded inconsistency is reported in normal mode without raising, raises under its own strict option and under 'all', "
        "and not under the other options; the network is never modified")
ASSUMPTIONS = ["dependent values are calculated beforehand (the check recalculates them)", "types are checked with check_dtypes=True, as documented"]
OPTIONS = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs", "zero_impedances", "zero_s_nom", "assets", "generators",
           "disconnected_buses", "investment_periods", "shapes", "dtypes"]
TIMES = ["flat", "date", "multi"]
CLASSES = ["Bus", "Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link", "ShuntImpedance", "GlobalConstraint", "Carrier", "Shape"]
KINDS = ["unknown_buses", "unknown_carriers", "zero_impedances", "zero_s_nom", "series-columns", "series-index", "capacity-bounds", "capacity-nan", "pu-bounds", "pu-nan", "pu-inf", "assets", "generators",
         "nan-static", "nan-series", "dtype-static", "dtype-series", "periods", "shapes", "disconnected"]
APPLIES = {"zero_impedances": ["Line", "Transformer"], "zero_s_nom": ["Transformer"], "assets": ["Generator", "Link"], "generators": ["Generator"], "periods": ["GlobalConstraint"], "shapes": ["Shape"], "disconnected": ["Bus"],
           "unknown_buses": ["Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link", "ShuntImpedance"], "unknown_carriers": ["Bus", "Generator", "Load", "StorageUnit", "Store", "Line", "Link"],
           "capacity-bounds": ["Generator", "StorageUnit", "Store", "Line", "Transformer", "Link"], "capacity-nan": ["Generator", "StorageUnit", "Store", "Line", "Transformer", "Link"],
           "pu-bounds": ["Generator", "StorageUnit", "Store", "Link"], "pu-nan": ["Generator", "StorageUnit", "Store", "Link"], "pu-inf": ["Generator", "StorageUnit", "Store", "Link"]}
VARY = ["Bus", "Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link"]
SOUND = ["base", "ports", "custom", "inactive", "types", "shapes", "empty", "no-series", "all-series", "outputs", "copy", "one-snapshot", "names", "constraint-bus", "merged", "no-carrier"]


def BOUNDS(tier):
    return dict(tier=tier, kinds=KINDS, classes=CLASSES, options=OPTIONS, times=TIMES, sound=SOUND, elements="first and last", pairs="all pairs of kinds")


def cases(tier):
    full = tier == "thorough"
    for t, s in itertools.product(TIMES, SOUND):
        yield dict(kind="sound", time=t, var=s)
    for k in ("pf", "lp", "milp", "qp", "invest"):
        yield dict(kind="sound", time="world", var=k)
        if k != "pf":
            yield dict(kind="sound", time="world", var=k, solved=True)
    for k in KINDS:
        for c in APPLIES.get(k, VARY if "series" in k else CLASSES):
            for t in TIMES:
                if not full and t == "date" and k not in ("series-index", "periods"):
                    continue
                if not full and t == "multi" and k in ("nan-static", "dtype-static", "dtype-series", "series-columns", "capacity-nan", "capacity-bounds", "unknown_carriers"):
                    continue
                yield dict(kind="seed", seed=k, cls=c, time=t, tier=tier, sub=(len(k) + len(c) + len(t)) % 3)
    for a, b in itertools.combinations(KINDS, 2):
        yield dict(kind="pair", seeds=[a, b], time="flat")
    if full:
        for a, b in itertools.combinations(KINDS, 2):
            yield dict(kind="pair", seeds=[a, b], time="multi", many=True)


def cost(case):
    return 2.0 if case["kind"] == "seed" else 1.0


def tag(case):
    return f"{case['kind']}-{case.get('seed', case.get('var', ''))}-{case.get('cls', '')}"


def build(time, var="base"):
    import pandas as pd
    n = nets.new()
    if time == "flat":
        n.set_snapshots([0, 1, 2])
    elif time == "date":
        n.set_snapshots(pd.date_range("2030-01-01", periods=3, freq="h", name="snapshot"))
    else:
        n.set_snapshots(pd.MultiIndex.from_product([[2020, 2030], [0, 1]], names=["period", "timestep"]))
        n.set_investment_periods([2020, 2030])
    if var == "one-snapshot" and time != "multi":
        n.set_snapshots(n.snapshots[:1])
    if var == "empty":
        return n
    T = len(n.snapshots)
    s = lambda *v: [v[t % len(v)] for t in range(T)]
    b = ["b0", "b1", "b2"] if var != "names" else ["nan", "0", "bus"]
    car = "AC" if var != "no-carrier" else ""
    if var != "no-carrier":
        n.add("Carrier", ["AC", "gas", "wind"], co2_emissions=[0.0, 0.2, 0.0], color=["k", "r", "b"])
    g = "" if var == "no-carrier" else "gas"
    n.add("Bus", b, v_nom=[380.0, 380.0, 220.0], carrier=car)
    n.add("Generator", ["g0", "g1"], bus=[b[0], b[1]], carrier=g, p_nom=[10.0, 20.0], marginal_cost=[1.0, 2.0], p_nom_extendable=[True, False], p_nom_max=[30.0, 40.0], p_max_pu=[0.9, 0.8])
    n.add("Load", ["l0", "l1"], bus=[b[1], b[2]], p_set=[5.0, 6.0], carrier=car)
    n.add("StorageUnit", ["s0", "s1"], bus=[b[0], b[2]], p_nom=[4.0, 5.0], max_hours=4.0, carrier=g, p_nom_extendable=[False, True])
    n.add("Store", ["e0", "e1"], bus=[b[1], b[2]], e_nom=[7.0, 8.0], carrier=g, e_nom_extendable=[True, False])
    n.add("Line", ["L0", "L1"], bus0=[b[0], b[1]], bus1=[b[1], b[0]], x=[0.1, 0.2], r=[0.01, 0.02], s_nom=[50.0, 60.0], carrier=car, s_nom_extendable=[False, True])
    n.add("Transformer", ["t0", "t1"], bus0=b[1], bus1=b[2], x=[0.1, 0.2], r=[0.01, 0.02], s_nom=[50.0, 60.0], s_nom_extendable=[True, False])
    n.add("Link", ["k0", "k1"], bus0=[b[0], b[1]], bus1=[b[2], b[0]], bus2=[b[1], ""], efficiency2=0.5, p_nom=[9.0, 8.0], carrier=g, p_nom_extendable=[False, True])
    n.add("ShuntImpedance", ["h0", "h1"], bus=[b[0], b[2]], b=[1e-3, 2e-3])
    n.add("GlobalConstraint", ["c0", "c1"], type="primary_energy", sense="<=", constant=[10.0, 20.0], carrier_attribute="co2_emissions")
    if time == "multi":
        n.global_constraints["investment_period"] = [2020.0, math.nan]
    from shapely.geometry import Point
    n.add("Shape", ["p0", "p1"], geometry=[Point(0, 0), Point(1, 1)], component=["Bus", "Generator"], idx=[b[0], "g1"])
    if var != "no-series":
        n.generators_t.p_max_pu["g1"] = s(0.5, 0.6, 0.7)
        n.loads_t.p_set["l1"] = s(1.0, 2.0, 3.0)
        n.links_t.p_max_pu["k0"] = s(0.9, 0.8)
        n.storage_units_t.p_max_pu["s1"] = s(0.9, 0.7)
        n.stores_t.e_max_pu["e0"] = s(0.9, 0.7)
    if var == "ports":
        n.add("Link", "k2", bus0=b[0], bus1=b[1], **{f"bus{i}": b[i % 3] for i in range(2, 13)}, **{f"efficiency{i}": 0.1 for i in range(2, 13)})
        n.add("Link", "k3", bus0=b[0], bus1=b[1])
        n.links_t.efficiency11["k2"] = s(0.1, 0.2)
    elif var == "custom":
        n.buses["foo"] = [math.nan, 1.0, 2.0]
        n.lines["busy"] = ["x", ""]
        n.generators["bus_type"] = ["q", "r"]
        n.generators["bus5x"] = 1.0
        n.loads["tag"] = [None, "t"]
    elif var == "inactive":
        n.add("Generator", "off", bus=b[0], active=False, carrier=g, p_nom=0.0)
    elif var == "types":
        n.add("Line", "L2", bus0=b[0], bus1=b[1], type="Al/St 240/40 2-bundle 220.0", length=10.0, num_parallel=2, s_nom=10.0, carrier=car)
        n.add("Transformer", "t2", bus0=b[1], bus1=b[2], type="160 MVA 380/110 kV", s_nom=160.0)
    elif var == "shapes":
        n.add("Shape", "p2", geometry=Point(2, 2), component="Link", idx="k0")
        n.add("Shape", "p3", geometry=Point(2, 2))
    elif var == "all-series":
        for c in VARY:
            st, a = n.static(c), n.components[c]["attrs"]
            for x in a.index[a.varying & a.static & a.status.str.startswith("Input")]:
                if a.default[x] == a.default[x] and a.default[x] != "":
                    for i in st.index:
                        n.dynamic(c)[x][i] = [float(st.at[i, x])] * T
    elif var == "outputs":
        n.determine_network_topology()
        for c in VARY:
            a = n.components[c]["attrs"]
            for x in a.index[a.varying & ~a.static]:
                for i in n.static(c).index:
                    n.dynamic(c)[x][i] = [1.0] * T
    elif var == "copy":
        n = n.copy()
    elif var == "constraint-bus":
        n.add("GlobalConstraint", "c2", type="tech_capacity_expansion_limit", carrier_attribute="gas", bus=b[1], sense="<=", constant=100.0)
        n.add("GlobalConstraint", "c3", type="tech_capacity_expansion_limit", carrier_attribute="gas", sense="<=", constant=100.0)
    elif var == "merged":
        m = nets.new()
        m.set_snapshots(n.snapshots)
        if time == "multi":
            m.set_investment_periods([2020, 2030])
        m.add("Bus", ["m0", "m1"], v_nom=380.0)
        m.add("Line", "mL", bus0="m0", bus1="m1", x=0.1, r=0.1, s_nom=5.0)
        m.add("Generator", "mg", bus="m0")
        n.merge(m, inplace=True)
    return n


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.msgs = []

    def emit(self, r):
        self.msgs.append((r.name, r.getMessage()))

    def __enter__(self):
        self.lg = logging.getLogger("pypsa")
        self.old = (self.lg.level, self.lg.propagate)
        self.lg.setLevel(logging.WARNING)
        self.sub = logging.getLogger("pypsa.consistency")
        self.oldsub = self.sub.level, self.sub.disabled
        self.sub.setLevel(logging.WARNING)
        self.sub.disabled = False
        self.olddis = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.lg.addHandler(self)
        return self

    def __exit__(self, *a):
        self.lg.removeHandler(self)
        self.lg.setLevel(self.old[0])
        self.sub.setLevel(self.oldsub[0])
        self.sub.disabled = self.oldsub[1]
        logging.disable(self.olddis)


def check(n, strict, dtypes=True):
    """('quiet'|'warned'|'raised', text)"""
    from pypsa.consistency import ConsistencyError
    with Log() as log:
        try:
            r = n.consistency_check(check_dtypes=dtypes, strict=strict)
            if r is not None:
                return "odd", repr(r)
        except (ConsistencyError, ValueError) as e:
            return "raised", str(e)
    if log.msgs:
        return "warned", "\n".join(m for _, m in log.msgs)
    return "quiet", ""


class Undo:
    """Restores the tables of a network."""

    def __init__(self, n):
        self.n, self.st, self.dy = n, {}, {}
        for c in CLASSES:
            self.st[c] = n.static(c).copy()
            self.dy[c] = {k: v.copy() for k, v in n.dynamic(c).items()}

    def back(self, cls=CLASSES):
        for c in cls:
            comp = self.n.components[c]
            comp.static = self.st[c].copy()
            for k, v in self.dy[c].items():
                comp.dynamic[k] = v.copy()


def attr(n, c, x):
    return n.components[c]["attrs"].loc[x]


def inputs(n, c, varying=False):
    a = n.components[c]["attrs"]
    ok = a.static & a.status.str.startswith("Input")
    if varying:
        ok &= a.varying
    return [x for x in a.index[ok] if x != "name"]


def put(n, c, i, x, v):
    """Set a static value without a change of the column's type where possible."""
    st = n.static(c)
    if isinstance(v, float) and st[x].dtype.kind in "ib" or isinstance(v, float) and st[x].dtype == object and v != v:
        st[x] = st[x].astype(object)
    st.loc[i, x] = v


def seeds(n, kind, c):
    """Yields (label, apply(n), options that must report it, words that the report must contain)."""
    import numpy as np
    import pandas as pd
    st = n.static(c)
    els = [st.index[0], st.index[-1]] if len(st) else []
    cap = "e" if c == "Store" else "s" if c in ("Line", "Transformer") else "p"
    if kind == "unknown_buses":
        ports = [x for x in st.columns if x.startswith("bus")]
        for x, i, v in itertools.product(ports, els, ["nope", "", math.nan]):
            if v == "" and x == "bus2":
                continue
            if v != v and x == "bus2":
                continue
            yield f"{x} {i} {v}", lambda n, i=i, x=x, v=v: put(n, c, i, x, v), {kind}, [i]
        if c == "Link":
            for k in (2, 3, 9, 10, 11):
                yield f"rebuild bus{k}", lambda n, k=k: n.add("Link", "kk", bus0=n.buses.index[0], bus1=n.buses.index[1], **{f"bus{k}": "nope"}), {kind}, ["kk"]
    elif kind == "unknown_carriers":
        for i, v in itertools.product(els, ["nope", "ac", " "]):
            yield f"{i} {v!r}", lambda n, i=i, v=v: put(n, c, i, "carrier", v), {kind}, [i]
    elif kind == "zero_impedances":
        for x, i in itertools.product(("x", "r"), els):
            yield f"{x} {i}", lambda n, i=i, x=x: put(n, c, i, x, 0.0), {kind}, [i, x]
    elif kind == "zero_s_nom":
        for i in els:
            yield f"{i}", lambda n, i=i: put(n, c, i, "s_nom", 0.0), {kind}, [i]
    elif kind == "series-columns":
        for x in inputs(n, c, True):
            def f(n, x=x):
                n.dynamic(c)[x]["ghost"] = 1.0 if attr(n, c, x).typ is not bool else True
            yield f"{x}", f, {"time_series"}, ["ghost", x]
    elif kind == "series-index":
        for x, how in itertools.product(inputs(n, c, True), ["short", "long", "order", "shift", "first"]):
            def f(n, x=x, how=how):
                d = n.dynamic(c)[x]
                if d.empty:
                    d = d.reindex(n.snapshots)
                sns = n.snapshots
                extra = sns[-1:].map(lambda l: (l[0], l[1] + 7) if isinstance(l, tuple) else l + (7 if isinstance(l, (int, np.integer)) else pd.Timedelta("7h")))
                idx = {"short": sns[:-1], "first": sns[1:], "long": sns.append(extra), "order": sns[::-1], "shift": sns[1:].append(extra)}[how]
                if len(d.columns) == 0:
                    n.dynamic(c)[x] = pd.DataFrame(index=idx)
                else:
                    n.dynamic(c)[x] = d.reindex(idx).ffill().bfill()
            yield f"{x} {how}", f, {"time_series"}, [x]
    elif kind == "capacity-bounds":
        for i in els:
            def f(n, i=i):
                put(n, c, i, f"{cap}_nom_min", 31.0)
                put(n, c, i, f"{cap}_nom_max", 30.0)
            yield f"{i}", f, {"static_power_attrs"}, [i]
    elif kind == "capacity-nan":
        for i, x in itertools.product([k for k in st.index if st.at[k, f"{cap}_nom_extendable"]], ("min", "max")):
            yield f"{i} {x}", lambda n, i=i, x=x: put(n, c, i, f"{cap}_nom_{x}", math.nan), {"static_power_attrs", "nans_for_component_default_attrs"}, [f"{cap}_nom_{x}"]
    elif kind in ("pu-bounds", "pu-nan", "pu-inf"):
        vals = {"pu-bounds": [(0.4, 0.5), (-0.6, -0.5), (0.0, 1e-6)], "pu-nan": [(math.nan, None), (None, math.nan)], "pu-inf": [(math.inf, None), (None, -math.inf), (-math.inf, None), (None, math.inf)]}[kind]
        for i, (hi, lo), t in itertools.product(els, vals, ["static"] + list(range(len(n.snapshots)))):
            def f(n, i=i, hi=hi, lo=lo, t=t):
                for x, v in (("max", hi), ("min", lo)):
                    if v is None:
                        continue
                    if t == "static":
                        if i in n.dynamic(c)[f"{cap}_{x}_pu"]:
                            n.dynamic(c)[f"{cap}_{x}_pu"] = n.dynamic(c)[f"{cap}_{x}_pu"].drop(columns=i)
                        put(n, c, i, f"{cap}_{x}_pu", v)
                    else:
                        d = n.dynamic(c)[f"{cap}_{x}_pu"]
                        if i not in d:
                            d[i] = float(n.static(c).at[i, f"{cap}_{x}_pu"])
                        d.iloc[t, list(d.columns).index(i)] = v
            also = {"nans_for_component_default_attrs"} if kind == "pu-nan" else set()
            yield f"{i} {hi} {lo} {t}", f, {"time_series_power_attrs"} | also, [i]
    elif kind == "assets":
        for i in els:
            def f(n, i=i):
                put(n, c, i, "committable", True)
                put(n, c, i, f"{cap}_nom_extendable", True)
            yield f"{i}", f, {"assets"}, [i]
    elif kind == "generators":
        for i in els:
            def f(n, i=i):
                put(n, c, i, "committable", True)
                put(n, c, i, "p_nom_extendable", False)
                put(n, c, i, "up_time_before", 1)
                put(n, c, i, "down_time_before", 2)
            yield f"{i} times", f, {"generators"}, [i]

            def f(n, i=i):
                put(n, c, i, "e_sum_min", 5.0)
                put(n, c, i, "e_sum_max", 4.0)
            yield f"{i} sum", f, {"generators"}, [i]
    elif kind == "nan-static":
        for x in inputs(n, c):
            d = attr(n, c, x).default
            if x in ("geometry",) or x.startswith("bus") or d == "" or (isinstance(d, float) and d != d) or d is None:
                continue
            for i in els:
                yield f"{x} {i}", lambda n, i=i, x=x: put(n, c, i, x, math.nan), {"nans_for_component_default_attrs"}, [x]
    elif kind == "nan-series":
        for x in inputs(n, c, True):
            d = attr(n, c, x).default
            if isinstance(d, float) and d != d or d == "":
                continue
            for i, t in itertools.product(els, range(len(n.snapshots))):
                def f(n, i=i, x=x, t=t):
                    D = n.dynamic(c)[x]
                    if i not in D:
                        D[i] = float(n.static(c).at[i, x])
                    D.iloc[t, list(D.columns).index(i)] = math.nan
                yield f"{x} {i} {t}", f, {"nans_for_component_default_attrs"}, [x]
    elif kind == "dtype-static":
        for x in inputs(n, c):
            a = attr(n, c, x)
            if x in ("geometry",):
                continue
            t = {bool: object, float: "float32", int: float, str: "category"}.get(a.typ)
            if t is None or x not in st or x.startswith("bus") or x == "type":
                continue
            yield f"{x} {t}", lambda n, x=x, t=t: n.static(c).__setitem__(x, n.static(c)[x].astype(t)), {"dtypes"}, [x]
            if a.typ is float:
                yield f"{x} object", lambda n, x=x: n.static(c).__setitem__(x, n.static(c)[x].astype(object)), {"dtypes"}, [x]
    elif kind == "dtype-series":
        for x in inputs(n, c, True):
            for i, t in itertools.product(els, ["float32", object]):
                def f(n, i=i, x=x, t=t):
                    D = n.dynamic(c)[x]
                    v = n.static(c).at[i, x]
                    D[i] = pd.Series([v if v == v else 1.0] * len(n.snapshots), index=n.snapshots).astype(t)
                yield f"{x} {i} {t}", f, {"dtypes"}, [x]
    elif kind == "periods":
        multi = isinstance(n.snapshots, pd.MultiIndex)
        for i, v in itertools.product(els, [2040.0, 2020.5] if multi else [2020.0, 0.0]):
            yield f"{i} {v}", lambda n, i=i, v=v: put(n, c, i, "investment_period", v), {"investment_periods"}, []
    elif kind == "shapes":
        from shapely.geometry import Point
        for k in ("Bus", "Generator", "Line", "Link", "Load", "Carrier", "Store", "StorageUnit", "Transformer"):
            yield f"{k}", lambda n, k=k: n.add("Shape", "pp", geometry=Point(0, 0), component=k, idx="nope"), {"shapes"}, ["pp"]
        for i in els:
            yield f"idx {i}", lambda n, i=i: put(n, c, i, "idx", "nope"), {"shapes"}, [i]
    elif kind == "disconnected":
        for nm in ("alone", "0", "b", "Ä"):
            yield nm, lambda n, nm=nm: n.add("Bus", nm, carrier="AC"), {"disconnected_buses"}, [nm]


def judge(res, n, key, expect, words, thorough):
    res.transitions += 1
    n.calculate_dependent_values()
    before = canon.canon(n)
    dt = "dtypes" in expect
    k, text = check(n, None, dt)
    if k == "raised":
        res.bad(f"{key[0]}-normal-raises", f"{key}: {text}"[:300])
    elif k == "quiet":
        res.bad(f"{key[0]}-silent", f"{key}: not reported in normal mode")
    elif not all(str(w) in text for w in words):
        res.bad(f"{key[0]}-unnamed", f"{key}: {words} not in {text}"[:300])
    for opt in sorted(expect):
        k, text = check(n, [opt], dt)
        if k != "raised":
            res.bad(f"{key[0]}-strict", f"{key}: strict=[{opt}] {k}"[:300])
    if thorough or res.transitions % 4 == 1:
        k, text = check(n, ["all"], dt)
        if k != "raised":
            res.bad(f"{key[0]}-all", f"{key}: strict all {k}"[:300])
    rest = [o for o in OPTIONS if o not in expect]
    return rest, before


def others(res, n, key, rest, before):
    k, text = check(n, rest)
    if k == "raised":
        res.bad(f"{key[0]}-elsewhere", f"{key}: raised under the other options: {text}"[:300])
    if canon.diff(before, canon.canon(n)):
        res.bad("modified", f"{key}: {canon.diff(before, canon.canon(n))}"[:300])


def run(case):
    res = core.Result()
    if case["kind"] == "sound":
        if case["time"] == "world":
            from mc import world
            n = world.build(world.specs(case["var"]), case["var"])
            if case.get("solved"):
                if nets.optimize(n)[0] != "ok":
                    raise RuntimeError("not solved")
            for c in ("Line", "Transformer"):
                if len(n.static(c)):
                    n.static(c)["r"] = n.static(c)["r"].where(n.static(c)["r"] != 0, 0.01)
            miss = set().union(*[set(n.static(c).get("carrier", [])) for c in CLASSES]) - set(n.carriers.index) - {""}
            if miss:
                n.add("Carrier", sorted(miss))
        else:
            n = build(case["time"], case["var"])
        n.calculate_dependent_values()
        before = canon.canon(n)
        res.traces += 1
        for strict in [None, ["all"], "all", []] + [[o] for o in OPTIONS]:
            for d in ((True, False) if strict in (None, ["all"]) else (True,)):
                k, text = check(n, strict, d)
                res.transitions += 1
                if k != "quiet":
                    res.bad(f"sound-{case['var']}", f"{case}: strict={strict}: {k}: {text}"[:300])
        if canon.diff(before, canon.canon(n)):
            res.bad("modified", f"{case}: {canon.diff(before, canon.canon(n))}"[:300])
        try:
            n.consistency_check(strict=["nonsense"])
            res.bad("unknown-option", "an unknown option is accepted")
        except ValueError:
            pass
        res.state(case)
        res.outcome(len(n.buses))
        return res
    n = build(case["time"])
    n.calculate_dependent_values()
    un = Undo(n)
    if case["kind"] == "seed":
        kind, c = case["seed"], case["cls"]
        found = list(seeds(n, kind, c))
        if case["tier"] == "quick" and kind in ("nan-static", "nan-series", "pu-nan", "pu-inf", "pu-bounds", "dtype-series", "series-index"):
            found = found[case["sub"]::3] or found     # every third seed per time axis; all in the thorough tier
        for label, f, expect, words in found:
            key = (f"{kind}-{c}" if kind not in ("nan-static", "dtype-static", "series-index") else f"{kind}-{c}-{label.split()[0]}", label, case["time"])
            f(n)
            rest, before = judge(res, n, key, expect, words, case["tier"] == "thorough")
            others(res, n, key, [o for o in rest if not loose(kind, o)], before)
            res.traces += 1
            if label.startswith("rebuild"):
                n = build(case["time"])
                n.calculate_dependent_values()
                un = Undo(n)
            else:
                un.back()
            res.state([kind, c, label, case["time"]])
        k, text = check(n, ["all"])
        if k != "quiet":
            res.bad("undo", f"{case}: {k} {text}"[:300])
        res.outcome([kind, c])
        return res
    # pairs: both are reported, each under its own option
    a, b = case["seeds"]

    def some(k):
        cs = APPLIES.get(k, VARY if "series" in k else CLASSES)
        out = []
        for c in cs if case.get("many") else cs[:1] + cs[-1:]:
            L = list(seeds(n, k, c))
            out += [(c, *s[:2], frozenset(s[2]), tuple(s[3])) for s in ([L[0], L[-1]] if L else [])]
        return out
    A, B = some(a), some(b)
    combos = itertools.product(A, B) if case.get("many") else dict.fromkeys([(A[0], B[-1]), (A[-1], B[0])])
    for sa, sb in combos:
        try:
            sa[2](n)
            sb[2](n)
        except Exception:
            un.back()
            continue     # the two changes cannot be combined (same element)
        opts = (sa[3], sb[3])
        res.transitions += 1
        res.traces += 1
        k, text = check(n, None)
        key = f"{a}+{b}"
        if sa[0] != sb[0]:
            if k != "warned" or not all(str(w) in text for w in sa[4] + sb[4]):
                res.bad(f"pair-{key}", f"{sa[:2]} {sb[:2]}: {k}: {text}"[:300])
            for e in opts:
                for o in sorted(e)[:1]:
                    k, text = check(n, [o])
                    if k != "raised":
                        res.bad(f"pair-strict-{key}", f"{sa[:2]} {sb[:2]}: [{o}] {k}"[:300])
        elif k != "warned":
            res.bad(f"pair-{key}", f"{sa[:2]} {sb[:2]}: {k}: {text}"[:300])
        un.back()
        res.state([sa[:2], sb[:2]])
    res.outcome([a, b])
    return res


def loose(kind, opt):
    """Options that may or may not also report a seeded inconsistency."""
    if kind == "unknown_buses" and opt == "nans_for_component_default_attrs":     # dependent values cannot be calculated
        return True
    if opt == "dtypes" and kind in ("nan-static", "unknown_buses", "nan-series", "pu-nan"):     # a missing value changes the column's type
        return True
    if kind in ("nan-static",) and opt in ("unknown_buses", "static_power_attrs", "time_series_power_attrs", "zero_impedances", "shapes", "generators", "assets"):
        return True
    if kind in ("series-index",) and opt in ("time_series_power_attrs", "nans_for_component_default_attrs", "dtypes"):
        return True
    if kind == "series-columns" and opt in ("time_series_power_attrs", "dtypes"):
        return True
    if kind == "dtype-static" or kind == "dtype-series":
        return opt in ()
    if kind == "nan-series" and opt == "time_series_power_attrs":
        return True
    return False
