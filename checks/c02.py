"""C02: changing snapshots or investment periods keeps all time data aligned."""
import itertools
import math
import pickle
from mc import core, nets
from checks import c01

ID = "C02"
HS = [0]
TECHNIQUE = "exhaustive exploration of all histories up to a depth of snapshot, period, weighting and component operations, executed on the real network in lockstep with a model that keeps every value under its snapshot label, compared after every history"
RULE = "after every operation all series tables and weighting tables are indexed by the current snapshots or periods, persisting labels keep their values, new ones have the default, and a rejected request changes nothing"
ASSUMPTIONS = ["whether snapshot weightings of a flat time axis are inherited or reset when set_snapshots is called with a two-level index is not specified and either is accepted", "snapshot labels are unique"]

MI = lambda *p: ["mi", [list(x) for x in p]]
OPS = {
    "flat01": ["sns", [0, 1], {}],
    "flat012": ["sns", [0, 1, 2], {}],
    "flat12": ["sns", [1, 2], {}],
    "flat210": ["sns", [2, 1, 0], {}],
    "flatw": ["sns", [1, 5], dict(default_snapshot_weightings=2.5)],
    "names": ["sns", ["a", "b"], {}],
    "dt": ["sns", ["dt", "2030-01-01 00:00", "2030-01-01 03:00", "2030-01-01 05:00"], dict(weightings_from_timedelta=True)],
    "dt2": ["sns", ["dt", "2030-01-01 03:00", "2030-01-01 09:00"], {}],
    "dtlist": ["sns", [0, 2], dict(weightings_from_timedelta=True)],
    "prop": ["prop", [0, 3], {}],
    "mi": ["sns", MI((2020, 0), (2020, 1), (2030, 0), (2030, 1)), {}],
    "mi_uneven": ["sns", MI((2020, 0), (2030, 1), (2030, 2)), dict(default_snapshot_weightings=4.0)],
    "mi_other": ["sns", MI((2030, 1), (2040, 0), (2040, 1)), {}],
    "empty": ["sns", [], {}, "ValueError"],
    "mi3": ["sns", ["mi3"], {}, "ValueError"],
    "tz": ["sns", ["tz"], {}, "ValueError"],
    "per": ["per", [2020, 2030], "set"],
    "per3": ["per", [2020, 2030, 2040], "prop"],
    "per1": ["per", [2030], "set"],
    "perinv": ["per", [2020, 2030], "prop2"],
    "per_bad": ["per", [2030, 2020], "set"],
    "per_float": ["per", [2020.5, 2030.5], "set"],
    "per_dup": ["per", [2020, 2020], "set"],
    "per_empty": ["per", [], "set"],
    "w": ["w", "obj"],
    "w_series": ["w", "series"],
    "w_bad": ["w", "bad"],
    "wp": ["wp", "obj"],
    "wp_series": ["wp", "series"],
    "wp_bad": ["wp", "bad"],
    "add": ["add"],
    "add_series": ["addseries"],
    "edit": ["edit"],
    "remove": ["remove"],
}
CORE = ["flat012", "flat12", "flatw", "dt", "mi", "mi_uneven", "mi_other", "empty", "per", "per1", "w", "wp", "add_series", "edit", "flat210"]
NAMES = list(OPS)
TRACK = [("Generator", "p_max_pu", 1.0), ("Generator", "own", math.nan), ("Generator", "p", 0.0), ("Load", "p_set", 0.0), ("Link", "efficiency2", 1.0), ("Link", "p2", 0.0), ("Store", "e", 0.0), ("Bus", "marginal_price", 0.0), ("StorageUnit", "inflow", 0.0)]


def BOUNDS(tier):
    return f"all histories of 2 of {len(OPS)} operations and of 3 of {len(CORE) if tier == 'quick' else len(OPS)} operations" + ("" if tier == "quick" else f" and of 4 of {len(CORE)}") + ", starting from a network with series of six component types, a custom series and outputs on the snapshots 0, 1"


def cases(tier):
    for o in NAMES:
        yield dict(k="d2", first=o)
    for o in CORE if tier == "quick" else NAMES:
        yield dict(k="d3", first=o, all=tier != "quick")
    if tier != "quick":
        for a in CORE:
            for b in CORE:
                yield dict(k="d4", first=a, second=b)


def labels(x):
    import pandas as pd
    if x and x[0] == "dt":
        return [pd.Timestamp(t) for t in x[1:]]
    if x and x[0] == "mi":
        return [tuple(t) for t in x[1]]
    return list(x)


class Model:
    def __init__(self):
        self.sns = [0, 1]
        self.w = {c: {0: 1.0, 1: 1.0} for c in ("objective", "stores", "generators")}
        self.wp = {}
        self.s = {}  # (c, attr, name) -> {label: value}
        self.free = False  # weightings not specified

    @property
    def multi(self):
        return isinstance(self.sns[0], tuple)

    @property
    def periods(self):
        return list(dict.fromkeys(t[0] for t in self.sns)) if self.multi else []

    def default(self, key):
        return next(d for c, a, d in TRACK if (c, a) == key[:2])

    def reaxis(self, new):
        """Values for a new axis; a flat axis is inherited by every period."""
        inherit = not self.multi and isinstance(new[0], tuple)
        for k, v in self.s.items():
            self.s[k] = {t: v.get(t[1] if inherit else t, self.default(k)) for t in new}
        return inherit

    def apply(self, op):
        kind = op[0]
        if kind in ("sns", "prop"):
            if len(op) > 3:
                return op[3]
            new = labels(op[1])
            inherit = self.reaxis(new)
            d = op[2].get("default_snapshot_weightings", 1.0)
            self.w = {c: {t: v.get(t, d) for t in new} for c, v in self.w.items()}
            self.free = self.free or inherit
            if op[2].get("weightings_from_timedelta") and op[1][0] == "dt":
                h = [(b - a).total_seconds() / 3600 for a, b in zip(new, new[1:])]
                h.append(h[-1])
                self.w = {c: dict(zip(new, h)) for c in self.w}
                self.free = False
            self.sns = new
            self.wp = {p: self.wp.get(p, (1.0, 1.0)) for p in self.periods}
        elif kind == "per":
            P = op[1]
            if not P:
                return None
            if any(int(p) != p for p in P) or sorted(set(P)) != P:
                return "ValueError"
            if self.multi:
                if set(P) - set(self.periods):
                    return "ValueError"
                if len(P) < len(self.periods):
                    return "NotImplementedError"
            else:
                new = [(p, t) for p in P for t in self.sns]
                self.w = {c: {x: v[x[1]] for x in new} for c, v in self.w.items()}
                self.reaxis(new)
                self.sns = new
            self.wp = {p: self.wp.get(p, (1.0, 1.0)) for p in self.periods}
        elif kind == "w":
            if op[1] == "bad":
                return "AssertionError"
            for j, c in enumerate(self.w):
                self.w[c] = {t: (2.0 + i + (10.0 * j if op[1] == "obj" else 0)) for i, t in enumerate(self.sns)}
            self.free = False
        elif kind == "wp":
            if op[1] == "bad":
                return "AssertionError"
            self.wp = {p: (5.0 + i, 5.0 + i + (1.5 if op[1] == "obj" else 0)) for i, p in enumerate(self.periods)}
        elif kind == "add":
            pass
        elif kind == "addseries":
            for c, a in (("Generator", "p_max_pu"), ("Load", "p_set"), ("Link", "efficiency2")):
                if (c, a, "new") not in self.s:
                    self.s[c, a, "new"] = {t: 0.25 + i for i, t in enumerate(self.sns)}
        elif kind == "edit":
            for c, a in (("Generator", "p_max_pu"), ("Generator", "own"), ("Generator", "p")):
                if (c, a, "g") in self.s:
                    self.s[c, a, "g"][self.sns[-1]] = 0.625
        elif kind == "remove":
            self.s = {k: v for k, v in self.s.items() if k[0] == "Link" or k[2] not in ("g", "l")}
        return None


def execute(n, op):
    import pandas as pd
    kind = op[0]
    if kind in ("sns", "prop"):
        x = op[1]
        if x and x[0] == "mi":
            x = pd.MultiIndex.from_tuples([tuple(t) for t in x[1]])
        elif x and x[0] == "mi3":
            x = pd.MultiIndex.from_tuples([(0, 0, 0), (0, 0, 1)])
        elif x and x[0] == "tz":
            x = pd.date_range("2030", periods=2, tz="UTC")
        elif x and x[0] == "dt":
            x = pd.DatetimeIndex(x[1:])
        if kind == "prop":
            n.snapshots = x
        else:
            n.set_snapshots(x, **op[2])
    elif kind == "per":
        if op[2] == "set":
            n.set_investment_periods(op[1])
        elif op[2] == "prop":
            n.periods = op[1]
        else:
            n.investment_periods = op[1]
    elif kind == "w":
        T = len(n.snapshots)
        if op[1] == "obj":
            n.snapshot_weightings = pd.DataFrame({c: [2.0 + i + 10.0 * j for i in range(T)] for j, c in enumerate(("objective", "stores", "generators"))}, index=n.snapshots)
        elif op[1] == "series":
            n.snapshot_weightings = pd.Series([2.0 + i for i in range(T)], index=n.snapshots)
        else:
            n.snapshot_weightings = pd.Series([2.0] * (T + 1), index=list(range(90, 91 + T)))
    elif kind == "wp":
        P = len(n.periods)
        if op[1] == "obj":
            n.investment_period_weightings = pd.DataFrame(dict(objective=[5.0 + i for i in range(P)], years=[6.5 + i for i in range(P)]), index=n.periods)
        elif op[1] == "series":
            n.investment_period_weightings = pd.Series([5.0 + i for i in range(P)], index=n.periods, dtype=float)
        else:
            n.investment_period_weightings = pd.Series([5.0] * (P + 1), index=list(range(90, 91 + P)))
    elif kind == "add":
        if "later" not in n.generators.index:
            n.add("Generator", "later", bus="b", p_nom=1.0)
    elif kind == "addseries":
        if "new" not in n.loads.index:
            v = [0.25 + i for i in range(len(n.snapshots))]
            n.add("Generator", "new", bus="b", p_max_pu=v)
            n.add("Load", "new", bus="b", p_set=v)
            n.add("Link", "new", bus0="b", bus1="b", bus2="b", efficiency2=v)
    elif kind == "edit":
        for a in ("p_max_pu", "own", "p"):
            if "g" in n.generators_t[a]:
                n.generators_t[a].loc[n.snapshots[-1], "g"] = 0.625
    elif kind == "remove":
        for c in ("Generator", "Load", "Store", "Bus", "StorageUnit"):
            for k in ("g", "l"):
                if k in n.static(c).index:
                    n.remove(c, k)


_base = None


def base():
    global _base
    if _base is None:
        n = nets.new(snapshots=[0, 1])
        n.add("Bus", ["b", "l"], v_nom=10.0)
        n.add("Generator", "g", bus="b", p_nom=5.0, p_max_pu=[0.5, 0.75], own=[3.0, 4.0])
        n.add("Generator", "h", bus="b", p_nom=5.0)
        n.add("Load", "l", bus="b", p_set=[1.0, 2.0])
        n.add("Link", "k", bus0="b", bus1="b", bus2="b", efficiency2=[0.25, 0.375])
        n.add("Store", "l", bus="b", e_nom=5.0)
        n.add("StorageUnit", "l", bus="b", inflow=[7.0, 8.0])
        m = Model()
        m.s = {("Generator", "p_max_pu", "g"): {0: 0.5, 1: 0.75}, ("Generator", "own", "g"): {0: 3.0, 1: 4.0}, ("Load", "p_set", "l"): {0: 1.0, 1: 2.0}, ("Link", "efficiency2", "k"): {0: 0.25, 1: 0.375}, ("StorageUnit", "inflow", "l"): {0: 7.0, 1: 8.0}}
        import pandas as pd
        for c, a, k, v in (("Generator", "p", "g", [9.0, 8.0]), ("Link", "p2", "k", [1.5, 2.5]), ("Store", "e", "l", [0.5, 0.25]), ("Bus", "marginal_price", "l", [11.0, 12.0])):
            n.dynamic(c)[a] = pd.DataFrame({k: v}, index=n.snapshots)
            n.dynamic(c)[a].columns.name = c
            m.s[c, a, k] = dict(zip([0, 1], v))
        _base = pickle.dumps((n, m))
    return pickle.loads(_base)


def compare(n, m, r, key, what):
    bad = []
    sns = [tuple(t) if isinstance(t, tuple) else t for t in n.snapshots]
    if sns != m.sns:
        r.bad(key, f"{what}: snapshots are {sns}, expected {m.sns}")
        return 1
    names = (["period", "timestep"], "snapshot") if m.multi else (["snapshot"], "snapshot")
    if list(n.snapshots.names) != names[0] or (n.snapshots.name != names[1]):
        bad.append(f"snapshots are named {list(n.snapshots.names)}/{n.snapshots.name}")
    if list(n.periods) != m.periods or list(n.investment_periods) != m.periods or n.has_periods != m.multi or n.has_investment_periods != m.multi:
        bad.append(f"periods {list(n.periods)}, expected {m.periods}")
    ts = list(dict.fromkeys(t[1] for t in m.sns)) if m.multi else m.sns
    if list(n.timesteps) != ts:
        bad.append(f"timesteps {list(n.timesteps)}")
    w = n.snapshot_weightings
    # (the name of the index is that of the snapshots given when weightings are derived from them, and not judged)
    if not w.index.equals(n.snapshots):
        bad.append(f"snapshot weightings are indexed by {list(w.index)}")
    elif not m.free:
        for c, v in m.w.items():
            if c not in w or [float(x) for x in w[c]] != [v[t] for t in m.sns]:
                bad.append(f"snapshot weightings {c} are {w[c].tolist()}, expected {[v[t] for t in m.sns]}")
    elif w.isna().any().any():
        bad.append("snapshot weightings are missing")
    wp = n.investment_period_weightings
    if list(wp.index) != m.periods:
        bad.append(f"period weightings are indexed by {list(wp.index)}, periods are {m.periods}")
    elif {p: (float(wp.at[p, "objective"]), float(wp.at[p, "years"])) for p in m.periods} != m.wp:
        bad.append(f"period weightings are {wp.to_dict()}, expected {m.wp}")
    for c in n.all_components:
        for a, d in n.dynamic(c).items():
            if not d.index.equals(n.snapshots) or list(d.index.names) != list(n.snapshots.names):
                bad.append(f"{c} {a} is indexed by {list(d.index)} named {list(d.index.names)}")
    for (c, a, k), v in m.s.items():
        d = n.dynamic(c)[a]
        got = d[k].tolist() if k in d else None
        if got is None or not all(c01.same(x, v[t]) for x, t in zip(got, m.sns)):
            bad.append(f"{c} {k} {a} is {got}, expected {[v[t] for t in m.sns]}")
    have = {(c, a, k) for c, a, _ in TRACK for k in n.dynamic(c)[a].columns} if not bad else set(m.s)
    for x in have ^ set(m.s):
        bad.append(f"series {x} unexpectedly {'present' if x in have else 'absent'}")
    for b in bad[:3]:
        r.bad(key, f"{what}: {b}")
    return len(bad)


def history(r, seq):
    n, m = base()
    for i, name in enumerate(seq):
        op = OPS[name]
        keep = pickle.dumps(m)
        want = m.apply(op)
        got = None
        r.transitions += 1
        try:
            execute(n, op)
        except Exception as ex:  # noqa: BLE001
            got = type(ex).__name__
            text = f"{got}: {ex}"
        if want is not None:
            m = pickle.loads(keep)
            if got is None or not (got == want or want == "AssertionError" and got == "ValueError"):
                r.bad("outcome:" + name, f"{seq[:i + 1]}: {'accepted' if got is None else text}, expected {want}")
                return
        elif got is not None:
            r.bad("outcome:" + name, f"{seq[:i + 1]}: {text}")
            return
        if i == len(seq) - 1 and compare(n, m, r, seq[-1], f"after {seq[:i + 1]}"):
            return
    r.state(core.digest([[str(x) for x in m.sns], sorted((str(k), str(v)) for k, v in m.s.items()), str(m.w), str(m.wp)]))
    r.outcome(seq[-1])


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    f = case["first"]
    if case["k"] == "d2":
        seqs = [(f,)] + [(f, b) for b in NAMES]
    elif case["k"] == "d3":
        seqs = [(f,) + s for s in itertools.product(NAMES if case["all"] else CORE, repeat=2)]
    else:
        seqs = [(f, case["second"]) + s for s in itertools.product(CORE, repeat=2)]
    for s in seqs:
        history(r, s)
        r.traces += 1
    return r
