"""C24: the statistics accessor against direct summation over the network's own tables, for every statistic, grouping,
port selection, filter and time aggregation on solved networks with every component type."""
import itertools, math
from mc import core, nets

ID = "C24"
HS = [0]
TECHNIQUE = "exhaustive enumeration of statistic queries (statistic x grouping x ports x filters x time aggregation x options) on a family of solved networks, every answer against direct per-asset summation and the solved objective"
RULE = ("every number returned by a statistic is the sum over the selected assets and ports of the documented per-asset definition, "
        "evaluated from n.static / n.dynamic by plain loops; capital plus operating expenditure is the objective; "
        "the balance of every bus and bus carrier is zero in every snapshot; groupings of the same assets have the same totals")
ASSUMPTIONS = ["zero entries may be dropped or reported as NaN (drop_zero)", "rounding to the requested decimals is allowed for",
               "curtailment is judged for generators only (documented for assets with an availability)",
               "capacity factor and market value are judged with their default ports",
               "string filters that only partially match a carrier are not judged"]
HEAT = "district heat"


def BOUNDS(tier):
    return dict(networks=len(CONFS), statistics=16, groupings=len(GROUPINGS), filters=len(FILTERS))


W = dict(objective=[3.0, 1.0, 2.0], stores=[2.0, 3.0, 1.0], generators=[1.0, 2.0, 4.0])
ONE = dict(objective=[1.0] * 3, stores=[1.0] * 3, generators=[1.0] * 3)
CONFS = {
    "plain": dict(w=ONE, plain=1), "flat": dict(w=W), "ones": dict(w=ONE), "uc": dict(w=W, uc=1), "quad": dict(w=W, quad=1), "inactive": dict(w=W, inactive=1),
    "invest": dict(w=W, periods=[2020, 2030]), "invest-mask": dict(w=ONE, periods=[2020, 2030], inactive=1),
    "series": dict(w=W, series=1), "cols": dict(w=W, cols=1), "noswap": dict(w=W, noswap=1), "order": dict(w=W, order=1),
}
STATS = ["capex", "installed_capex", "expanded_capex", "optimal_capacity", "installed_capacity", "expanded_capacity", "opex", "system_cost",
         "supply", "withdrawal", "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value"]
TIMED = ["opex", "supply", "withdrawal", "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue"]
PORTED = ["optimal_capacity", "installed_capacity", "expanded_capacity", "supply", "withdrawal", "energy_balance", "revenue"]
GROUPINGS = [False, "carrier", "bus_carrier", "bus", "name", "country", "location", "unit", ["carrier", "bus_carrier"], ["name", "bus"],
          ["bus_carrier", "country", "carrier"], "callable", ["carrier", "callable"]]
FILTERS = [{}, dict(comps="Generator"), dict(comps=["Link", "Store"]), dict(comps=["StorageUnit"]), dict(comps=["Line", "Transformer", "Load"]),
           dict(carrier="gas turbine"), dict(carrier=["wind", "AC", "gas turbine"]), dict(carrier="nowhere"),
           dict(bus_carrier="AC"), dict(bus_carrier=["gas", HEAT]), dict(bus_carrier=HEAT), dict(bus_carrier=["nothing"]),
           dict(bus_carrier="AC", carrier=["gas turbine", "wind", "load"]), dict(comps=["Link"], bus_carrier="gas"),
           dict(comps="Link", carrier="chp", bus_carrier=HEAT)]


def cases(tier):
    # one solve per case, all queries on it
    if tier == "thorough":
        for k in CONFS:
            for st in STATS + ["all"]:
                yield dict(net=k, stats=[st], full=2)
        return
    for k in CONFS:
        if k == "plain":
            yield dict(net=k, stats=STATS + ["all"], full=0)
        elif k in ("flat", "invest"):
            for i in range(6):
                yield dict(net=k, stats=(STATS + ["all"])[i::6], full=int(k == "flat"))
        elif k in QUICK:
            yield dict(net=k, stats=QUICK[k] + ["all"], full=0)


# what the smaller variants add to the base network
QUICK = dict(uc=["opex", "system_cost"], quad=["opex", "revenue"], series=["opex", "curtailment"], cols=["optimal_capacity", "energy_balance", "transmission"],
             inactive=["capex", "curtailment", "optimal_capacity"], **{"invest-mask": ["capex", "curtailment", "capacity_factor"]})


def cost(case):
    return 3 if case["full"] else 1


def tag(case):
    return case["net"]


_built = {}


def build(k):
    cf = CONFS[k]
    import pandas as pd
    per = cf.get("periods")
    n = nets.new(snapshots=[0, 1, 2])
    n.set_snapshots(pd.Index([0, 1, 2], name="snapshot"))
    if per:
        n.set_investment_periods(per)
        n.investment_period_weightings["objective"] = [2.0, 0.5]
        n.investment_period_weightings["years"] = [10.0, 10.0]
    for c, v in cf["w"].items():
        n.snapshot_weightings[c] = v * (len(per) if per else 1)
    if cf.get("plain"):
        nets.bulk(n, [("Bus", "b", {}), ("Generator", "g", dict(bus="b", p_nom=10, marginal_cost=3)), ("Load", "l", dict(bus="b", p_set=4)),
                      ("Generator", "x", dict(bus="b", p_nom_extendable=True, capital_cost=2, marginal_cost=1, p_nom_max=2))])
    else:
        swap = not cf.get("noswap")
        car = [("wind", "gas turbine" if swap else "Wind"), ("gas turbine", "wind" if swap else ""), ("AC", "Power"), ("gas", ""), (HEAT, "Heat"),
               ("load", "Demand"), ("chp", ""), ("battery", "Battery"), ("tank", "")]
        sp = [("Carrier", c, dict(nice_name=x)) for c, x in car]
        bus = [("a0", "AC", 1.0, "DE", "north", "MWh_el"), ("a1", "AC", 1.0, "DE", "south", "MWh_el"), ("a2", "AC", 2.0, "NL", "west", "MWh_el"),
               ("gas", "gas", 1.0, "", "", "MWh_th"), ("h0", HEAT, 1.0, "DE", "north", "MWh_th"), ("h1", HEAT, 1.0, "NL", "west", "MWh_th")]
        sp += [("Bus", b, dict(carrier=c, v_nom=v, country=co, location=lo, unit=u)) for b, c, v, co, lo, u in bus]
        B = dict(build_year=2025, lifetime=20) if per else {}
        C = dict(build_year=2010, lifetime=15) if per else {}
        un = dict(committable=True, start_up_cost=7, shut_down_cost=5, stand_by_cost=2, p_min_pu=0.3, up_time_before=0, down_time_before=1) if cf.get("uc") else {}
        q = dict(marginal_cost_quadratic=0.5) if cf.get("quad") else {}
        uc = dict(p_max_pu=[0.2, 0.9, 0.5] * (2 if per else 1))
        mc = [3.0, 5.0, 4.0] * (2 if per else 1) if cf.get("series") else 4.0
        sp += [("Generator", "w0", dict(bus="a0", carrier="wind", p_nom_extendable=True, p_nom=1, p_nom_max=9, capital_cost=11, marginal_cost=0.1, **uc)),
               ("Generator", "w1", dict(bus="a1", carrier="wind", p_nom=5, capital_cost=2, marginal_cost=0.2, **uc, **B)),
               ("Generator", "w2", dict(bus="a2", carrier="wind", p_nom=6, p_nom_extendable=True, p_nom_min=0, capital_cost=30, marginal_cost=0.2, p_max_pu=0.1, **C)),
               ("Generator", "t0", dict(bus="a2", carrier="gas turbine", p_nom=8, marginal_cost=6, **un, **q)),
               ("Generator", "t1", dict(bus="a0", carrier="gas turbine", p_nom=20, marginal_cost=40, start_up_cost=1)),
               ("Generator", "gg", dict(bus="gas", carrier="gas", p_nom=50, marginal_cost=mc, **q)),
               ("Generator", "neg", dict(bus="a0", carrier="wind", sign=-1.0, p_nom=2, p_min_pu=0.5, marginal_cost=-0.5)),
               ("Load", "d0", dict(bus="a0", carrier="load", p_set=[6.0, 4.0, 5.0] * (2 if per else 1))),
               ("Load", "d1", dict(bus="a1", carrier="load", p_set=2.5)),
               ("Load", "dn", dict(bus="a2", carrier="load", sign=1.0, p_set=0.75)),
               ("Load", "dh", dict(bus="h0", carrier="load", p_set=[2.0, 3.0, 1.5] * (2 if per else 1))),
               ("Load", "dk", dict(bus="h1", carrier="load", p_set=1.0)),
               ("StorageUnit", "s0", dict(bus="a0", carrier="battery", p_nom=2, max_hours=3, efficiency_store=0.9, efficiency_dispatch=0.8, marginal_cost=0.3,
                                          marginal_cost_storage=0.05, spill_cost=1.5, inflow=[4.0, 3.0, 0.5] * (2 if per else 1), cyclic_state_of_charge=True, **q)),
               ("StorageUnit", "s1", dict(bus="a2", carrier="battery", p_nom_extendable=True, p_nom_max=3, capital_cost=1, max_hours=2, cyclic_state_of_charge=True, **B)),
               ("Store", "e0", dict(bus="h0", carrier="tank", e_nom_extendable=True, e_nom=1, e_nom_max=4, capital_cost=0.2, e_cyclic=True, marginal_cost=0.1, marginal_cost_storage=0.02)),
               ("Store", "e1", dict(bus="gas", carrier="gas", e_nom=5, e_initial=4, marginal_cost=0.7)),
               ("Line", "l01", dict(bus0="a0", bus1="a1", carrier="AC", x=0.2, s_nom=6, capital_cost=0.5)),
               ("Line", "l10", dict(bus0="a1", bus1="a0", carrier="AC", x=0.3, s_nom=1, s_nom_extendable=True, capital_cost=1.5)),
               ("Transformer", "t", dict(bus0="a1", bus1="a2", x=0.4, s_nom=9)),
               ("Link", "chp", dict(bus0="gas", bus1="a0", bus2="h0", carrier="chp", efficiency=0.4, efficiency2=0.5, p_nom=7, marginal_cost=0.6, **q)),
               ("Link", "boil", dict(bus0="gas", bus1="h1", carrier="chp", efficiency=0.9 if not cf.get("series") else [0.9, 0.8, 0.7] * (2 if per else 1),
                                     p_nom_extendable=True, p_nom=0.5, capital_cost=3, marginal_cost=0.2)),
               ("Link", "hp", dict(bus0="a2", bus1="h1", bus2="h0", carrier="", efficiency=2.0, efficiency2=-0.1, p_nom=0.5)),
               ("Link", "dc", dict(bus0="a0", bus1="a2", carrier="AC", p_nom=2, p_min_pu=-1, capital_cost=0.25)),
               ("Link", "heat", dict(bus0="h1", bus1="h0", carrier=HEAT, p_nom_extendable=True, p_nom_max=2, efficiency=0.95, capital_cost=0.1, **B))]
        if cf.get("uc"):
            sp.append(("Link", "ulk", dict(bus0="gas", bus1="a1", carrier="chp", efficiency=0.5, p_nom=6, committable=True, start_up_cost=4, shut_down_cost=3,
                                           stand_by_cost=1, p_min_pu=0.2, marginal_cost=0.05, up_time_before=0, down_time_before=1)))
        if cf.get("order"):
            sp = [s for s in sp if s[0] in ("Carrier", "Bus")] + [s for s in sp if s[0] not in ("Carrier", "Bus")][::-1]
        nets.bulk(n, sp)
        if cf.get("inactive"):
            for c, x in (("generators", "w1"), ("links", "boil"), ("storage_units", "s1"), ("lines", "l10"), ("loads", "d1"), ("stores", "e1")):
                getattr(n, c).loc[x, "active"] = False
        if cf.get("cols"):
            n.links["bus_type"] = "x"
            n.generators["busy"] = 3
            n.lines["business"] = "b"
            n.stores["efficiency"] = 5.0
    s = nets.optimize(n, multi_investment_periods=bool(per))
    if tuple(s) != ("ok", "optimal"):
        raise AssertionError(f"network {k} not solved: {s}")
    return n


def network(k):
    if k not in _built:
        _built.clear()
        _built[k] = build(k)
    return _built[k]


NOM = dict(Generator="p_nom", StorageUnit="p_nom", Link="p_nom", Line="s_nom", Transformer="s_nom", Store="e_nom")
BR = ("Line", "Transformer", "Link")
ALL = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link")


def call_group(n, c, port="", **kw):
    """A user-defined grouping: first letter of the bus at the port."""
    return n.static(c)[f"bus{port}"].str[:1].rename("letter")


class Ref:
    """Direct evaluation of the definitions."""

    def __init__(self, n):
        self.n = n
        self.multi = n.snapshots.nlevels > 1
        self.periods = list(n.investment_periods) if self.multi else [None]
        self.sns = list(n.snapshots)
        self.st = {c: {i: row for i, row in zip(n.static(c).index, n.static(c).to_dict("records"))} for c in ALL + ("Bus", "Carrier")}
        self.dyn = {}
        for c in ALL + ("Bus",):
            for a, df in n.dynamic(c).items():
                for col in df.columns:
                    self.dyn[c, a, col] = [float(x) for x in df[col]]
        self.w = {a: [float(x) for x in n.snapshot_weightings[a]] for a in n.snapshot_weightings}
        self.marg = {}

    def series(self, c, a, i, default=None):
        if (c, a, i) in self.dyn:
            return self.dyn[c, a, i]
        v = self.st[c][i].get(a, default)
        return [float(v)] * len(self.sns)

    def out(self, c, a, i):
        return self.dyn.get((c, a, i), [0.0] * len(self.sns))

    def ports(self, c):
        if c not in BR:
            return [""]
        cols = list(self.n.static(c).columns)
        return [x[3:] for x in cols if x.startswith("bus") and x[3:].isdigit()]

    def bus(self, c, i, p):
        return self.st[c][i][f"bus{p}"]

    def buscar(self, c, i, p):
        b = self.bus(c, i, p)
        return self.st["Bus"][b]["carrier"] if b in self.st["Bus"] else None

    def active(self, c, i, period):
        r = self.st[c][i]
        if not r.get("active", True):
            return False
        if period is None or "build_year" not in r:
            return True
        return r["build_year"] <= period < r["build_year"] + r["lifetime"]

    def tw(self, kind):
        return self.w[kind]

    def wkind(self, c):
        return dict(Generator="generators", StorageUnit="stores", Store="stores").get(c, "objective")

    def eff(self, c, i, p):
        if p == "":
            return 1.0
        if p == "0":
            return -1.0
        if c != "Link":
            return 1.0
        return float(self.st[c][i].get("efficiency" if p == "1" else f"efficiency{p}", 1.0))

    # ---- time series per asset and port; static: number
    def capacity(self, c, i, p, which, at):
        if c not in NOM:
            return None
        v = float(self.st[c][i][NOM[c] + which])
        e = self.eff(c, i, p)
        return v * (abs(e) if not at else e)

    def power(self, c, i, p):
        s = -1.0 if c in BR else float(self.st[c][i].get("sign", 1.0))
        return [s * x for x in self.out(c, "p" + p, i)]

    def opexes(self, c, i):
        """[(weighted?, series)] of the documented cost terms."""
        r = []
        g = self.series
        n = len(self.sns)

        def term(cost, var, weighted=True):
            if cost in self.st[c][i]:
                k = g(c, cost, i)
                r.append((weighted, [k[t] * var[t] for t in range(n)]))
        if c in ("Generator", "Link", "Store", "StorageUnit"):
            var = self.out(c, dict(Link="p0", StorageUnit="p_dispatch").get(c, "p"), i)
            term("marginal_cost", var)
            term("marginal_cost_quadratic", [x * x for x in var])
        if c == "StorageUnit":
            term("marginal_cost_storage", self.out(c, "state_of_charge", i))
            term("spill_cost", self.out(c, "spill", i))
        if c == "Store":
            term("marginal_cost_storage", self.out(c, "e", i))
        if self.st[c][i].get("committable", False):
            term("stand_by_cost", self.out(c, "status", i))
            term("start_up_cost", self.out(c, "start_up", i), False)
            term("shut_down_cost", self.out(c, "shut_down", i), False)
        return r

    def agg(self, xs, w, how):
        """-> {column: value}"""
        if how is False:
            return {s: x for s, x in zip(self.sns, xs)}
        r = {}
        for pe in self.periods:
            k = [j for j, s in enumerate(self.sns) if pe is None or s[0] == pe]
            ws = [w[j] for j in k]
            if how == "mean":
                tot = sum(ws)
                ws = [x / tot for x in ws]
            r[pe] = sum(a * xs[j] for a, j in zip(ws, k))
        return r

    def value(self, stat, c, i, p, how, at):
        """-> {column: value} of one asset at one port, None when undefined for the component."""
        def per(v):
            return None if v is None else {pe: v if self.active(c, i, pe) else 0.0 for pe in self.periods}
        if stat in ("capex", "installed_capex"):
            if c not in NOM:
                return None
            return per(float(self.st[c][i][NOM[c] + ("_opt" if stat == "capex" else "")]) * float(self.st[c][i]["capital_cost"]))
        if stat == "expanded_capex":
            a, b = self.value("capex", c, i, p, how, at), self.value("installed_capex", c, i, p, how, at)
            return None if a is None else {k: a[k] - b[k] for k in a}
        if stat in ("optimal_capacity", "installed_capacity"):
            return per(self.capacity(c, i, p, "_opt" if stat[0] == "o" else "", at))
        if stat == "expanded_capacity":
            a, b = self.value("optimal_capacity", c, i, p, how, at), self.value("installed_capacity", c, i, p, how, at)
            return None if a is None else {k: a[k] - b[k] if abs(a[k]) > abs(b[k]) else 0.0 for k in a}
        if stat == "opex":
            w = self.w["objective"]
            r = {}
            for weighted, xs in self.opexes(c, i):
                for k, v in self.agg(xs, w if weighted else [1.0] * len(w), how).items():
                    r[k] = r.get(k, 0.0) + v
            return r or None
        if stat == "system_cost":
            a, b = self.value("capex", c, i, p, how, at), self.value("opex", c, i, p, how, at)
            if a is None and b is None:
                return None
            r = dict(a or {})
            for k, v in (b or {}).items():
                r[k] = r.get(k, 0.0) + v
            return r
        w = self.w[self.wkind(c)]
        if stat in ("energy_balance", "supply", "withdrawal"):
            xs = self.power(c, i, p)
            if stat == "supply":
                xs = [max(x, 0.0) for x in xs]
            elif stat == "withdrawal":
                xs = [max(-x, 0.0) for x in xs]
            return self.agg(xs, w, how)
        if stat == "transmission":
            if c not in BR:
                return None
            cars = [self.buscar(c, i, q) for q in self.ports(c)]
            if not any(cars.count(x) > 1 for x in cars if x is not None and (self.sel is None or x in self.sel)):
                return None
            return self.agg(self.out(c, "p" + p, i), w, how)
        if stat == "curtailment":
            if c != "Generator":
                return None
            mx = self.series(c, "p_max_pu", i)
            cap = float(self.st[c][i]["p_nom_opt"])
            pw = self.out(c, "p", i)
            xs = []
            for j, s in enumerate(self.sns):
                act = self.active(c, i, s[0] if self.multi else None)
                xs.append(max(mx[j] * cap - pw[j], 0.0) if act else 0.0)
            return self.agg(xs, w, how)
        if stat == "operation":
            xs = self.out(c, "p0" if c in BR else "e" if c == "Store" else "p", i)
            return self.agg([abs(x) for x in xs], w, how)
        if stat == "revenue":
            b = self.bus(c, i, p)
            pr = self.out("Bus", "marginal_price", b) if b in self.st["Bus"] else [0.0] * len(self.sns)
            return self.agg([x * y for x, y in zip(self.power(c, i, p), pr)], w, how)
        raise KeyError(stat)

    def nice(self, car, on):
        if not on:
            return car
        row = self.st["Carrier"].get(car)
        v = row["nice_name"] if row and row["nice_name"] != "" else car
        return "-" if v == "" else v

    def key(self, c, i, p, by, nice):
        if by == "carrier":
            return self.nice(self.st[c][i].get("carrier", ""), nice)
        if by == "name":
            return i
        b = self.bus(c, i, p)
        if by == "bus":
            return b
        if by == "callable":
            return b[:1]
        if b not in self.st["Bus"]:
            return None
        r = self.st["Bus"][b]
        if by == "bus_carrier":
            return self.nice(r["carrier"], nice)
        return r[by]

    def query(self, stat, q):
        """-> {(component, *keys): {column: value}}"""
        comps = q.get("comps")
        one = isinstance(comps, str)
        comps = [comps] if one else comps if comps else ALL
        how = q.get("aggregate_time", "mean" if stat in ("capacity_factor", "market_value") else "sum")
        at = q.get("at_port", "default")
        if at == "default":
            at = {"supply": True, "withdrawal": True, "energy_balance": True, "revenue": True, "market_value": True}.get(stat, False)
            if stat in ("optimal_capacity", "installed_capacity", "expanded_capacity") and q.get("bus_carrier"):
                at = True
        if stat == "transmission" and q.get("comps") is None:
            comps = BR
        if stat == "capacity_factor":
            a, b = self.query("operation", dict(q, at_port=False, aggregate_time=how)), self.query("optimal_capacity", dict(q, at_port=False))
            return self.ratio(a, b, how)
        if stat == "market_value":
            a, b = (self.query(x, dict(q, aggregate_time=how)) for x in ("revenue", "supply"))
            return self.ratio(a, b, True)
        bc = q.get("bus_carrier")
        bc = [bc] if isinstance(bc, str) else bc
        self.sel = bc
        car = q.get("carrier")
        car = [car] if isinstance(car, str) else car
        by = q.get("groupby", ["carrier", "bus_carrier"] if stat == "energy_balance" else "carrier")
        nice = q.get("nice_names", True)
        res = {}
        for c in comps:
            ports = self.ports(c)
            if not at:
                ports = ports[:1]
            elif at is not True:
                sel = [at] if isinstance(at, str) else list(at)
                ports = [x for x in ports if "bus" + x in sel or x in sel]
            for i in self.st[c]:
                if car is not None and "carrier" in self.n.static(c) and self.st[c][i]["carrier"] not in car:
                    continue
                for p in ports:
                    if bc is not None and self.buscar(c, i, p) not in bc:
                        continue
                    v = self.value(stat, c, i, p, how, at)
                    if v is None:
                        continue
                    if by is False:
                        k = (c, i)
                    else:
                        k = (c,) + tuple(self.key(c, i, p, x, nice) for x in ([by] if isinstance(by, str) else by))
                    if None in k:
                        continue
                    if one:
                        k = k[1:]
                    elif q.get("aggregate_across_components"):
                        k = k[1:]
                    d = res.setdefault(k, {})
                    for col, x in v.items():
                        d[col] = d.get(col, 0.0) + x
        return res

    def ratio(self, a, b, how):
        r = {}
        for k, d in a.items():
            for col, x in d.items():
                y = b.get(k, {})
                y = y.get(col, 0.0) if how is not False or True in (col in y,) else y.get(col[0] if self.multi else None, 0.0)
                r.setdefault(k, {})[col] = x / y if abs(y) > 2e-2 else None
        return r


def table(x):
    """Statistic result -> {key: {column: value}} without NaN."""
    import pandas as pd
    r = {}
    if isinstance(x, pd.Series):
        for k, v in x.items():
            k = k if isinstance(k, tuple) else (k,)
            if k in r:
                raise AssertionError(f"duplicate row {k}")
            r[k] = {None: float(v)}
        return r
    for k, row in zip(x.index, x.values):
        k = k if isinstance(k, tuple) else (k,)
        if k in r:
            raise AssertionError(f"duplicate row {k}")
        r[k] = {c: float(v) for c, v in zip(x.columns, row)}
    return r


def differ(got, want, ratio=False, dec=5):
    for k in sorted(set(got) | set(want), key=str):
        g, w = got.get(k, {}), want.get(k, {})
        for col in sorted(set(g) | set(w), key=str):
            a, b = g.get(col, 0.0), w.get(col, 0.0)
            if ratio and (b is None or math.isinf(a) or (math.isnan(a) and col not in g)):
                continue
            a = 0.0 if math.isnan(a) else a
            if ratio and a == 0.0 and abs(b) < 1e-3:
                continue
            if abs(a - b) > (3e-3 * max(1, abs(b)) if ratio else 2e-4 + 10.0 ** -dec * 3 + 1e-6 * abs(b)):
                return f"{k} {col}: {a!r}, by definition {b!r}"
    return None


def queries(stat, k, full):
    """The enumerated argument combinations for one statistic."""
    seen = set()

    def emit(**q):
        q = {a: v for a, v in q.items() if v is not None}
        s = core.jhash(q) if hasattr(core, "jhash") else repr(sorted(q.items(), key=str))
        if s not in seen:
            seen.add(s)
            yield q
    hows = ["sum", "mean", False] if stat in TIMED else [None]
    ats = [None, False, True] if stat in PORTED else [None]
    filters = FILTERS
    GROUPS = [g for g in GROUPINGS if k != "plain" or not ({"country", "location"} & set([g] if isinstance(g, str) else g or []))]
    if stat in PORTED:
        for a, g, c in itertools.product(["bus0", ["bus1"], ["bus0", "bus2"], "2", ["bus2", "bus1"]], ["bus", "carrier", False], [["Link"], ["Line", "Transformer", "Link"], "Link"]):
            if k != "plain":
                yield from emit(at_port=a, groupby=g, comps=c)
    if not full:
        for g, h in itertools.product(GROUPS, hows):
            yield from emit(groupby=g, aggregate_time=h)
        for f, a in itertools.product(filters, ats):
            yield from emit(at_port=a, groupby=["bus", "carrier"], **f)
        for g, nn in itertools.product(["carrier", "bus_carrier"], [True, False]):
            yield from emit(groupby=g, nice_names=nn, aggregate_across_components=True, drop_zero=nn)
        yield from emit()
        return
    if full > 1:
        for g, f, h, a, nn, ac in itertools.product(GROUPS, filters, hows, ats, [None, False], [None, True]):
            yield from emit(groupby=g, aggregate_time=h, at_port=a, nice_names=nn, aggregate_across_components=ac, **f)
    for g, f in itertools.product(GROUPS if full > 1 else [False, "carrier", "bus_carrier", ["name", "bus"]], filters):
        yield from emit(groupby=g, **f)
    for g, h in itertools.product(GROUPS, hows):
        yield from emit(groupby=g, aggregate_time=h)
    for f, h, a in itertools.product(filters, hows, ats):
        yield from emit(groupby=["bus", "carrier"], aggregate_time=h, at_port=a, **f)
    for g, nn, ac, dz in itertools.product(GROUPS if full > 1 else GROUPS[1:3] + GROUPS[7:9], [True, False], [True, False], [True, False]):
        yield from emit(groupby=g, nice_names=nn, aggregate_across_components=ac, drop_zero=dz)
    for f, a, ac in itertools.product(filters, ats, [True, False]):
        yield from emit(at_port=a, aggregate_across_components=ac, groupby="carrier", **f)
    for rd in (0, 2, 8) if stat not in ("capacity_factor", "market_value") else ():
        yield from emit(round=rd)
    yield from emit()


def run(case):
    r = core.Result()
    n = network(case["net"])
    ref = Ref(n)
    r.state([case["net"], "network"])
    for st in case["stats"]:
        if st == "all":
            overall(r, n, ref, case)
        else:
            single(r, n, ref, case, st)
    return r


def single(r, n, ref, case, st):
    fn = getattr(n.statistics, st)
    for q in queries(st, case["net"], case["full"]):
        if q.get("groupby") is False or isinstance(q.get("comps"), str):
            if q.get("aggregate_across_components") and isinstance(q.get("comps"), str):
                continue
        kw = dict(q)
        if kw.get("groupby") == "callable":
            kw["groupby"] = call_group
        elif isinstance(kw.get("groupby"), list):
            kw["groupby"] = [call_group if x == "callable" else x for x in kw["groupby"]]
        try:
            got = fn(**kw)
        except Exception as e:
            bc = q.get("bus_carrier", [])
            if isinstance(e, ValueError) and not set([bc] if isinstance(bc, str) else bc) <= {x["carrier"] for x in ref.st["Bus"].values()}:
                r.outcome([st, "unknown bus carrier refused"])
                continue
            r.bad(f"{st}-error", f"{case['net']}: {st}({q}) raised {type(e).__name__}: {str(e)[:200]}")
            continue
        want = ref.query(st, q)
        try:
            tab = table(got)
            if st == "curtailment":
                own = not isinstance(q.get("comps"), str) and not q.get("aggregate_across_components")
                if not own and q.get("comps") != "Generator":
                    continue
                tab = {x: y for x, y in tab.items() if not own or x[0] == "Generator"}
            d = differ(tab, want, st in ("capacity_factor", "market_value"), q.get("round", 5))
        except AssertionError as e:
            d = str(e)
        r.transitions += 1
        r.state([case["net"], st, repr(sorted(q.items(), key=str))])
        r.outcome([st, len(want), type(got).__name__])
        if d:
            r.bad(f"{st}-value", f"{case['net']}: {st}({q}) {d}")


def overall(r, n, ref, case):
    import numpy as np
    ipw = dict(n.investment_period_weightings["objective"]) if ref.multi else {None: 1.0}
    # objective
    sc = table(n.statistics.system_cost())
    got = sum(v * ipw[c] for d in sc.values() for c, v in d.items() if not math.isnan(v))
    fixed = 0.0
    for c in NOM:
        for i, row in ref.st[c].items():
            if not row.get(NOM[c] + "_extendable"):
                fixed += sum(ipw[p] for p in ref.periods if ref.active(c, i, p)) * row["capital_cost"] * row[NOM[c]]
    want = n.objective + n.objective_constant + fixed
    r.transitions += 1
    if abs(got - want) > 1e-3 + 1e-5 * abs(want):
        r.bad("objective", f"{case['net']}: capital and operating expenditure {got}, objective plus existing assets {want}")
    # balances
    for by in ("bus", "bus_carrier", ["bus", "bus_carrier"]):
        eb = n.statistics.energy_balance(aggregate_time=False, groupby=by, nice_names=False, aggregate_across_components=True)
        eb = eb.fillna(0.0)
        bad = eb.abs().max(axis=1)
        r.transitions += 1
        if float(bad.max() if len(bad) else 0) > 1e-3:
            r.bad("balance", f"{case['net']}: energy balance by {by} is {float(bad.max())} at {bad.idxmax()}")
    # totals do not depend on the grouping
    for st in STATS:
        if st in ("capacity_factor", "market_value"):
            continue
        tot = {}
        for g in (False, "carrier", "name", ["name", "carrier"]):
            t = table(getattr(n.statistics, st)(groupby=g))
            tot[str(g)] = sum(v for d in t.values() for v in d.values() if not math.isnan(v))
            r.transitions += 1
        if max(tot.values()) - min(tot.values()) > 1e-3 + 1e-6 * abs(tot["False"]):
            r.bad("totals", f"{case['net']}: totals of {st} by grouping: {tot}")
    # summary table = its statistics
    ex = dict(optimal_capacity="Optimal Capacity", installed_capacity="Installed Capacity", supply="Supply", withdrawal="Withdrawal",
              energy_balance="Energy Balance", transmission="Transmission", capacity_factor="Capacity Factor", curtailment="Curtailment",
              capex="Capital Expenditure", opex="Operational Expenditure", revenue="Revenue", market_value="Market Value")
    for q in ({}, dict(groupby="bus_carrier"), dict(groupby=["carrier", "bus"]), dict(comps="Generator"), dict(comps=["Link", "Generator"], groupby="name"),
              dict(bus_carrier="AC"), dict(nice_names=False), dict(aggregate_across_components=True, groupby="bus_carrier")):
        try:
            df = n.statistics(**q)
        except Exception as e:
            r.bad("summary-error", f"{case['net']}: n.statistics({q}) raised {type(e).__name__}: {str(e)[:200]}")
            continue
        for st, title in ex.items():
            qq = dict(q, at_port=False)
            qq.setdefault("groupby", "carrier")
            got = table(df[title])
            one = table(getattr(n.statistics, st)(**qq))
            one = {a: {c: v for c, v in d.items() if not (math.isnan(v) or math.isinf(v))} for a, d in one.items()}
            got = {a: {c: v for c, v in d.items() if not (math.isnan(v) or math.isinf(v))} for a, d in got.items()}
            d = differ(got, one)
            r.transitions += 1
            if d:
                r.bad("summary", f"{case['net']}: n.statistics({q})[{title}] {d}")
    # transmission branches and carriers
    import pypsa.statistics as ps
    for bc in (None, "AC", ["gas", HEAT], "nothing"):
        sel = None if bc is None else [bc] if isinstance(bc, str) else bc
        want = set()
        for c in BR:
            for i in ref.st[c]:
                cars = [ref.buscar(c, i, p) for p in ref.ports(c)]
                if any(cars.count(x) > 1 for x in cars if x is not None and (sel is None or x in sel)):
                    want.add((c, i))
        got = set(ps.get_transmission_branches(n, bc))
        r.transitions += 1
        if got != want:
            r.bad("branches", f"{case['net']}: get_transmission_branches({bc}) {sorted(got)}, expected {sorted(want)}")
        got = set(ps.get_transmission_carriers(n, bc)) if want else set()
        exp = {(c, ref.st[c][i].get("carrier", "")) for c, i in want}
        if got != exp:
            r.bad("carriers", f"{case['net']}: get_transmission_carriers({bc}) {sorted(got)}, expected {sorted(exp)}")
