"""C22: solving writes consistent results and never alters inputs."""
import itertools
from mc import core, nets, refopt

ID = "C22"
HS = [0]
TECHNIQUE = "exhaustive enumeration of histories (edit, solve) x (edit, solve) ... up to a depth on real networks; after every solve all outputs are checked for mutual consistency, against an independent reference problem, and against a network built afresh with the same inputs"
RULE = ("From a network with every kind of asset, every sequence of steps (an edit: nothing, add, remove, deactivate, change demand, costs, weightings or snapshots; then a solve: all or some snapshots, with losses, an infeasible one, one that fails) is executed; "
        "after each solve the inputs and all results of other snapshots must be as before, the results must be consistent with each other and optimal for the reference, and equal to those of a fresh network with the same inputs.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "generators.control (set by the power flow preparation), derived electrical parameters and blank carriers (filled from the bus) are not counted as inputs"]


def BOUNDS(tier):
    return "2 steps (first edit: none), 9 edits x 7 pairs of solves (two-period time axis: 7 edits x 2 pairs), without the comparison with a fresh network" if tier == "quick" else "2 steps with every pair of edits, 3 steps with first edit none, 9 edits x 6 solves, flat and two-period time axes"


EDITS = ["none", "add", "remove", "branch", "off", "load", "cost", "weights", "snapshots"]
SOLVES = ["all", "first", "last", "loss", "infeasible", "error"]


def base(periods):
    import numpy as np
    T = 4
    n = nets.new(snapshots=list(range(T if not periods else 2)), periods=[2020, 2030] if periods else None, weightings=None if periods else {"objective": [1.0, 2.5, 0.5, 1.5], "stores": [1.0, 2.0, 3.0, 0.5], "generators": [2.0, 1.0, 1.5, 1.0]},
                 period_weightings={"objective": [1.0, 0.7], "years": [10.0, 10.0]} if periods else None)
    B = dict(build_year=0, lifetime=3000) if periods else {}
    sp = [["Bus", "a", dict(v_nom=10.0)], ["Bus", "b", dict(v_nom=10.0)], ["Bus", "c", dict(v_nom=10.0)], ["Bus", "d", dict(carrier="DC", v_nom=20.0)], ["Bus", "x", dict(carrier="heat")],
          ["Generator", "g1", dict(bus="a", p_nom_extendable=True, capital_cost=3.1, p_nom=2.0, marginal_cost=11.3, p_nom_max=40.0, p_max_pu=[1.0, 0.7, 0.9, 0.6], **B)], ["Generator", "g2", dict(bus="b", p_nom=30.0, marginal_cost=[17.9, 13.3, 21.1, 16.7], **B)],
          ["Generator", "g3", dict(bus="c", p_nom=60.0, marginal_cost=43.0, **B)], ["Generator", "peakb", dict(bus="b", p_nom=200.0, marginal_cost=83.0, **B)], ["Generator", "peakd", dict(bus="d", p_nom=90.0, marginal_cost=91.0, **B)], ["Generator", "peakx", dict(bus="x", p_nom=90.0, marginal_cost=97.0, **B)],
          ["Generator", "peaka", dict(bus="a", p_nom=200.0, marginal_cost=89.0, **B)], ["Generator", "goff", dict(bus="a", p_nom=50.0, marginal_cost=1.0, active=False, **B)],
          ["Generator", "neg", dict(bus="c", p_nom=60.0, sign=-1.0, marginal_cost=-9.7, p_max_pu=0.05, **B)],
          ["Line", "l1", dict(bus0="a", bus1="b", x=7.0, r=0.3, s_nom=9.0, **B)], ["Line", "l2", dict(bus0="c", bus1="b", x=9.0, r=0.4, s_nom_extendable=True, s_nom_max=30.0, s_nom=1.0, capital_cost=1.7, **B)],
          ["Transformer", "t1", dict(bus0="a", bus1="c", x=0.9, r=0.03, s_nom=12.0, tap_ratio=1.1, **B)], ["Line", "loff", dict(bus0="a", bus1="c", x=5.0, r=0.1, s_nom=9.0, active=False, **B)],
          ["Link", "k1", dict(bus0="b", bus1="d", bus2="x", efficiency=0.93, efficiency2=[0.05, 0.1, 0.02, 0.07], marginal_cost=0.21, p_nom=20.0, **B)], ["Link", "k2", dict(bus0="d", bus1="a", efficiency=[0.91, 0.95, 0.9, 0.97], marginal_cost=0.23, p_nom=13.0, p_min_pu=-1.0, **B)],
          ["StorageUnit", "s1", dict(bus="a", max_hours=2.0, p_nom=5.0, efficiency_store=0.9, efficiency_dispatch=0.87, state_of_charge_initial=1.0, marginal_cost=0.11, inflow=[1.0, 0.0, 2.0, 0.5], standing_loss=0.02, **B)],
          ["Store", "st", dict(bus="b", standing_loss=0.07, e_initial=0.5, e_nom_extendable=True, e_nom_max=6.0, capital_cost=0.9, marginal_cost=0.09, **B)],
          ["Load", "la", dict(bus="a", p_set=[8.0, 21.0, 13.0, 17.0])], ["Load", "lb", dict(bus="b", p_set=6.5)], ["Load", "ld", dict(bus="d", p_set=[3.0, 1.0, 4.0, 2.0])], ["Load", "lx", dict(bus="x", p_set=1.5)], ["Load", "lc", dict(bus="c", p_set=[0.5, 2.5, 1.0, 3.0])],
          ["Load", "loff", dict(bus="a", p_set=40.0, active=False)], ["Load", "lneg", dict(bus="c", p_set=1.25, sign=1.0)]]
    return nets.bulk(n, sp)


def edit(n, e):
    import pandas as pd
    if e == "add":
        n.add("Generator", "gnew", bus="b", p_nom=7.0, marginal_cost=2.3, **(dict(build_year=0, lifetime=3000) if n.has_periods else {}))
        n.add("Load", "lnew", bus="c", p_set=pd.Series([1.0, 3.0, 2.0, 0.5][:len(n.snapshots)], index=n.snapshots))
        n.add("Line", "l9", bus0="a", bus1="b", x=11.0, r=0.2, s_nom=4.0, **(dict(build_year=0, lifetime=3000) if n.has_periods else {}))
    elif e == "remove":
        n.remove("Generator", "g2")
        n.remove("Load", "lb")
        n.remove("StorageUnit", "s1")
    elif e == "branch":
        n.remove("Line", "l1")
        n.remove("Link", "k1")
        n.remove("Transformer", "t1")
    elif e == "off":
        n.generators.loc["g2", "active"] = False
        n.lines.loc["l1", "active"] = False
        n.stores.loc["st", "active"] = False
        n.links.loc["k2", "active"] = False
        n.loads.loc["lb", "active"] = False
    elif e == "load":
        n.loads_t.p_set["la"] *= 1.3
        n.loads.loc["lb", "p_set"] = 9.25
        n.generators.loc["goff", "active"] = True
    elif e == "cost":
        n.generators_t.marginal_cost["g2"] += 20.0
        n.generators.loc["g3", "marginal_cost"] = 5.3
        n.generators.loc["g1", ["p_nom_extendable", "p_nom"]] = [False, 6.0]
    elif e == "weights":
        n.snapshot_weightings["objective"] = [2.0, 1.0, 1.5, 0.5][:len(n.snapshots)]
        n.snapshot_weightings["stores"] = [1.0, 0.5, 2.0, 1.5][:len(n.snapshots)]
    elif e == "snapshots":
        n.set_snapshots(n.snapshots[1:])


def outputs(n):
    return {(c.list_name, a): df.copy() for c in n.iterate_components() for a, df in c.dynamic.items() if (a not in c.attrs.index or str(c.attrs.at[a, "status"]).startswith("Output")) and df.size}


def inputs(n):
    out = {}
    for c in n.iterate_components():
        if c.name == "SubNetwork":
            continue
        A = c.attrs
        cols = [x for x in c.static.columns if not (x in A.index and str(A.at[x, "status"]).startswith("Output")) and x not in ("control",) and not (x == "v_nom" and c.name == "Line")]
        out[c.name] = c.static[cols].copy()
        if "carrier" in cols:
            # blank carriers are filled in from the bus
            out[c.name]["carrier"] = [x if x or "bus" not in cols + [k.rstrip("0") for k in cols] else n.buses.carrier[c.static.at[k, "bus" if "bus" in cols else "bus0"]] for k, x in c.static["carrier"].items()]
        for a, df in c.dynamic.items():
            if a in A.index and not str(A.at[a, "status"]).startswith("Output"):
                out[c.name, a] = df.copy()
    out["snapshots"] = n.snapshots.copy()
    out["weights"] = n.snapshot_weightings.copy()
    out["pw"] = n.investment_period_weightings.copy()
    return out


def same(a, b):
    if type(a).__name__.endswith("Index"):
        return a.equals(b)
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and list(a.dtypes) == list(b.dtypes) and a.equals(b)


PAIRS = [("all", "last"), ("last", "all"), ("loss", "all"), ("all", "loss"), ("infeasible", "all"), ("all", "error"), ("first", "infeasible")]


def cases(tier):
    fresh = int(tier != "quick")
    for periods in (0, 1):
        for e2 in EDITS:
            if periods and e2 in ("snapshots", "weights"):
                continue
            for s1, s2 in itertools.product(SOLVES, SOLVES) if fresh else PAIRS[:2] if periods else PAIRS:
                yield dict(p=periods, fresh=fresh, steps=[["none", s1], [e2, s2]])
    if tier != "quick":
        for e1 in EDITS[1:]:
            for s1 in ("all", "first", "last", "loss"):
                for e2 in EDITS:
                    if e1 == e2 or e1 == "remove" and e2 in ("cost", "off", "load") or e1 == "branch" and e2 == "off":
                        continue
                    for s2 in SOLVES[:5]:
                        yield dict(p=0, fresh=1, steps=[[e1, s1], [e2, s2]])
        for s1 in ("all", "first", "last", "loss"):
            for e2 in EDITS:
                for s2 in SOLVES:
                    for e3 in EDITS:
                        if e2 == e3 or e2 == "remove" and e3 in ("cost", "off", "load") or e2 == "branch" and e3 == "off":
                            continue
                        for s3 in ("all", "last"):
                            yield dict(p=0, fresh=1, steps=[["none", s1], [e2, s2], [e3, s3]])


def tag(case):
    return core.digest(case)


def check(n, r, S, multi, losses, key, what):
    import numpy as np
    S = list(S)
    bad = lambda k, m: r.bad(f"{k}:{key}", f"{m} after {what}")
    for c in n.iterate_components():
        for a, df in c.dynamic.items():
            if a not in c.attrs.index or str(c.attrs.at[a, "status"]).startswith("Output"):
                if not df.empty and not df.index.equals(n.snapshots):
                    bad("index", f"{c.name} {a} has the wrong index")
                if df.isna().any().any():
                    bad("gap", f"{c.name} {a} has missing values {df.columns[df.isna().any()].tolist()}")
    inj = {(b, t): 0.0 for b in n.buses.index for t in S}
    flow = dict(inj)
    g = lambda c, a, k, t: float(n.dynamic(c)[a].at[t, k]) if a in n.dynamic(c) and k in n.dynamic(c)[a].columns else 0.0
    for t in S:
        for c in ("Generator", "StorageUnit", "Store", "Load"):
            for k in n.static(c).index:
                p = g(c, "p", k, t)
                if not n.static(c).at[k, "active"]:
                    if abs(p) > 1e-6:
                        bad("inactive", f"inactive {c} {k} reports p={p}")
                    continue
                inj[n.static(c).at[k, "bus"], t] += float(n.static(c).at[k, "sign"]) * p
                if c == "Load" and abs(p - refopt.val(n, "Load", k, "p_set", t)) > 1e-6:
                    bad("load", f"load {k} reports {p}")
                if c == "StorageUnit" and abs(p - g(c, "p_dispatch", k, t) + g(c, "p_store", k, t)) > 1e-6:
                    bad("storage", f"{k}: p={p}, p_dispatch - p_store = {g(c, 'p_dispatch', k, t) - g(c, 'p_store', k, t)}")
        for k in n.links.index:
            p0 = g("Link", "p0", k, t)
            if not n.links.at[k, "active"] and abs(p0) > 1e-6:
                bad("inactive", f"inactive link {k} reports {p0}")
            inj[n.links.at[k, "bus0"], t] -= p0
            for i in refopt.link_ports(n):
                b = n.links.at[k, "bus" + i]
                pi = g("Link", "p" + i, k, t)
                if not b:
                    if pi:
                        bad("port", f"link {k} reports {pi} at its unused port {i}")
                    continue
                eff = refopt.val(n, "Link", k, "efficiency" + ("" if i == "1" else i), t)
                if abs(pi + eff * p0) > 1e-5:
                    bad("port", f"link {k} port {i}: {pi}, input {p0}, efficiency {eff}")
                inj[b, t] -= pi
        for c in ("Line", "Transformer"):
            for k in n.static(c).index:
                p0, p1 = g(c, "p0", k, t), g(c, "p1", k, t)
                if not n.static(c).at[k, "active"] and abs(p0) + abs(p1) > 1e-6:
                    bad("inactive", f"inactive {c} {k} reports {p0}, {p1}")
                if not losses and abs(p0 + p1) > 1e-6:
                    bad("ends", f"{c} {k}: {p0}, {p1}")
                flow[n.static(c).at[k, "bus0"], t] += p0
                flow[n.static(c).at[k, "bus1"], t] += p1
                if not losses and not multi and n.static(c).at[k, "active"] and len(n.buses_t.v_ang.columns):
                    x, rr = refopt.reactance(n, c, k)
                    d = g("Bus", "v_ang", n.static(c).at[k, "bus0"], t) - g("Bus", "v_ang", n.static(c).at[k, "bus1"], t)
                    if abs(d - x * p0) > 1e-4:
                        bad("angle", f"{c} {k} at {t}: angle difference {d}, flow x reactance {x * p0}")
        for b in n.buses.index:
            p = g("Bus", "p", b, t)
            if abs(p - inj[b, t]) > 1e-4:
                bad("injection", f"bus {b} at {t} reports p={p}, its assets sum to {inj[b, t]}")
            if abs(p - flow[b, t]) > 1e-4:
                bad("balance", f"bus {b} at {t}: p={p}, outgoing flows {flow[b, t]}")
    for c, a in refopt.NOM.items():
        for k in n.static(c).index:
            s = n.static(c).loc[k]
            if not s[a + "_extendable"] and s[a + "_opt"] != s[a]:
                bad("nom_opt", f"{c} {k} {a}_opt {s[a + '_opt']} differs from the fixed {a} {s[a]}")


def run(case):
    import numpy as np
    r = core.Result()
    n = base(case["p"])
    multi = bool(case["p"])
    key = core.digest(case)
    done = []
    r.sample = case
    for e, s in case["steps"]:
        edit(n, e)
        done.append(e)
        S = n.snapshots
        S = {"all": S, "loss": S, "first": S[:2], "last": S[2:], "infeasible": S[:2], "error": S[1:]}[s]
        what = f"{case['steps'][:len(done)]} (periods={case['p']})"
        r.state([case["p"], case["steps"][:len(done)]])
        if s == "infeasible":
            save = n.loads.at["ld", "p_set"], n.loads_t.p_set["ld"].copy()
            n.loads_t.p_set["ld"] = 1e5
        kw = dict(multi_investment_periods=multi)
        if s == "loss":
            kw["transmission_losses"] = 2
        before, out = inputs(n), outputs(n)
        ext_opt = {c: n.static(c)[a + "_opt"].copy() for c, a in refopt.NOM.items()}
        raised = None
        try:
            if s == "error":
                def fail(n, sns):
                    raise ZeroDivisionError("from extra_functionality")
                n.optimize(S, extra_functionality=fail, **kw)
                st = None
            else:
                st = nets.optimize(n, S, **kw)
        except ZeroDivisionError as x:
            raised, st = x, None
        r.transitions += 1
        after = inputs(n)
        for k in before:
            if k not in after or not same(before[k], after[k]):
                d = "" if k not in after or k in ("snapshots",) else [x for x in before[k].columns if x not in after[k] or not before[k][x].equals(after[k][x])] + [x for x in after[k] if x not in before[k]]
                r.bad(f"input:{k}:{key}", f"input {k} {d} changed by {what}")
        for k in after:
            if k not in before:
                r.bad(f"input:{k}:{key}", f"input table {k} appeared by {what}")
        new = outputs(n)
        ok = st is not None and tuple(st) == ("ok", "optimal")
        rest = n.snapshots.difference(S) if ok else n.snapshots
        for (c, a), df in out.items():
            cols = df.columns
            x = new.get((c, a))
            if x is None or not set(cols) <= set(x.columns) or not np.allclose(df.loc[rest].values.astype(float), x.loc[rest, cols].values.astype(float), atol=1e-9, equal_nan=True):
                r.bad(f"other:{c}:{a}:{key}", f"results {c} {a} of snapshots not optimised ({list(rest)}) changed by {what}")
        if s in ("infeasible", "error"):
            if ok:
                r.bad(f"status:{key}", f"infeasible problem reported {st} by {what}")
            if s == "infeasible":
                n.loads_t.p_set["ld"] = save[1]
            for c in ext_opt:
                if not n.static(c)[refopt.NOM[c] + "_opt"].equals(ext_opt[c]):
                    r.bad(f"nom_opt:{key}", f"{c} optimal capacities changed by {what}")
            continue
        if not ok:
            r.bad(f"status:{key}", f"feasible problem reported {st} by {what}")
            continue
        check(n, r, S, multi, s == "loss", key, what)
        ref = refopt.build(n, sns=S, multi=multi, losses=2 if s == "loss" else 0)
        res = refopt.compare(n, r, st, prefix=f"opt:{key}:", model=ref, tol=1e-4)
        r.traces += 1
        if not case["fresh"]:
            continue
        # a fresh network with the same inputs
        f = base(case["p"])
        for e2 in done:
            edit(f, e2)
        nets.optimize(f, S, **kw)
        x, y = refopt.extract(n, ref), refopt.extract(f, ref)
        if np.isfinite(x).all() and not np.allclose(x, y, atol=2e-3):
            i = int(np.nanargmax(abs(x - y)))
            r.bad(f"fresh:{key}", f"{ref.keys[i]} is {x[i]}, {y[i]} in a fresh network with the same inputs, by {what}")
    return r
