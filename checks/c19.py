"""C19: rolling horizon optimisation."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C19"
HS = [0]
TECHNIQUE = "explicit enumeration of systems x all (horizon, overlap) pairs; the real rolling-horizon run is compared with a hand-over run whose every window is judged against an independent reference problem, and the stitched trajectory is checked against the reference rows of the whole range"
RULE = ("Systems with ramping and committable generators and links, storage units and stores (at most k deviating slots) are rolled with every horizon and overlap; the same windows are optimised one by one with the state handed over explicitly, each of them judged for "
        "feasibility, optimality and hand-over against the reference; the stitched results must agree and satisfy every documented limit of the whole range, and one window must equal the plain optimisation.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference problems exactly", "costs are generic so that window optima are unique up to tolerance"]
T = 6


def BOUNDS(tier):
    return "6 snapshots; 12 (horizon, overlap) pairs for <=1 deviation, 3 pairs for 2 deviations; whole range and sub-ranges" if tier == "quick" else "6 snapshots; all (horizon, overlap) with horizon<=7 for <=2 deviations; whole range and sub-ranges"


GEN = dict(up=[None, 0.25, [0.1, 0.5, 0.2, 0.4, 0.15, 0.3]], down=[None, 0.2, [0.5, 0.1, 0.3, 0.2, 0.4, 0.1]], pmin=[0.0, 0.1], link=[0, 1], load=[[10.0, 16.0, 6.0, 11.0, 2.0, 14.0], [18.0, 3.0, 18.0, 4.0, 9.0, 1.0]])
COM = dict(ut=[0, 2, 3], dt=[0, 2, 3], ini=[(1, 0), (0, 0), (2, 0), (0, 1)], suc=[2.3, 31.0], up=[None, 0.35], down=[None, 0.3], rsu=[1.0, 0.5], rsd=[1.0, 0.6], sb=[0.0, 4.1], link=[0, 1],
           load=[[1.0, 9.0, 1.0, 9.0, 9.0, 1.0], [9.0, 9.0, 1.0, 1.0, 9.0, 1.0], [9.0, 1.0, 1.0, 5.0, 9.0, 4.0]])
STO = dict(kind=["su", "store"], ini=[0.0, 6.0], sl=[0.0, 0.1, [0.0, 0.3, 0.1, 0.2, 0.05, 0.1]], eff=[0.9, 1.0, [0.9, 0.5, 1.0, 0.7, 0.8, 0.6]], inflow=[0.0, [4.0, 0.0, 1.0, 9.0, 0.0, 2.0]], emin=[0.0, [0.0, 0.1, 0.2, 0.1, 0.3, 0.0]], mcs=[0.0, 0.7],
           load=[[2.0, 16.0, 6.0, 12.0, 3.0, 14.0], [18.0, 3.0, 18.0, 1.0, 9.0, 5.0]])


def specs(sc):
    d = sc["d"]
    sp = [["Bus", "b", {}], ["Generator", "h", dict(bus="b", p_nom=60.0, marginal_cost=[50.0, 51.3, 49.1, 52.7, 48.9, 53.3])],
          ["Generator", "curt", dict(bus="b", p_nom=60.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0)], ["Load", "l", dict(bus="b", p_set=d["load"])]]
    if sc["k"] == "sto":
        sp.append(["Generator", "cheap", dict(bus="b", p_nom=10.0, marginal_cost=[3.0, 6.1, 40.7, 9.3, 25.9, 4.4])])
        if d["kind"] == "su":
            sp.append(["StorageUnit", "s", dict(bus="b", p_nom=5.0, max_hours=3.0, state_of_charge_initial=d["ini"], standing_loss=d["sl"], efficiency_store=d["eff"], efficiency_dispatch=0.85, inflow=d["inflow"],
                                                marginal_cost=0.31, marginal_cost_storage=d["mcs"], spill_cost=0.017)])
        else:
            sp.append(["Store", "s", dict(bus="b", e_nom=12.0, e_initial=max(d["ini"], 4.0 if d["emin"] else 0.0), standing_loss=d["sl"], e_min_pu=0.0, marginal_cost=0.31, marginal_cost_storage=d["mcs"], e_max_pu=1.0 if not d["emin"] else [1.0, 0.8, 0.9, 0.7, 1.0, 0.6])])
        return sp
    g = dict(p_nom=20.0 if sc["k"] == "gen" else 10.0)
    for k, s in (("up", "ramp_limit_up"), ("down", "ramp_limit_down")):
        if d[k] is not None:
            g[s] = d[k]
    if sc["k"] == "gen":
        g.update(p_min_pu=d["pmin"], marginal_cost=[5.0, 5.3, 55.1, 4.7, 5.9, 54.9])
    else:
        g.update(committable=True, p_min_pu=0.4, marginal_cost=1.13, start_up_cost=d["suc"], shut_down_cost=1.07, min_up_time=d["ut"], min_down_time=d["dt"], up_time_before=d["ini"][0], down_time_before=d["ini"][1],
                 ramp_limit_start_up=d["rsu"], ramp_limit_shut_down=d["rsd"], stand_by_cost=d["sb"])
        sp[2][2]["marginal_cost"] = -3.3
    if d["link"]:
        sp += [["Bus", "o", {}], ["Generator", "s", dict(bus="o", p_nom=100.0, marginal_cost=0.41)], ["Link", "g", dict(bus0="o", bus1="b", efficiency=0.93, **g)]]
    else:
        sp.append(["Generator", "g", dict(bus="b", **g)])
    return sp


def horizons(top):
    return [(h, o) for h in range(1, top + 1) for o in range(0, h)]


def cases(tier):
    one = [dict(k=k, d=d) for k, sl in (("gen", GEN), ("sto", STO), ("com", COM)) for d in core.deviations(sl, 1)]
    two = [dict(k=k, d=d) for k, sl in (("gen", GEN), ("sto", STO), ("com", COM)) for d in core.deviations(sl, 2)]
    two = [s for s in two if s not in one]
    W = {"objective": [1.0, 2.5, 0.5, 1.5, 1.0, 2.0], "stores": [1.0, 2.0, 3.0, 0.5, 1.0, 1.5], "generators": [2.0, 1.0, 1.5, 1.0, 1.0, 1.0]}
    def groups(L, n):
        yield from optrun.batches(L, n)
    for h, o in ([x for x in horizons(4) if x != (4, 3)] + [(5, 1), (6, 0), (6, 4)]) if tier == "quick" else horizons(7):
        for b in groups(one if tier == "quick" else one + two, 80):
            yield dict(h=h, o=o, sns=None, scen=b, w=W)
    if tier == "quick":
        for h, o in ((2, 0), (3, 1), (4, 2)):
            for b in groups(two, 90):
                yield dict(h=h, o=o, sns=None, scen=b, w=W)
    for h, o in ((2, 0), (3, 1), (1, 0)) if tier == "thorough" else ((2, 0), (3, 1)):
        for sns in ([1, 2, 3, 4, 5], [0, 1, 2, 3], [2, 3, 4, 5]):
            for b in groups(one, 80):
                yield dict(h=h, o=o, sns=sns, scen=b, w=W)
    for b in groups(one, 80):
        yield dict(h=100, o=0, sns=None, scen=b, w=None)


def tag(case):
    return core.digest(case)


def cost(case):
    return len(case["scen"]) * 6 / (case["h"] - case["o"]) * (3 if case["scen"][0]["k"] == "com" else 1)


def run(case):
    import numpy as np
    r = core.Result()
    parts, names = [], {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = core.digest([case["h"], case["o"], case["sns"], sc])
        r.state([case["h"], case["o"], case["sns"], sc])
    r.sample = dict(case, scen=case["scen"][:1])
    conf = dict(T=T, weightings=case["w"])
    spec = dict(parts)
    pre = [p for p, _ in parts]
    a = optrun.network(conf, parts)
    S = list(a.snapshots) if case["sns"] is None else [a.snapshots[i] for i in case["sns"]]
    kw = dict(solver_name="highs", solver_options=dict(log_to_console=False, threads=1, mip_rel_gap=0.0, mip_abs_gap=1e-9))
    if case["sns"] is None:
        a.optimize.optimize_with_rolling_horizon(horizon=case["h"], overlap=case["o"], **kw)
    else:
        a.optimize.optimize_with_rolling_horizon(snapshots=a.snapshots[case["sns"]], horizon=case["h"], overlap=case["o"], **kw)
    b = optrun.network(conf, parts)
    start = 0
    while True:                      # hand over by hand
        win = S[start:start + case["h"]]
        if start:
            t = S[start - 1]
            for g in b.stores.index:
                b.stores.at[g, "e_initial"] = b.stores_t.e.at[t, g]
            for g in b.storage_units.index:
                b.storage_units.at[g, "state_of_charge_initial"] = b.storage_units_t.state_of_charge.at[t, g]
        ref = refopt.build(b, sns=win)
        subs = optrun.split(ref, pre)
        st = nets.optimize(b, b.snapshots[[list(b.snapshots).index(t) for t in win]])
        r.transitions += 1
        if tuple(st) != ("ok", "optimal"):
            bad = [p for p in pre if subs[p].solve()[0] != "optimal"]
            if not bad:
                r.bad(f"status:{core.digest(case)}", f"feasible window {win} reported {st}")
            else:
                raise AssertionError(f"infeasible by construction: {spec[bad[0]]}")
            return r
        x = refopt.extract(b, ref)
        for p, sub in subs.items():
            xs = np.array([x[ref.idx[k]] for k in sub.keys])
            if not np.isfinite(xs).all():
                r.bad(f"missing:{names[p]}", f"window {win}: no values for {[k for k, v in zip(sub.keys, xs) if v != v][:4]}: {spec[p]}")
                continue
            v = sub.violations(xs, 1e-4)
            if v:
                r.bad(f"window-infeasible:{names[p]}", f"window {win} violates " + "; ".join(y for _, y in v[:4]) + f" in {spec[p]}")
            s2, best, _ = sub.solve()
            if s2 == "optimal" and abs(sub.value(xs) - best) > 1e-4 * max(1.0, abs(best)):
                r.bad(f"window-suboptimal:{names[p]}", f"window {win} costs {sub.value(xs)}, minimum {best}: {spec[p]}")
            r.traces += 1
            r.outcome([round(float(best or 0), 2)])
        start += case["h"] - case["o"]
        if start >= len(S):
            break
    # the stitched results agree
    for c, attrs in (("Generator", ["p", "status", "start_up", "shut_down"]), ("Link", ["p0", "p1", "status"]), ("StorageUnit", ["p", "state_of_charge", "spill"]), ("Store", ["p", "e"])):
        for attr in attrs:
            x, y = a.dynamic(c).get(attr), b.dynamic(c).get(attr)
            if x is None or y is None:
                continue
            if list(x.columns) != list(y.columns) or list(x.index) != list(y.index):
                r.bad(f"stitch:{c}:{attr}", f"tables of {c} {attr} differ: {list(x.columns)} / {list(y.columns)}")
                continue
            if x.size and not np.allclose(x.values.astype(float), y.values.astype(float), atol=2e-4, equal_nan=True):
                d = (x.astype(float) - y.astype(float)).abs()
                g = d.max().idxmax()
                p = g.split("~")[0] + "~"
                r.bad(f"stitch:{names[p]}", f"{c} {g} {attr}: rolling {x[g].tolist()}, hand-over {y[g].tolist()} in {spec[p]} (horizon {case['h']}, overlap {case['o']})")
    # one trajectory over the whole range
    o = optrun.network(conf, parts)
    ref = refopt.build(o, sns=S)
    x = refopt.extract(a, ref)
    for p, sub in optrun.split(ref, pre).items():
        xs = np.array([x[ref.idx[k]] for k in sub.keys])
        if np.isfinite(xs).all():
            v = sub.violations(xs, 1e-4)
            if v:
                r.bad(f"trajectory:{v[0][0].split(':')[0]}:{names[p]}", f"stitched results violate " + "; ".join(y for _, y in v[:4]) + f" in {spec[p]} (horizon {case['h']}, overlap {case['o']})")
        r.traces += 1
    if case["h"] >= len(S):
        for p, sub in optrun.split(ref, pre).items():
            xs = np.array([x[ref.idx[k]] for k in sub.keys])
            best = sub.solve()[1]
            if not abs(sub.value(xs) - best) <= 1e-4 * max(1.0, abs(best)):
                r.bad(f"one-window:{names[p]}", f"one window costs {sub.value(xs)}, minimum of the whole problem {best}: {spec[p]}")
    return r
