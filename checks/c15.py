"""C15: energy conservation of storage units and stores."""
import itertools
from mc import core, nets, optrun

ID = "C15"
HS = [0]
TECHNIQUE = "explicit enumeration of storage configurations (deviation-bounded single-period space, full product of the per-period modes), each solved by the real optimiser and judged against an independent level-by-level reference model and its optimum"
RULE = ("Every scenario is one storage unit or store next to generators of varying cost, deviating in at most k slots (mode, initial level, losses, efficiencies, inflow, spillage and storage costs, bounds, "
        "set levels, weightings), or one asset in a multi-period problem for every combination of cyclic / per-period flags, activity window and initial level; the reported level of every snapshot is "
        "recomputed from the reported power and the schedule's cost compared with the reference minimum.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "the per-period flags mean what the component documentation states: cyclic_*_per_period for cyclic assets, *_initial_per_period for others"]
W4 = {"objective": [1.0, 2.5, 0.5, 1.5], "stores": [1.0, 2.0, 3.0, 0.5], "generators": [2.0, 1.0, 1.5, 1.0]}


def BOUNDS(tier):
    return ("4 snapshots, <=2 deviating slots, two weightings, all contiguous sub-ranges of the snapshots for <=1 deviation; 2 and 3 periods of 2 snapshots with all 8 flag combinations x 6 activity windows x initial level x standing loss"
            if tier == "quick" else "as quick with <=3 deviating slots")


SU = dict(cyc=[False, True], ini=[0.0, 6.0], mh=[2.0, 0.5], es=[0.9, 1.0, [0.9, 0.5, 1.0, 0.7]], ed=[0.8, 1.0, [0.8, 0.6, 1.0, 0.5]], sl=[0.0, 0.1, [0.0, 0.3, 0.1, 0.2]], inflow=[0.0, 2.0, [4.0, 0.0, 1.0, 9.0]],
          spc=[0.0, 70.0, -3.0], mc=[0.5, [0.5, 30.0, -2.0, 1.0]], mcs=[0.0, 0.7, [1.0, 0.0, 2.0, 0.5]], mcq=[0.0, 0.2], p_max=[1.0, 0.5, [0.2, 1.0, 1.0, 0.0]], p_min=[-1.0, 0.0, -0.6, [-1.0, 0.0, -0.3, -1.0]],
          soc=[None, [None, 5.0, None, None], [4.0, 5.0, 3.0, 2.0]], pds=[None, [None, None, 1.5, None]], pst=[None, [2.0, None, None, None]], sign=[1.0, -1.0],
          load=[[2.0, 16.0, 6.0, 12.0], [18.0, 3.0, 18.0, 1.0]])
STORE = dict(cyc=[False, True], ini=[0.0, 6.0], emin=[0.0, 0.2, -1.0, [0.0, 0.5, 0.1, 0.3]], emax=[1.0, 0.6, [1.0, 0.4, 1.0, 0.7]], sl=[0.0, 0.1, [0.0, 0.3, 0.1, 0.2]], mc=[0.0, 1.5, [0.5, 30.0, -2.0, 1.0]],
             mcs=[0.0, 0.7, [1.0, 0.0, 2.0, 0.5]], mcq=[0.0, 0.2], es=[None, [None, 5.0, None, None], [4.0, 5.0, 3.0, 2.0]], sign=[1.0, -1.0], load=[[2.0, 16.0, 6.0, 12.0], [18.0, 3.0, 18.0, 1.0]])
WINDOWS = [[0, 3000], [2030, 999], [2040, 999], [0, 2030], [2020, 10], [2030, 10]]


def cheap(d, T):
    c = [3.0, 6.0, 40.0, 9.0, 25.0, 4.0][:T]
    return [["Bus", "b", {}], ["Generator", "cheap", dict(bus="b", p_nom=9.0, marginal_cost=c)], ["Generator", "h", dict(bus="b", p_nom=60.0, marginal_cost=50.0)],
            ["Generator", "curt", dict(bus="b", p_nom=60.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0)], ["Load", "l", dict(bus="b", p_set=d["load"])]]


def specs(sc):
    d = sc["d"]
    if sc["kind"] == "su":
        a = dict(bus="b", p_nom=5.0, cyclic_state_of_charge=d["cyc"], state_of_charge_initial=d["ini"], max_hours=d["mh"], efficiency_store=d["es"], efficiency_dispatch=d["ed"], standing_loss=d["sl"],
                 inflow=d["inflow"], spill_cost=d["spc"], marginal_cost=d["mc"], marginal_cost_storage=d["mcs"], marginal_cost_quadratic=d["mcq"], p_max_pu=d["p_max"], p_min_pu=d["p_min"], sign=d["sign"])
        for k, s in (("soc", "state_of_charge_set"), ("pds", "p_dispatch_set"), ("pst", "p_store_set")):
            if d[k] is not None:
                a[s] = d[k]
        return cheap(d, 4) + [["StorageUnit", "s", a]]
    if sc["kind"] == "store":
        a = dict(bus="b", e_nom=10.0, e_cyclic=d["cyc"], e_initial=d["ini"], e_min_pu=d["emin"], e_max_pu=d["emax"], standing_loss=d["sl"], marginal_cost=d["mc"], marginal_cost_storage=d["mcs"],
                 marginal_cost_quadratic=d["mcq"], sign=d["sign"])
        if d["es"] is not None:
            a["e_set"] = d["es"]
        return cheap(d, 4) + [["Store", "s", a]]
    su = sc["kind"] == "psu"
    T = 2 * sc["np"]
    by, life = d["win"]
    a = dict(bus="b", standing_loss=d["sl"], build_year=by, lifetime=float(life))
    if su:
        a.update(p_nom=5.0, max_hours=2.0, efficiency_store=0.9, efficiency_dispatch=0.8, cyclic_state_of_charge=d["cyc"], cyclic_state_of_charge_per_period=d["cpp"], state_of_charge_initial=d["ini"],
                 state_of_charge_initial_per_period=d["ipp"])
        if d.get("inflow"):
            a["inflow"] = [1.0, 0.0, 3.0, 0.0, 0.0, 2.0][:T]
    else:
        a.update(e_nom=10.0, e_cyclic=d["cyc"], e_cyclic_per_period=d["cpp"], e_initial=d["ini"], e_initial_per_period=d["ipp"])
    return cheap(dict(load=[2.0, 16.0, 6.0, 12.0, 18.0, 3.0][:T]), T) + [["StorageUnit" if su else "Store", "s", a]]


def cases(tier):
    k = 2 if tier == "quick" else 3
    lin = [dict(kind=kd, d=d) for kd, sl in (("su", SU), ("store", STORE)) for d in core.deviations(sl, k)]
    one = [s for s in (dict(kind=kd, d=d) for kd, sl in (("su", SU), ("store", STORE)) for d in core.deviations(sl, 1)) if s["d"]["mcq"] == 0.0]
    for conf in (dict(T=4), dict(T=4, weightings=W4)):
        for b in optrun.batches([s for s in lin if s["d"]["mcq"] == 0.0], 60):
            yield dict(conf=conf, scen=b)
    for b in optrun.batches([s for s in lin if s["d"]["mcq"] != 0.0], 8):
        yield dict(conf=dict(T=4, weightings=W4), scen=b)
    for i in range(4):
        for j in range(i + 1, 5):
            if j - i < 4:
                for b in optrun.batches(one, 60):
                    yield dict(conf=dict(T=4, weightings=W4, sns=list(range(i, j))), scen=b)
    for np_ in (2, 3):
        P = [2020, 2030, 2040][:np_]
        allp = []
        for kd in ("psu", "pstore"):
            for cyc, cpp, ipp in itertools.product((False, True), repeat=3):
                for win in WINDOWS:
                    for ini in (0.0, 6.0):
                        for sl in (0.0, 0.1):
                            allp.append(dict(kind=kd, np=np_, d=dict(cyc=cyc, cpp=cpp, ipp=ipp, win=win, ini=ini, sl=sl, inflow=(ini > 0) != (sl > 0))))
        w = {"objective": [1.0, 2.5] * np_, "stores": [1.0, 2.0] * np_, "generators": [1.0, 1.0] * np_}
        for b in optrun.batches(allp, 60):
            yield dict(conf=dict(snapshots=[0, 1], periods=P, weightings=w, period_weightings=dict(objective=[1.0, 0.6, 0.3][:np_], years=[10, 10, 5][:np_])), scen=b)


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    parts, names = [], {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        d = sc["d"]
        cls = f"{sc['kind']}-{int(d['cyc'])}{int(d['cpp'])}{int(d['ipp'])}-" if sc["kind"].startswith("p") else ""
        names[p] = cls + core.digest([case["conf"], sc])
        r.state([case["conf"], sc])
    optrun.solve_parts(r, case["conf"], parts, lambda p: names[p])
    r.sample = case["scen"][0]
    return r
