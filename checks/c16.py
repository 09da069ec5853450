"""C16: multi-period investment."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C16"
HS = [0]
TECHNIQUE = "explicit enumeration of multi-period investment problems (all activity windows per asset class, all window assignments of a meshed grid, growth-limit product space), each solved by the real optimiser and judged against an independent reference problem and its optimum"
RULE = ("Every scenario places assets with every activity window (build year x lifetime, including windows that start late, end early, lie before, between or after the periods) in a system of 2 or 3 investment periods: one asset of each class "
        "fixed, extendable, extendable with existing capacity or modular; pairs of competing assets; triangles of lines and transformers with a window per branch (the grid differs per period); carriers with growth limits; bus limits. "
        "Feasibility, optimality, inactivity outside the window and, for one period with unit weights, equality with the plain optimisation are judged.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference MILPs correctly"]
PER = {2: [2020, 2030], 3: [2020, 2030, 2040]}
PWS = [dict(objective=[1.0, 0.6, 0.3], years=[10, 10, 5]), dict(objective=[1.0, 1.0, 1.0], years=[1, 1, 1]), dict(objective=[10.0, 4.0, 7.0], years=[10, 10, 10])]
WIN = [[0, 3000], [2020, 10], [2020, 20], [2030, 999], [2030, 10], [2025, 15], [2040, 30], [0, 2030], [0, 2029], [2021, 9], [2041, 10], [2025, 3]]


def BOUNDS(tier):
    return "1, 2 and 3 periods of 2 snapshots; 12 activity windows x 6 asset classes x 4 investment modes; all pairs of 6 windows; 5^3 window assignments of a triangle; growth limits: windows x limits x relative growth" + ("" if tier == "quick" else "; three period weightings everywhere; all triples of windows")


def base(np_, k=0):
    T = 2 * np_
    return [["Bus", "b", {}], ["Generator", "h", dict(bus="b", p_nom=60.0, marginal_cost=[50.0, 45.0, 60.0, 55.0, 52.0, 58.0][:T])],
            ["Generator", "curt", dict(bus="b", p_nom=60.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0)],
            ["Load", "l", dict(bus="b", p_set=[9.0, 16.0, 6.0, 12.0, 18.0, 13.0][:T])]]


def window(a, w):
    a["build_year"], a["lifetime"] = w[0], float(w[1])
    return a


def cap(a, mode, cc):
    if mode == "fix":
        return {a: 6.0, "capital_cost": cc}
    o = {a + "_extendable": True, "capital_cost": cc}
    if mode == "exist":
        o.update({a: 4.0, a + "_min": 2.0, a + "_max": 12.0})
    if mode == "mod":
        o.update({a + "_mod": 2.5, a + "_max": 14.0})
    return o


def specs(sc):
    np_, k = sc["np"], sc["kind"]
    T = 2 * np_
    if k == "one":
        cls, mode, w = sc["cls"], sc["mode"], sc["win"]
        sp = base(np_)
        if cls == "Generator":
            sp.append([cls, "g", window(dict(bus="b", marginal_cost=5.0, p_max_pu=[1.0, 0.6, 0.9, 0.3, 1.0, 0.7][:T], **cap("p_nom", mode, 30.0)), w)])
            if mode == "fix" and w[0] <= 2020:    # the first ramp of an asset that appears later is not specified
                sp[-1][2].update(ramp_limit_up=0.2, ramp_limit_down=0.5)
            if mode == "exist":
                sp[-1][2].update(e_sum_max=30.0)
        elif cls == "Link":
            sp += [["Bus", "y", {}], ["Generator", "gy", dict(bus="y", p_nom=30.0, marginal_cost=4.0)], [cls, "k", window(dict(bus0="y", bus1="b", efficiency=0.9, marginal_cost=1.0, **cap("p_nom", mode, 25.0)), w)]]
        elif cls in ("Line", "Transformer"):
            sp += [["Bus", "y", dict(v_nom=10.0)], ["Bus", "z", {}], ["Generator", "gy", dict(bus="y", p_nom=30.0, marginal_cost=4.0)]]
            a = dict(bus0="y", bus1="b", x=0.1, r=0.01, **cap("s_nom", mode, 12.0))
            if cls == "Transformer":
                a["s_nom"] = 6.0
            sp.append([cls, "k", window(a, w)])
            sp.append(["Line", "always", dict(bus0="b", bus1="y", x=0.2, r=0.01, s_nom=3.0)])
        elif cls == "StorageUnit":
            sp += [["Generator", "c", dict(bus="b", p_nom=10.0, marginal_cost=[3.0, 6.0, 9.0, 40.0, 5.0, 35.0][:T])],
                   [cls, "s", window(dict(bus="b", max_hours=2.0, efficiency_store=0.9, cyclic_state_of_charge=True, **cap("p_nom", mode, 6.0)), w)]]
        else:
            sp += [["Generator", "c", dict(bus="b", p_nom=10.0, marginal_cost=[3.0, 6.0, 9.0, 40.0, 5.0, 35.0][:T])],
                   [cls, "s", window(dict(bus="b", e_cyclic=False, e_initial=1.0, e_cyclic_per_period=False, **cap("e_nom", mode, 3.0)), w)]]
        return sp
    if k == "pair":
        sp = base(np_)
        for i, (w, c) in enumerate(zip(sc["wins"], (30.0, 42.0, 18.0))):
            sp.append(["Generator", f"g{i}", window(dict(bus="b", marginal_cost=[5.0, 2.0, 9.0][i], p_nom_extendable=True, capital_cost=c, p_nom_max=[9.0, 14.0, 5.0][i], p_nom=[0.0, 3.0, 0.0][i]), w)])
        return sp
    if k == "grid":
        sp = [["Bus", f"n{i}", dict(v_nom=10.0)] for i in range(3)]
        for i, ((a, b), w) in enumerate(zip([(0, 1), (1, 2), (2, 0)], sc["wins"])):
            at = window(dict(bus0=f"n{a}", bus1=f"n{b}", s_nom=[9.0, 14.0, 6.0][i], x=[10.0, 25.0, 40.0][i], r=1.0), w)
            c = "Line"
            if sc["pat"][i] == "T":
                c = "Transformer"
                at.update(x=0.1 * [9.0, 14.0, 6.0][i])
            if sc["ext"] == i:
                at.update(s_nom_extendable=True, capital_cost=8.0, s_nom_max=20.0)
            sp.append([c, f"e{i}", at])
        for i in range(3):
            sp.append(["Generator", f"g{i}", dict(bus=f"n{i}", p_nom=70.0, marginal_cost=[10.0, 35.0, 22.0][i])])
            sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0, 9.0, 11.0, 2.0], [11.0, 2.0, 25.0, 16.0, 4.0, 19.0], [1.0, 9.0, 14.0, 2.0, 12.0, 8.0]][i][:T])])
        return sp
    if k == "growth":
        sp = base(np_)
        sp[1][2]["carrier"] = sp[2][2]["carrier"] = "free"
        sp += [["Carrier", "free", {}], ["Carrier", "lim", dict(max_growth=sc["mg"], max_relative_growth=sc["rel"])], ["Carrier", "lim2", dict(max_growth=sc["mg2"])]]
        for i, w in enumerate(sc["wins"]):
            sp.append(["Generator", f"g{i}", window(dict(bus="b", carrier=["lim", "lim", "lim2"][i], marginal_cost=[5.0, 2.0, 9.0][i], p_nom_extendable=True, capital_cost=[10.0, 12.0, 4.0][i]), w)])
        if sc["sto"]:
            sp.append(["StorageUnit", "s", window(dict(bus="b", carrier=sc.get("scar", "lim"), max_hours=2.0, p_nom_extendable=True, capital_cost=-1.5), sc["wins"][-1])])
        return sp
    raise AssertionError(sc)


def conf(np_, pw):
    if np_ == 1:
        return dict(snapshots=[0, 1], periods=[2020])
    return dict(snapshots=[0, 1], periods=PER[np_], weightings={"objective": [1.0, 2.5] * np_, "stores": [1.0, 2.0] * np_, "generators": [1.0, 1.5] * np_},
                period_weightings={k: v[:np_] for k, v in pw.items()})


def cases(tier):
    for np_ in (2, 3):
        one = [dict(kind="one", np=np_, cls=c, mode=m, win=w) for w in WIN for c in refopt.NOM for m in ("fix", "ext", "exist", "mod")]
        pair = [dict(kind="pair", np=np_, wins=list(ws)) for ws in itertools.product(WIN[:7], repeat=2 if tier == "quick" or np_ == 2 else 3)]
        gw = [WIN[0], WIN[1], WIN[2], WIN[3], WIN[6]]
        grid = [dict(kind="grid", np=np_, wins=list(ws), pat=p, ext=e) for ws in itertools.product(gw, repeat=3) for p, e in (("LLL", -1), ("LTL", 1), ("TLT", 0))[: 3 if np_ == 3 else 2]]
        growth = [dict(kind="growth", np=np_, wins=list(ws), mg=mg, rel=rel, mg2=mg2, sto=sto) for ws in itertools.product([WIN[0], WIN[1], WIN[3], WIN[4]], repeat=3)
                  for mg, rel, mg2, sto in ((4.0, 0.0, float("inf"), 0), (3.0, 0.0, 2.0, 0), (3.0, 0.8, 2.0, 1), (0.0, 1.5, 1e6, 0), (5.0, 0.5, float("inf"), 1))]
        # disjoint carriers per class (one generator carrier, one storage carrier)
        growth += [dict(kind="growth", np=np_, wins=[w], mg=mg, rel=rel, mg2=mg2, sto=1, scar="lim2") for w in (WIN[0], WIN[1], WIN[3], WIN[4]) for mg, rel, mg2 in ((4.0, 0.0, 2.0), (1.0, 0.5, 6.0))]
        for pi, pw in enumerate(PWS):
            L = one if pi == 0 else (one if tier != "quick" else [s for i, s in enumerate(one) if s["mode"] in ("ext", "exist")])
            for b in optrun.batches([s for s in L if s["mode"] != "mod"], 60) + optrun.batches([s for s in L if s["mode"] == "mod"], 24):
                yield dict(conf=conf(np_, pw), scen=b)
            if pi == 0 or tier != "quick":
                for b in optrun.batches(pair, 60) + optrun.batches(grid, 50):
                    yield dict(conf=conf(np_, pw), scen=b)
                for b in optrun.batches([s for s in growth if "scar" not in s], 40) + [[s] for s in growth if "scar" in s]:
                    yield dict(conf=conf(np_, pw), scen=b, also=["carrier"])
    # a single period
    one = [dict(kind="one", np=1, cls=c, mode=m, win=w) for w in WIN[:3] for c in refopt.NOM for m in ("fix", "ext", "exist")]
    for b in optrun.batches(one, 20):
        yield dict(conf=conf(1, None), scen=b, flat=True)


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    parts, names, D = [], {}, {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = sc["kind"] + "-" + core.digest([case["conf"], sc])
        r.state([case["conf"], sc])
    n = optrun.solve_parts(r, case["conf"], parts, lambda p: names[p], also=case.get("also", ()))
    r.sample = case["scen"][0]
    if n is None:
        return r
    for c, a in refopt.NOM.items():       # no operation outside the activity window
        d = n.dynamic(c)
        for g in n.static(c).index:
            dead = [t for t in n.snapshots if not refopt.is_active(n, c, g, t[0])]
            for attr in ("p", "p0", "p1", "p2", "e", "state_of_charge", "p_dispatch", "p_store"):
                if dead and attr in d and g in d[attr]:
                    x = d[attr].loc[dead, g].abs().max()
                    if x > 1e-6:
                        r.bad(f"inactive-output:{c}:{attr}", f"{c} {g} reports {attr}={x} in a period in which it is not active: {case['scen'][int(g.split('~')[0][1:])]}")
    if case.get("flat"):
        flat = optrun.network(dict(snapshots=[0, 1]), parts)
        st = nets.optimize(flat)
        r.transitions += 1
        r.traces += 1
        a, b = flat.objective + flat.objective_constant, n.objective + n.objective_constant
        if tuple(st) != ("ok", "optimal") or abs(a - b) > 1e-5 * max(1.0, abs(a)):
            r.bad(f"single-period:{core.digest(case)}", f"one period with unit weights costs {b}, the plain optimisation {a} ({st})")
    return r
