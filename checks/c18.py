"""C18: global constraints."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C18"
HS = [0]
TECHNIQUE = "explicit enumeration of constrained optimisation problems (product space of constraint type, sense, level, scope and component modes), each solved by the real optimiser and judged against an independent reference problem, its optimum and the one-sided slopes of its optimal value"
RULE = ("Every scenario adds one or two global constraints (every type, sense, level from slack to tight, carrier list, bus, investment period) to a small system with generators, storage and branches of several carriers inside and outside the scope; "
        "disjoint scenarios share one call of optimize. Feasibility, optimality and the reported shadow price (between the one-sided slopes of the optimum) are judged per scenario.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "stored-energy terms of limits that name a single investment period are not specified and not enumerated"]
W3 = {"objective": [1.0, 2.5, 0.5], "stores": [1.0, 2.0, 3.0], "generators": [2.0, 1.0, 1.5]}
NAN = float("nan")


def BOUNDS(tier):
    return "flat and 2/3-period systems, all constraint types x senses x 3 levels x scopes (carrier lists, buses, periods) x component modes; pairs of constraints" + ("" if tier == "quick" else "; all ordered pairs of constraints, more levels")


def energy(sc, p):
    """primary energy / operational limits"""
    a, b, f = p + "a", p + "b", p + "free"
    T = 3 if sc["np"] == 0 else 2 * sc["np"]
    sp = [["Carrier", a, {}], ["Carrier", b, {}], ["Carrier", f, {}], ["Bus", "b", {}],
          ["Generator", "ga", dict(bus="b", carrier=a, p_nom=8.0, marginal_cost=5.0, efficiency=sc["eff"] if not isinstance(sc["eff"], list) else (sc["eff"] * 3)[:T], **sc.get("ga", {}))],
          ["Generator", "ga2", dict(bus="b", carrier=a, p_nom=4.0, marginal_cost=22.0, efficiency=0.8)],
          ["Generator", "gb", dict(bus="b", carrier=b, p_nom=7.0, marginal_cost=11.0)],
          ["Generator", "h", dict(bus="b", carrier=f, p_nom=60.0, marginal_cost=50.0)],
          ["Generator", "curt", dict(bus="b", carrier=f, p_nom=60.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0)],
          ["Load", "l", dict(bus="b", p_set=[9.0, 16.0, 6.0, 12.0, 18.0, 13.0][:T])]]
    if sc["su"]:
        sp.append(["StorageUnit", "s", dict(bus="b", carrier=a, p_nom=3.0, max_hours=3.0, state_of_charge_initial=5.0, cyclic_state_of_charge=sc["su"] == 2, efficiency_dispatch=0.9, inflow=1.0)])
    if sc["st"]:
        sp.append(["Store", "e", dict(bus="b", carrier=b, e_nom=12.0, e_initial=7.0, e_cyclic=sc["st"] == 2)])
    for i, g in enumerate(sc["gc"]):
        at = dict(type=g["t"], sense=g["s"], constant=g["c"], carrier_attribute=(p + "em" if g["t"] == "primary_energy" else p + g.get("car", "a")))
        if g.get("per") is not None:
            at["investment_period"] = float(g["per"])
        sp.append(["GlobalConstraint", f"gc{i}", at])
    return sp


def trans(sc, p):
    ac, dc = p + "AC", p + "DC"
    np_ = sc["np"]
    T = 3 if np_ == 0 else 2 * np_
    sp = [["Carrier", ac, {}], ["Carrier", dc, {}]] + [["Bus", f"n{i}", dict(v_nom=10.0)] for i in range(3)]
    for i, (a, b) in enumerate([(0, 1), (1, 2), (2, 0)]):
        at = dict(bus0=f"n{a}", bus1=f"n{b}", x=[10.0, 25.0, 40.0][i], r=1.0, carrier=ac, s_nom=[3.0, 5.0, 8.0][i], length=[2.0, 0.5, 3.0][i], capital_cost=[4.0, 9.0, 1.5][i])
        if i < 2:
            at["s_nom_extendable"] = True
        if np_:
            at["build_year"], at["lifetime"] = sc["win"][i][0], float(sc["win"][i][1])
        sp.append(["Line", f"e{i}", at])
    for i, (a, b) in enumerate([(0, 2), (1, 0)]):
        at = dict(bus0=f"n{a}", bus1=f"n{b}", carrier=dc if i == 0 else ac, p_nom=2.0, p_nom_extendable=True, p_min_pu=-1.0, capital_cost=[6.0, 14.0][i], length=[4.0, 1.0][i])
        if np_:
            at["build_year"], at["lifetime"] = sc["win"][2 - i][0], float(sc["win"][2 - i][1])
        sp.append(["Link", f"k{i}", at])
    for i in range(3):
        sp.append(["Generator", f"g{i}", dict(bus=f"n{i}", p_nom=90.0, marginal_cost=[10.0, 35.0, 52.0][i])])
        sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0, 9.0, 11.0, 2.0], [11.0, 2.0, 25.0, 16.0, 4.0, 19.0], [1.0, 9.0, 14.0, 2.0, 12.0, 8.0]][i][:T])])
    for i, g in enumerate(sc["gc"]):
        at = dict(type=g["t"], sense=g["s"], constant=g["c"], carrier_attribute=g["car"].replace("AC", ac).replace("DC", dc))
        if g.get("per") is not None:
            at["investment_period"] = float(g["per"])
        sp.append(["GlobalConstraint", f"gc{i}", at])
    return sp


def tech(sc, p):
    a, b = p + "a", p + "b"
    np_ = sc["np"]
    T = 3 if np_ == 0 else 2 * np_
    sp = [["Carrier", a, {}], ["Carrier", b, {}], ["Bus", "n0", {}], ["Bus", "n1", {}], ["Link", "free", dict(bus0="n0", bus1="n1", p_nom=5.0, p_min_pu=-1.0)]]

    def win(at, i):
        if np_:
            at["build_year"], at["lifetime"] = sc["win"][i][0], float(sc["win"][i][1])
        return at
    for i, (bus, car, cc, mc) in enumerate([("n0", a, 12.0, 5.0), ("n1", a, 9.0, 7.0), ("n0", b, 20.0, 2.0), ("n0", a, 30.0, 1.0)]):
        sp.append(["Generator", f"g{i}", win(dict(bus=bus, carrier=car, p_nom_extendable=True, capital_cost=cc, marginal_cost=mc, p_nom_max=40.0), i % 3)])
    if sc["more"]:
        sp.append(["StorageUnit", "s", win(dict(bus="n1", carrier=a, p_nom_extendable=True, capital_cost=3.0, max_hours=2.0, cyclic_state_of_charge=True, p_nom_max=40.0), 1)])
        sp.append(["Store", "e", win(dict(bus="n0", carrier=b, e_nom_extendable=True, capital_cost=1.0, e_cyclic=True, e_nom_max=40.0), 2)])
        sp.append(["Link", "k", win(dict(bus0="n1", bus1="n0", carrier=a, p_nom_extendable=True, capital_cost=2.0, p_nom_max=40.0), 0)])
    sp += [["Generator", "fixed", dict(bus="n0", carrier=a, p_nom=3.0, marginal_cost=20.0)]]
    for i in range(2):
        sp.append(["Generator", f"h{i}", dict(bus=f"n{i}", p_nom=60.0, marginal_cost=50.0 + i)])
        sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0, 9.0, 11.0, 2.0], [11.0, 2.0, 25.0, 16.0, 4.0, 19.0]][i][:T])])
    for i, g in enumerate(sc["gc"]):
        if g["t"] == "nom":     # limit column of the bus table
            col = f"nom_{g['s']}_{p}{g['car']}" + (f"_{g['per']}" if g.get("per") is not None else "")
            for s in sp:
                if s[0] == "Bus" and s[1] == g["bus"]:
                    s[2][col] = g["c"]
            continue
        at = dict(type=g["t"], sense=g["s"], constant=g["c"], carrier_attribute=p + g["car"])
        if g.get("bus"):
            at["bus"] = g["bus"]
        if g.get("per") is not None:
            at["investment_period"] = float(g["per"])
        sp.append(["GlobalConstraint", f"gc{i}", at])
    return sp


MAKE = dict(energy=energy, trans=trans, tech=tech)
PER = {2: [2020, 2030], 3: [2020, 2030, 2040]}
WINS = [[[0, 3000]] * 3, [[2020, 10], [2020, 3000], [2030, 3000]], [[2030, 10], [0, 3000], [2020, 10]], [[2010, 15], [2030, 3000], [2030, 3000]]]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    # energy limits, flat
    lv = {"primary_energy": {"<=": [18.0, 40.0, 1e4], ">=": [25.0, -5.0, 33.0], "==": [20.0, 31.5]}, "operational_limit": {"<=": [4.0, 25.0, 1e4], ">=": [28.0, 0.0, 36.0], "==": [12.0, 30.0]}}
    for t in lv:
        for s in ("<=", ">=", "=="):
            for c in lv[t][s]:
                for eff in (1.0, 0.5, [0.5, 0.8, 0.25]):
                    for su, st in ((0, 0), (1, 0), (0, 1), (2, 2), (1, 1)):
                        for car in (("a",) if t == "primary_energy" else ("a", "b")):
                            if t == "operational_limit" and eff == 0.5:
                                continue
                            cc = c * 0.5 if car == "b" else c
                            out.append(dict(kind="energy", np=0, eff=eff, su=su, st=st, gc=[dict(t=t, s=s, c=cc, car=car)]))
    for s1, s2 in itertools.product(("<=", ">="), repeat=2):
        for t2, c2 in (("primary_energy", 30.0), ("operational_limit", 15.0)):
            out.append(dict(kind="energy", np=0, eff=0.5, su=1, st=1, gc=[dict(t="primary_energy", s=s1, c=30.0 if s1 == "<=" else 10.0), dict(t=t2, s=s2, c=c2, car="a")]))
    # ... with periods
    for np_ in (2, 3):
        for t in lv:
            for s in ("<=", ">=", "=="):
                for c in (150.0, 260.0, 1e4 if s == "<=" else 60.0):
                    for per in [None] + PER[np_] + [2077]:
                        if per == 2077 and t == "operational_limit":
                            continue
                        for cyc in (0, 2):
                            k = 1.0 if per is None else 0.4
                            for ga in ({}, dict(build_year=2030, lifetime=10.0)):
                                out.append(dict(kind="energy", np=np_, eff=[0.5, 0.8], su=cyc, st=cyc, ga=ga, gc=[dict(t=t, s=s, c=c * k if c < 1e4 else c, car="a", per=per)]))
    # transmission limits
    for t, cs in (("transmission_volume_expansion_limit", {"<=": [14.0, 40.0, 1e5], ">=": [90.0, 3.0], "==": [50.0]}), ("transmission_expansion_cost_limit", {"<=": [45.0, 110.0, 1e6], ">=": [300.0, 5.0], "==": [150.0]})):
        for s in cs:
            for c in cs[s]:
                for car in ("AC", "DC", "AC,DC", "[AC, DC]", "(AC)"):
                    out.append(dict(kind="trans", np=0, gc=[dict(t=t, s=s, c=c, car=car)]))
                for np_ in (2, 3):
                    for wi, w in enumerate(WINS):
                        for per in [None] + PER[np_]:
                            for car in ("AC", "AC,DC"):
                                if quick and (wi + (per or 0) // 10 + len(car)) % 2:
                                    continue
                                out.append(dict(kind="trans", np=np_, win=w, gc=[dict(t=t, s=s, c=c, car=car, per=per)]))
    # technology capacity limits and bus limits
    for s, c in (("<=", 6.0), ("<=", 500.0), (">=", 25.0), ("==", 17.0), ("==", 2.0)):
        for car in ("a", "b"):
            for bus in (None, "n0") + (("n1",) if car == "a" else ()):
                for more in (0, 1):
                    for np_ in (0, 2, 3):
                        for wi, w in enumerate(WINS if np_ else WINS[:1]):
                            for per in ([None] if wi == 0 else []) + (PER[np_] if np_ else []):
                                if quick and np_ and (wi + (per or 0) // 10 + more + (bus == "n0")) % 2:
                                    continue
                                out.append(dict(kind="tech", np=np_, win=w, more=more, gc=[dict(t="tech_capacity_expansion_limit", s=s, c=c, car=car, bus=bus, per=per)]))
    for s, c in (("max", 6.0), ("min", 25.0), ("max", 0.0)):
        for car in ("a", "b"):
            for more in (0, 1):
                for np_ in (0, 2, 3):
                    for w in (WINS if np_ else WINS[:1]):
                        for per in [None] + (PER[np_] if np_ else []):
                            out.append(dict(kind="tech", np=np_, win=w, more=more, gc=[dict(t="nom", s=s, c=c, car=car, bus="n0", per=per)]))
    # two limits together, with and without bus
    for b1, b2 in itertools.product((None, "n0", "n1"), repeat=2):
        for s1, s2 in (("<=", "<="), (">=", "<="), ("<=", ">=")):
            out.append(dict(kind="tech", np=0, more=1, win=WINS[0], gc=[dict(t="tech_capacity_expansion_limit", s=s1, c=4.0 if s1 == "<=" else 12.0, car="a", bus=b1), dict(t="tech_capacity_expansion_limit", s=s2, c=5.0 if s2 == "<=" else 3.0, car="a" if b1 != b2 else "b", bus=b2 if b1 != b2 or b2 != "n1" else "n0")]))
    return out


def conf(np_):
    if np_ == 0:
        return dict(T=3, weightings=W3)
    return dict(snapshots=[0, 1], periods=PER[np_], weightings={"objective": [1.0, 2.5] * np_, "stores": [1.0, 2.0] * np_, "generators": [2.0, 1.5] * np_},
                period_weightings=dict(objective=[1.0, 0.6, 0.3][:np_], years=[10, 7, 5][:np_]))


def feasible_class(sc):
    return any(g["t"] == "tech_capacity_expansion_limit" and not g.get("bus") for g in sc["gc"])


def cases(tier):
    S = scenarios(tier)
    for kind in ("energy", "trans", "tech"):
        for np_ in (0, 2, 3):
            L = [s for s in S if s["kind"] == kind and s["np"] == np_]
            # with and without a bus column in the table of limits
            for flag in (False, True):
                for b in optrun.batches([s for s in L if feasible_class(s) == flag], 40):
                    yield dict(conf=conf(np_), scen=b)
            mixed = [s for s in L if kind == "tech" and len(s["gc"]) == 1 and s["gc"][0]["t"] != "nom"]
            if mixed:
                for b in optrun.batches(mixed[:: max(1, len(mixed) // 24)], 12):
                    yield dict(conf=conf(np_), scen=b)
    # sub-ranges of the snapshots
    L = [s for s in S if s["kind"] == "energy" and s["np"] == 0 and s["eff"] == 0.5 and s["gc"][0]["s"] == "<="]
    for sns in ([0, 1], [1, 2], [1]):
        for b in optrun.batches(L, 40):
            yield dict(conf=dict(conf(0), sns=sns), scen=b)


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    parts, names = [], {}
    scen = {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, MAKE[sc["kind"]](sc, p)))
        scen[p] = sc
        names[p] = sc["kind"] + "-" + core.digest([case["conf"], sc])
        r.state([case["conf"], sc])

    def hook(n):
        for p, sc in scen.items():
            if sc["kind"] == "energy" and p + "a" in n.carriers.index:
                n.carriers[p + "em"] = 0.0
                n.carriers.loc[p + "a", p + "em"] = 0.6
                n.carriers.loc[p + "b", p + "em"] = 0.9

    def judge(n, m, sub, p, spec, xs, best):
        for e, lo, hi, t in list(sub.rows):
            if not t.startswith("global:"):
                continue
            name = t[7:]
            mu = float(n.global_constraints.at[name, "mu"])
            i = [x[3] for x in sub.rows].index(t)
            slopes = []
            c = lo if lo > -1e300 else hi
            d = 1e-3 * max(1.0, abs(c))
            for sg in (-1, 1):
                sub.rows[i] = (e, lo + sg * d, hi + sg * d, t)
                st, v, _ = sub.solve()
                slopes.append((v - best) / (sg * d) if st == "optimal" else sg * float("inf"))
            sub.rows[i] = (e, lo, hi, t)
            tol = 1e-3 * max(1.0, abs(best) / max(1.0, abs(c)) * 0.05, abs(mu))
            if not (slopes[0] - tol <= mu <= slopes[1] + tol):
                r.bad(f"mu:{names[p]}", f"shadow price of {name} is {mu}, one-sided slopes of the optimum are {slopes} in {scen[p]}")
            r.transitions += 0
    optrun.solve_parts(r, case["conf"], parts, lambda p: names[p], hook=hook, judge=judge)
    r.sample = case["scen"][0]
    return r
