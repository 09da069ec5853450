"""C13: capacity expansion."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C13"
HS = [0]
TECHNIQUE = "explicit enumeration of expansion problems (deviation-bounded configuration space per component type, all subsets of extendable branches of small meshed graphs), each solved by the real optimiser and judged for feasibility and optimality against an independent reference MILP"
RULE = ("Every scenario is a small expansion problem deviating in at most k slots from a base system (capital cost, existing capacity, minimum, maximum, module, set capacity, "
        "availability, ramp limits, efficiencies, energy bounds), or a passive grid over one multigraph with every subset of its branches extendable; reported capacities and dispatch are checked row by "
        "row and the total cost against the reference minimum; then all capacities are fixed and the problem solved again.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference MILPs correctly", "impedances of extendable branches stay those of the nominal capacity (the documented linear formulation)"]

W3 = {"objective": [1.0, 2.5, 0.5], "stores": [1.0, 2.0, 3.0], "generators": [2.0, 1.0, 1.5]}


def BOUNDS(tier):
    return ("one- and two-port systems of all six extendable classes with at most 2 deviating slots; grids over all connected multigraphs with <=3 buses/<=3 branches (every extendable subset) and 4-bus cycles; 3 snapshots"
            if tier == "quick" else "as quick with at most 3 deviating slots and 4-bus/5-branch grids")


CAP = dict(cc=[20.0, 0.0, 90.0], nom=[0.0, 5.0], lo=[0.0, 8.0, 13.5], hi=[None, 9.0, 3.0], mod=[0.0, 4.0, 2.5], set=[None, 7.0])
GEN = dict(CAP, p_max=[1.0, 0.7, [1.0, 0.5, 0.0]], p_min=[0.0, 0.3, -0.5, [0.0, 0.4, -0.2]], up=[None, 0.25, [0.1, 0.5, 0.2], 1.0], down=[None, 0.2],
           load=[[10.0, 16.0, 6.0], [18.0, 3.0, 18.0]], other=[0, 1], mc=[5.0, [5.0, 80.0, -2.0]], esum=[None, 20.0])
LINK = dict(CAP, eff=[1.0, 0.8, [0.9, 0.5, 1.0]], ports=[2, 3], p_min=[0.0, -1.0, 0.2, [-0.5, 0.0, 0.1]], p_max=[1.0, 0.7, [0.4, 1.0, 0.6]], up=[None, 0.3], down=[None, 0.15, 1.0],
            load=[[8.0, 15.0, 4.0], 6.0], mc=[1.0, -2.0])
SU = dict(CAP, cyc=[False, True], ini=[0.0, 6.0], mh=[2.0, 1.0, 0.0], es=[0.9, [0.9, 0.5, 1.0]], ed=[0.8], sl=[0.0, 0.1], inflow=[0.0, [4.0, 0.0, 1.0]], p_max=[1.0, 0.5, [0.2, 1.0, 1.0]], p_min=[-1.0, 0.0, -0.6],
          load=[[2.0, 16.0, 6.0], [18.0, 3.0, 18.0]])
STORE = dict(CAP, cyc=[True, False], ini=[0.0, 3.0], emin=[0.0, 0.2, [0.0, 0.5, 0.1]], emax=[1.0, 0.6, [1.0, 0.4, 1.0]], sl=[0.0, 0.1], load=[[2.0, 16.0, 6.0], [18.0, 3.0, 18.0]], mc=[0.0, 1.5])


def cap(a, d):
    o = {"capital_cost": d["cc"], a: d["nom"], a + "_extendable": True, a + "_min": d["lo"], a + "_mod": d["mod"]}
    if d["hi"] is not None:
        o[a + "_max"] = d["hi"]
    if d["set"] is not None:
        o[a + "_set"] = d["set"]
    return o


def opt(a, d, **m):
    for k, s in m.items():
        if d[k] is not None:
            a[s] = d[k]
    return a


def specs(sc):
    k, d = sc["kind"], sc.get("d")
    base = [["Bus", "b", {}], ["Generator", "h", dict(bus="b", p_nom=60.0, marginal_cost=50.0)], ["Generator", "curt", dict(bus="b", p_nom=60.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0)]]
    if k == "gen":
        g = dict(bus="b", marginal_cost=d["mc"], p_min_pu=d["p_min"], p_max_pu=d["p_max"], **cap("p_nom", d))
        opt(g, d, up="ramp_limit_up", down="ramp_limit_down", esum="e_sum_max")
        sp = base + [["Generator", "g", g], ["Load", "l", dict(bus="b", p_set=d["load"])]]
        if d["other"]:
            sp.append(["Generator", "e2", dict(bus="b", p_nom_extendable=True, capital_cost=30.0, marginal_cost=1.0, p_nom_mod=3.0, p_nom_max=10.0)])
        return sp
    if k == "link":
        a = dict(bus0="b", bus1="y", efficiency=d["eff"], p_min_pu=d["p_min"], p_max_pu=d["p_max"], marginal_cost=d["mc"], **cap("p_nom", d))
        opt(a, d, up="ramp_limit_up", down="ramp_limit_down")
        if d["ports"] == 3:
            a.update(bus2="z", efficiency2=0.3)
        sp = base[:1] + [["Bus", "y", {}], ["Bus", "z", {}], ["Link", "k", a]]
        for b, c in zip("byz", (10.0, 60.0, 45.0)):
            sp.append(["Generator", "g" + b, dict(bus=b, p_nom=60.0, p_min_pu=-0.5 if b != "b" else 0.0, marginal_cost=c)])
        return sp + [["Load", "ly", dict(bus="y", p_set=d["load"])], ["Load", "lx", dict(bus="b", p_set=3.0)], ["Load", "lz", dict(bus="z", p_set=2.0)]]
    if k == "su":
        a = dict(bus="b", cyclic_state_of_charge=d["cyc"], state_of_charge_initial=d["ini"], max_hours=d["mh"], efficiency_store=d["es"], efficiency_dispatch=d["ed"], standing_loss=d["sl"], inflow=d["inflow"],
                 p_max_pu=d["p_max"], p_min_pu=d["p_min"], marginal_cost=0.5, **cap("p_nom", d))
        return base + [["StorageUnit", "s", a], ["Generator", "cheap", dict(bus="b", p_nom=10.0, marginal_cost=[3.0, 6.0, 9.0])], ["Load", "l", dict(bus="b", p_set=d["load"])]]
    if k == "store":
        a = dict(bus="b", e_cyclic=d["cyc"], e_initial=d["ini"], e_min_pu=d["emin"], e_max_pu=d["emax"], standing_loss=d["sl"], marginal_cost=d["mc"], **cap("e_nom", d))
        return base + [["Store", "s", a], ["Generator", "cheap", dict(bus="b", p_nom=10.0, marginal_cost=[3.0, 6.0, 9.0])], ["Load", "l", dict(bus="b", p_set=d["load"])]]
    if k == "grid":
        sp = [["Bus", f"n{i}", dict(v_nom=10.0)] for i in range(sc["nb"])]
        for i, (a, b) in enumerate(sc["edges"]):
            t = sc["pat"][i]
            at = dict(bus0=f"n{a}", bus1=f"n{b}", s_nom=LIM[i], capital_cost=[2.0, 7.0, 0.5, 30.0, 4.0][(i + sc["rot"]) % 5])
            if t == "L":
                at.update(x=X[i] * 100.0, r=2.0)
            else:
                at.update(x=X[i] * LIM[i], r=0.2, tap_ratio=1.0 if t == "T" else 1.2)
            if sc["ext"] >> i & 1:
                at.update(s_nom_extendable=True, s_nom_min=1.5, s_nom_max=[40.0, 12.0, 25.0][(i + sc["rot"]) % 3])
                if sc["mod"] and i % 2 == 0:
                    at["s_nom_mod"] = 2.5
            if sc.get("smax") == i:
                at["s_max_pu"] = [0.5, 1.0, 0.7]
            sp.append(["Line" if t == "L" else "Transformer", f"e{i}", at])
        for i in range(sc["nb"]):
            sp.append(["Generator", f"g{i}", dict(bus=f"n{i}", p_nom=70.0, marginal_cost=[10.0, 35.0, 22.0, 47.0][(i + sc["rot"]) % 4])])
            sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0], [11.0, 2.0, 25.0], [1.0, 9.0, 14.0], [17.0, 5.0, 8.0]][i])])
        return sp
    raise AssertionError(sc)


X = [0.1, 0.25, 0.4, 0.15, 0.3]
LIM = [9.0, 4.0, 6.0, 11.0, 8.0]


def grids(tier):
    for nb, m in [(2, 1), (2, 2), (3, 2), (3, 3), (4, 4)] + ([(4, 5)] if tier != "quick" else []):
        for ed in nets.multigraphs(nb, m):
            if len(nets.components(nb, ed)) != 1:
                continue
            for pi, pat in enumerate(["L" * m, ("LTP" * m)[:m], ("PL" * m)[:m]]):
                e2 = [list(reversed(e)) if (i + pi) % 3 == 1 else e for i, e in enumerate(ed)]
                for ext in range(1, 2 ** m):
                    yield dict(kind="grid", nb=nb, edges=e2, pat=pat, ext=ext, mod=(ext + pi) % 2, rot=(ext + pi) % 4, smax=(ext % (m + 1)))


def cases(tier):
    k = 2 if tier == "quick" else 3
    lin = [dict(kind=kd, d=d) for kd, sl in (("gen", GEN), ("link", LINK), ("su", SU), ("store", STORE)) for d in core.deviations(sl, k)]
    lin += list(grids(tier))
    one = [dict(kind=kd, d=d) for kd, sl in (("gen", GEN), ("link", LINK), ("su", SU), ("store", STORE)) for d in core.deviations(sl, 1)]
    mip = lambda s: s["mod"] if s["kind"] == "grid" else (s["d"]["mod"] or s["d"].get("other"))
    trafo = lambda s: s["kind"] == "grid" and any(t != "L" and s["ext"] >> i & 1 for i, t in enumerate(s["pat"]))
    for conf, L in ((dict(weightings=W3), lin), (dict(), one)):
        for tr in (False, True):
            for mi, size in ((False, 60), (True, 20)):
                for b in optrun.batches([s for s in L if bool(mip(s)) == mi and trafo(s) == tr], size):
                    yield dict(conf=conf, scen=b, refix=not tr)   # the impedance of a transformer is relative to its nominal power


def tag(case):
    return core.digest(case)


def judge_nom(r, n, what):
    for c, a in refopt.NOM.items():
        s = n.static(c)
        fx = s[~s[a + "_extendable"]]
        for g in fx.index[abs(fx[a + "_opt"] - fx[a]) > 1e-9]:
            r.bad(f"nom_opt:{c}:{what}", f"optimal capacity of non-extendable {c} {g} is {fx.at[g, a + '_opt']}, nominal {fx.at[g, a]}")


def run(case):
    r = core.Result()
    parts, names = [], {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = core.digest([case["conf"], sc])
        r.state([case["conf"], sc])
    n = optrun.solve_parts(r, case["conf"], parts, lambda p: names[p])
    r.sample = case["scen"][0]
    if n is None or r.violations:
        return r
    judge_nom(r, n, "first")
    if not case["refix"]:
        return r
    capex = sum(float((n.static(c)["capital_cost"] * n.static(c)[a + "_opt"])[n.static(c)[a + "_extendable"]].sum()) for c, a in refopt.NOM.items())
    opex = n.objective + n.objective_constant - capex
    before = {c: n.static(c)[a + "_opt"].copy() for c, a in refopt.NOM.items()}
    n.optimize.fix_optimal_capacities()
    st = nets.optimize(n)
    r.transitions += 1
    if tuple(st) != ("ok", "optimal"):
        r.bad(f"refix:{core.digest(case)}", f"problem with the optimal capacities fixed is {st}")
        return r
    judge_nom(r, n, "refixed")
    for c, a in refopt.NOM.items():
        s = n.static(c)
        d = abs(s[a + "_opt"] - before[c])
        if len(d) and d.max() > 1e-6:
            r.bad(f"refix-nom:{c}", f"capacity of {c} {d.idxmax()} changed from {before[c][d.idxmax()]} to {s.at[d.idxmax(), a + '_opt']} after fixing")
    if abs(n.objective - opex) > 1e-4 * max(1.0, abs(opex)):
        r.bad(f"refix-cost:{core.digest(case)}", f"operation cost with fixed optimal capacities {n.objective}, before {opex}")
    return r
