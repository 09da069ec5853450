"""C21: prices and shadow prices are derivatives of the optimal cost."""
from mc import core, nets, optrun, refopt
from checks import c12, c15

ID = "C21"
HS = [0]
TECHNIQUE = "explicit enumeration of optimisation problems (deviation-bounded configuration space plus small meshed grids), each solved by the real optimiser; every reported dual is compared with the one-sided slopes of the optimal value of an independent reference problem, obtained by re-solving it with that one limit moved either way"
RULE = ("Every scenario (dispatch, storage, expansion, meshed grids, strongly meshed buses, investment periods, losses, mixtures of fixed and extendable assets) is solved with all duals assigned; for every bus and snapshot and every upper/lower, "
        "ramp, set-point and energy-balance limit the reference minimum is recomputed with that limit moved by +-eps and the reported value has to lie between the slopes; assets run only where the price covers their cost.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "the optimal cost is convex in a right-hand side, so the secant slopes enclose every valid dual"]
EPS = 1e-3


def BOUNDS(tier):
    return "generator, link, storage, store and mixed expansion systems with <=1 deviating slots" + (", grids with <=3 buses, two weightings, sub-ranges, two periods, 1-2 loss tangents" if tier == "quick" else " (<=2 for dispatch and storage), grids with <=4 buses, two weightings, sub-ranges, two periods, 1-3 loss tangents")


EXP = dict(ext=[["g"], ["l"], ["k"], ["s"], ["g", "l", "s"], ["h", "k", "st"], ["g", "h", "l", "k", "s", "st"], []], pmax=[1.0, [0.9, 0.3, 0.6]], pmin=[0.0, 0.1], up=[None, 0.3], down=[None, 0.4], load=[[8.0, 21.0, 13.0], [17.0, 4.0, 18.0]], mode=["first", "cyclic"])


def mixed(d):
    """Two buses with every kind of asset, any subset extendable, each next to a fixed one of the same type."""
    def n(k, a="p_nom"):
        return {a + "_extendable": True, "capital_cost": {"g": 3.1, "h": 2.3, "l": 1.7, "k": 1.9, "s": 1.1, "st": 0.9}[k], a + "_max": 50.0} if k in d["ext"] else {a: 9.0}
    g = dict(bus="a", p_max_pu=d["pmax"], p_min_pu=d["pmin"], marginal_cost=11.3, **n("g"))
    for k, s in (("up", "ramp_limit_up"), ("down", "ramp_limit_down")):
        if d[k] is not None:
            g[s] = d[k]
    return [["Bus", "a", dict(v_nom=10.0)], ["Bus", "b", dict(v_nom=10.0)], ["Generator", "g", g], ["Generator", "h", dict(bus="b", marginal_cost=17.9, **n("h"))], ["Generator", "f", dict(bus="a", p_nom=4.0, marginal_cost=6.7)],
            ["Generator", "peak", dict(bus="a", p_nom=60.0, marginal_cost=83.0)], ["Generator", "peakb", dict(bus="b", p_nom=60.0, marginal_cost=91.0)], ["Generator", "curt", dict(bus="a", p_nom=60.0, marginal_cost=120.0, p_min_pu=-1.0, p_max_pu=0.0)],
            ["Generator", "curtb", dict(bus="b", p_nom=60.0, marginal_cost=120.0, p_min_pu=-1.0, p_max_pu=0.0)],
            ["Line", "l", dict(bus0="a", bus1="b", x=7.0, r=1.0, **n("l", "s_nom"))], ["Line", "m", dict(bus0="b", bus1="a", x=9.0, r=1.0, s_nom=2.0)],
            ["Link", "k", dict(bus0="a", bus1="b", efficiency=0.93, marginal_cost=0.21, **n("k"))], ["Link", "kf", dict(bus0="b", bus1="a", efficiency=0.91, marginal_cost=0.23, p_nom=3.0)],
            ["StorageUnit", "s", dict(bus="a", max_hours=2.0, efficiency_store=0.9, efficiency_dispatch=0.87, state_of_charge_initial=1.0, cyclic_state_of_charge=d["mode"] == "cyclic", marginal_cost=0.11, **n("s"))],
            ["StorageUnit", "sf", dict(bus="b", max_hours=1.5, p_nom=2.0, efficiency_store=0.8, state_of_charge_initial=1.0, marginal_cost=0.13)],
            ["Store", "st", dict(bus="b", standing_loss=0.07, e_initial=0.5, e_cyclic=d["mode"] == "cyclic", marginal_cost=0.09, **n("st", "e_nom"))], ["Store", "sg", dict(bus="a", standing_loss=0.03, e_nom=2.0, e_initial=1.0, marginal_cost=0.08)],
            ["Load", "la", dict(bus="a", p_set=d["load"])], ["Load", "lb", dict(bus="b", p_set=[x * 0.7 + 1 for x in d["load"]])]]


def specs(sc):
    if sc["kind"] == "mixed":
        return mixed(sc["d"])
    if sc["kind"] == "sto":
        return c15.specs(sc["sc"])
    return c12.specs(sc)


def cases(tier):
    q = tier == "quick"
    k = 1 if q else 2
    W = dict(weightings=c12.W3)
    gens = [dict(kind="gen", d=d) for d in core.deviations(c12.GEN, k) if d["mcq"] == 0.0]
    links = [dict(kind="link", d=d) for d in core.deviations(c12.LINK, k) if d["mcq"] == 0.0 and (d["ports"] >= 3 or d["eff2"] == 0.5) and (d["ports"] == 4 or not d["self_loop"])]
    mix = [dict(kind="mixed", d=d) for d in core.deviations(EXP, 2)]
    grids = [s for s in c12.passive_cases("quick") if len(s["kinds"]) <= (3 if q else 4) and (not q or s["nb"] <= 3)]
    if q:
        grids = grids[::3]
    for b in optrun.batches(gens, 12):
        yield dict(conf=W, scen=b)
    for b in optrun.batches(links, 8):
        yield dict(conf={}, scen=b)
    for b in optrun.batches(mix, 5):
        yield dict(conf=W, scen=b)
    for b in optrun.batches(grids, 15):
        yield dict(conf=W, scen=b)
    yield dict(conf=W, scen=[dict(kind="star", k=46)])
    one = [dict(kind="mixed", d=d) for d in core.deviations(EXP, 1)]
    for b in optrun.batches([s for s in one if not {"l", "k", "s"} & set(s["d"]["ext"])] if q else one, 4):
        for L in (1, 2) if q else (1, 2, 3):
            yield dict(conf=dict(W, losses=L), scen=b)
        for sns in ([0, 1], [1, 2]):
            yield dict(conf=dict(W, sns=sns), scen=b)
    for b in optrun.batches(one, 4):
        yield dict(conf=dict(T=3, periods=[2020, 2030], period_weightings={"objective": [1.0, 0.7], "years": [10.0, 10.0]}, weightings=[1.0, 2.5, 0.5] * 2), scen=b)


def tag(case):
    return core.digest(case)


def cost(case):
    return len(case["scen"]) * (2 if case["conf"].get("periods") else 1) * (3 if case["scen"][0]["kind"] == "mixed" else 1)


FAM = {"ramp_up": ("mu_ramp_limit_up", "hi", 1), "ramp_down": ("mu_ramp_limit_down", "lo", 1), "energy_balance": ("mu_energy_balance", "eq", -1), "p_set": ("mu_p_set", "eq", 1), "state_of_charge_set": ("mu_state_of_charge_set", "eq", 1),
       "p-upper": ("mu_upper", "hi", 1), "p-lower": ("mu_lower", "lo", 1), "s-upper": ("mu_upper", "hi", 1), "s-lower": ("mu_lower", "lo", 1), "e-upper": ("mu_upper", "hi", 1), "e-lower": ("mu_lower", "lo", 1)}


def run(case):
    r = core.Result()
    parts, names = [], {}
    conf = case["conf"]
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        sp = specs(sc)
        if conf.get("periods"):
            sp = [[c, nm, {a: (v * 2 if isinstance(v, list) else v) for a, v in at.items()}] for c, nm, at in sp]
            sp = [[c, nm, dict(at, build_year=0, lifetime=3000) if c not in ("Bus", "Load") else at] for c, nm, at in sp]
        parts.append((p, sp))
        names[p] = core.digest([conf, sc])
        r.state([conf, sc])
    r.sample = dict(case, scen=case["scen"][:1])

    def slope(sub, i, which):
        """(left, right) slopes of the minimum in the given side of row i."""
        e, lo, hi, t = sub.rows[i]
        v0 = sub.solve()[1]
        out = []
        for d in (-EPS, EPS):
            l2 = lo + d if which in ("lo", "eq") else lo
            h2 = hi + d if which in ("hi", "eq") else hi
            sub.rows[i] = (e, l2, h2, t)
            st, v, _ = sub.solve() if l2 <= h2 else ("infeasible", None, None)
            sub.rows[i] = (e, lo, hi, t)
            out.append((v - v0) / d if st == "optimal" else (-float("inf") if d < 0 else float("inf")))
        return out

    def judge(n, m, sub, p, spec, xs, best):
        if sub.qcost or any(sub.int):
            return
        tags = [(i, t) for i, (_, _, _, t) in enumerate(sub.rows)]
        todo = []
        S = {str(t): t for t in m.S}
        for i, t in tags:
            f = t.split(":")
            if f[0] == "balance":
                b, s = f[1], S[":".join(f[2:])]
                price = n.buses_t.marginal_price
                if b not in price.columns:
                    r.bad(f"no-price:{names[p]}", f"no price for {b}: {spec}")
                    continue
                todo.append((i, "eq", 1, "price", b, s, price.at[s, b] * m.wobj[s]))
                continue
            if len(f) < 4:
                continue
            fam, c, g, s = f[0], f[1], f[2], S.get(":".join(f[3:]))
            if s is None:
                continue
            if c == "StorageUnit" and fam not in ("energy_balance", "state_of_charge_set"):
                continue
            if fam in ("p", "s", "e"):
                wants = [("mu_upper", "hi", 1), ("mu_lower", "lo", 1)]
            elif fam == "s-lower" and conf.get("losses"):
                wants = [("mu_lower", "hi", -1)]
            elif fam in FAM and not (fam == "p_set" and c == "StorageUnit"):
                wants = [FAM[fam]]
            else:
                continue
            for attr, which, sg in wants:
                d = n.dynamic(c)
                if attr not in d or g not in d[attr].columns:
                    r.bad(f"no-dual:{attr}:{names[p]}", f"no {attr} reported for {c} {g}: {spec}")
                    continue
                todo.append((i, which, sg, f"{attr} of {c}", g, s, float(d[attr].at[s, g])))
        for i, which, sg, what, g, s, got in todo:
            a, b = slope(sub, i, which)
            lo, hi = (a, b) if sg == 1 else (-b, -a)
            if not (sub.rows[i][1] <= sub.rows[i][2]):
                continue
            tol = 2e-3 * max(1.0, abs(got))
            if not (lo - tol <= got <= hi + tol):
                r.bad(f"dual:{what.replace(' ', '_')}:{names[p]}", f"{what} {g} at {s} is {got} (times weight), one-sided changes of the minimal cost are {(lo, hi)} in {spec}")
        # assets run only where the price covers their cost
        for g in n.generators.index[n.generators.index.str.startswith(p)]:
            s = n.generators.loc[g]
            if "p_set" in n.generators_t and g in n.generators_t.p_set.columns or s.ramp_limit_up == s.ramp_limit_up or s.ramp_limit_down == s.ramp_limit_down or s.e_sum_max < 1e18 or s.e_sum_min > -1e18:
                continue
            if any(g in n.generators_t[a].columns for a in ("ramp_limit_up", "ramp_limit_down")):
                continue
            nom = s.p_nom_opt
            for t in m.S:
                pr, mc, x = n.buses_t.marginal_price.at[t, s.bus] * s["sign"], refopt.val(n, "Generator", g, "marginal_cost", t), n.generators_t.p.at[t, g]
                hi, lo = refopt.val(n, "Generator", g, "p_max_pu", t) * nom, refopt.val(n, "Generator", g, "p_min_pu", t) * nom
                if x > lo + 1e-3 and pr < mc - 2e-3 * max(1, abs(mc)) or x < hi - 1e-3 and not s.p_nom_extendable and pr > mc + 2e-3 * max(1, abs(mc)):
                    r.bad(f"complementarity:{names[p]}", f"{g} runs at {x} in [{lo},{hi}] at price {pr}, marginal cost {mc}: {spec}")
        r.transitions += len(todo)
    optrun.solve_parts(r, conf, parts, lambda p: names[p], judge=judge, assign_all_duals=True)
    return r
