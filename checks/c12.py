"""C12: optimal dispatch is feasible and cost-minimal."""
import itertools
from mc import core, nets, optrun

ID = "C12"
HS = [0]
TECHNIQUE = "explicit enumeration of dispatch problems (deviation-bounded configuration space plus all small meshed graphs), each solved by the real optimiser and judged for feasibility and optimality against an independent reference optimiser"
RULE = ("Every scenario is a small dispatch problem built by deviating in at most k slots from a base system, or a passive grid over one multigraph "
        "with chosen line data; disjoint scenarios share one call of optimize; the reported dispatch is checked against every documented row of an "
        "independently assembled LP and its cost against that LP's minimum, part by part.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "independent disjoint systems in one network do not influence the reference (it decomposes)"]

W3 = {"objective": [1.0, 2.5, 0.5], "stores": [1.0, 2.0, 3.0], "generators": [2.0, 1.0, 1.5]}


def BOUNDS(tier):
    return ("generator and link systems with at most 2 deviating slots, pairs of both, passive grids over all connected multigraphs with <=3 buses/<=4 branches and 4 buses/<=5 branches; "
            "3 snapshots; weightings in {unit, non-uniform}; sub-ranges of the snapshots") if tier == "quick" else "as quick with at most 3 deviating slots and 4 buses/6 branches"


GEN = dict(
    p_min=[0.0, 0.3, -0.5, [0.0, 0.4, 0.2]], p_max=[1.0, 0.6, [1.0, 0.5, 0.0]], mc=[10.0, -5.0, 70.0, [5.0, 80.0, 60.0]],
    mcq=[0.0, 0.3, [0.0, 1.0, 0.2]], sign=[1.0, -1.0], p_set=[None, [None, 7.0, None], [12.0, 6.0, 3.0]], up=[None, 0.25, 1.0, [0.1, 0.5, 0.2]],
    down=[None, 0.2, 1.0, [0.5, 0.1, 0.3]], esum=[None, ["min", 60.0], ["max", 18.0], ["both", 40.0]], load=[[10.0, 16.0, 6.0], [18.0, 3.0, 18.0], [0.0, 0.0, -4.0], 9.0], p_nom=[20.0, 8.0])


def gen_system(d):
    g = dict(bus="b", p_nom=d["p_nom"], p_min_pu=d["p_min"], p_max_pu=d["p_max"], marginal_cost=d["mc"], marginal_cost_quadratic=d["mcq"], sign=d["sign"])
    if d["p_set"]:
        g["p_set"] = d["p_set"]
    if d["up"] is not None:
        g["ramp_limit_up"] = d["up"]
    if d["down"] is not None:
        g["ramp_limit_down"] = d["down"]
    if d["esum"]:
        k, v = d["esum"]
        if k in ("min", "both"):
            g["e_sum_min"] = v
        if k in ("max", "both"):
            g["e_sum_max"] = v
    return [["Bus", "b", {}], ["Generator", "g", g], ["Generator", "h", dict(bus="b", p_nom=50.0, marginal_cost=50.0)],
            ["Generator", "curt", dict(bus="b", p_nom=50.0, marginal_cost=90.0, p_min_pu=-1.0, p_max_pu=0.0, sign=1.0)],
            ["Load", "l", dict(bus="b", p_set=d["load"])]]


LINK = dict(
    eff=[1.0, 0.8, [0.9, 0.5, 1.0], -0.4], ports=[2, 3, 4], eff2=[0.5, [0.2, 0.0, 0.6], -0.3], p_min=[0.0, -1.0, 0.2, [-0.5, 0.0, 0.1]], p_max=[1.0, 0.7, [0.4, 1.0, 0.6]],
    mc=[1.0, -2.0, [0.0, 30.0, 2.0]], mcq=[0.0, 0.2], p_set=[None, [None, 6.0, None]], up=[None, 0.3, [0.2, 0.2, 0.6]], down=[None, 0.15], load=[[8.0, 15.0, 4.0], 6.0], self_loop=[0, 1])


def link_system(d):
    a = dict(bus0="x", bus1="y", p_nom=20.0, efficiency=d["eff"], p_min_pu=d["p_min"], p_max_pu=d["p_max"], marginal_cost=d["mc"], marginal_cost_quadratic=d["mcq"])
    if d["ports"] >= 3:
        a.update(bus2="z", efficiency2=d["eff2"])
    if d["ports"] == 4:
        a.update(bus3="x" if d["self_loop"] else "z", efficiency3=0.1)
    if d["p_set"]:
        a["p_set"] = d["p_set"]
    for k, s in (("up", "ramp_limit_up"), ("down", "ramp_limit_down")):
        if d[k] is not None:
            a[s] = d[k]
    sp = [["Bus", b, {}] for b in "xyz"] + [["Link", "k", a], ["Link", "back", dict(bus0="y", bus1="z", p_nom=5.0, marginal_cost=3.0)]]
    for b, c in zip("xyz", (10.0, 60.0, 45.0)):
        sp.append(["Generator", "g" + b, dict(bus=b, p_nom=60.0, p_min_pu=-0.2 if b != "x" else 0.0, marginal_cost=c)])
    return sp + [["Load", "ly", dict(bus="y", p_set=d["load"])], ["Load", "lx", dict(bus="x", p_set=3.0)], ["Load", "lz", dict(bus="z", p_set=2.0)]]


def passive(edges, nb, kinds, carrier="AC", inactive=None, smax=None, sset=None, rot=0):
    """edges: list of [a, b]; kinds: per edge (type letter, impedance, limit)."""
    sp = [["Bus", f"n{i}", dict(carrier=carrier, v_nom=10.0)] for i in range(nb)]
    for i, ((a, b), (k, x, s)) in enumerate(zip(edges, kinds)):
        at = dict(bus0=f"n{a}", bus1=f"n{b}", s_nom=s)
        if k == "L":
            at.update(x=x * 100.0, r=x * 37.0 + 2.0 * i)
        else:
            at.update(x=x * s, r=(x * 0.37 + 0.02 * i) * s, tap_ratio=1.0 if k == "T" else 1.25)
        if inactive == i:
            at["active"] = False
        if smax and smax[0] == i:
            at["s_max_pu"] = smax[1]
        sp.append(["Line" if k == "L" else "Transformer", f"e{i}", at])
    for i in range(nb):
        sp.append(["Generator", f"g{i}", dict(bus=f"n{i}", p_nom=60.0, marginal_cost=[10.0, 35.0, 22.0, 47.0][(i + rot) % 4])])
        sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0], [11.0, 2.0, 25.0], [1.0, 9.0, 14.0], [17.0, 5.0, 8.0]][i])])
    return sp


X = [0.1, 0.25, 0.4, 0.15, 0.3, 0.2]
LIM = [9.0, 14.0, 6.0, 11.0, 8.0, 16.0]


def passive_cases(tier):
    out = []
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5)] + ([(4, 6)] if tier != "quick" else [])
    for nb, m in sizes:
        for ed in nets.multigraphs(nb, m):
            if len(nets.components(nb, ed)) != 1 and (nb, m) not in ((3, 2), (4, 3), (4, 4)):
                continue
            pats = ["L" * m, ("LT" * m)[:m], ("TLP" * m)[:m]]
            if m <= 3:
                pats = ["".join(p) for p in itertools.product("LTP", repeat=m)]
            for pi, pat in enumerate(pats):
                e2 = [list(reversed(e)) if (i + pi) % 3 == 1 else e for i, e in enumerate(ed)]
                kinds = [[k, X[(i + pi) % 6], LIM[(i + 2 * pi) % 6]] for i, k in enumerate(pat)]
                for carrier in (("AC", "DC") if pi < 2 else ("AC",)):
                    out.append(dict(kind="grid", edges=e2, nb=nb, kinds=kinds, carrier=carrier, rot=pi % 4))
                out.append(dict(kind="grid", edges=e2, nb=nb, kinds=kinds, inactive=pi % m, rot=(pi + 1) % 4))
                out.append(dict(kind="grid", edges=e2, nb=nb, kinds=kinds, smax=[(pi + 1) % m, [0.5, 1.0, 0.7]], rot=(pi + 2) % 4))
    return out


def specs(sc):
    if sc["kind"] == "gen":
        return gen_system(sc["d"])
    if sc["kind"] == "link":
        return link_system(sc["d"])
    if sc["kind"] == "grid":
        return passive(sc["edges"], sc["nb"], sc["kinds"], sc.get("carrier", "AC"), sc.get("inactive"), sc.get("smax"), rot=sc.get("rot", 0))
    if sc["kind"] == "unitramp":   # every unit ramps by its full nominal power: still a limit where output may change sign
        a = dict(p_nom=10.0, p_min_pu=sc["p_min"], ramp_limit_up=sc["up"], ramp_limit_down=sc["down"], marginal_cost=1.0)
        sp = [["Bus", "b", {}], ["Load", "l", dict(bus="b", p_set=[-9.0, 9.0, -9.0])]]
        if sc["c"] == "Generator":
            sp += [["Generator", "g", dict(bus="b", **a)], ["Generator", "x", dict(bus="b", p_nom=20.0, marginal_cost=40.0, ramp_limit_up=1.0, ramp_limit_down=1.0)]]
        else:
            sp += [["Bus", "o", {}], ["Link", "g", dict(bus0="o", bus1="b", **a)], ["Link", "x", dict(bus0="o", bus1="b", p_nom=20.0, marginal_cost=40.0, ramp_limit_up=1.0, ramp_limit_down=1.0)],
                   ["Generator", "s", dict(bus="o", p_nom=100.0, p_min_pu=-1.0, marginal_cost=3.0)]]
        return sp
    if sc["kind"] == "star":    # a strongly meshed bus (its balance is written separately) next to weakly meshed ones
        k = sc["k"]
        sp = [["Bus", "hub", {}], ["Bus", "leaf", {}], ["Line", "l", dict(bus0="hub", bus1="leaf", x=1.0, s_nom=30.0)]]
        for i in range(k):
            sp.append(["Generator", f"g{i}", dict(bus="hub", p_nom=1.0, marginal_cost=float(i + 1))])
        sp.append(["Generator", "gl", dict(bus="leaf", p_nom=10.0, marginal_cost=20.5)])
        sp.append(["Link", "dc", dict(bus0="leaf", bus1="hub", p_nom=3.0, efficiency=0.5)])
        sp += [["Load", "lh", dict(bus="hub", p_set=[15.0, 5.0, 30.0])], ["Load", "ll", dict(bus="leaf", p_set=[4.0, 12.0, 1.0])]]
        return sp
    raise AssertionError(sc)


def cases(tier):
    k = 2 if tier == "quick" else 3
    gens = [dict(kind="gen", d=d) for d in core.deviations(GEN, k)]
    links = [dict(kind="link", d=d) for d in core.deviations(LINK, k) if (d["ports"] >= 3 or d["eff2"] == 0.5) and (d["ports"] == 4 or not d["self_loop"])]
    grids = passive_cases(tier)

    def quad(s):
        return s["kind"] in ("gen", "link") and s["d"]["mcq"] != 0.0
    for conf in (dict(), dict(weightings=W3)):
        lin = [s for s in gens + links if not quad(s)]
        if not conf:
            lin = [s for s in lin if True]
        for b in optrun.batches(lin, 40):
            yield dict(conf=conf, scen=b)
    for b in optrun.batches([s for s in gens + links if quad(s)], 8):
        yield dict(conf=dict(weightings=W3), scen=b)
    for b in optrun.batches(grids, 40):
        yield dict(conf=dict(weightings=W3), scen=b)
    for kk in (44, 45, 50):
        yield dict(conf=dict(), scen=[dict(kind="star", k=kk)])
    for c in ("Generator", "Link"):
        for pm in (-1.0, -0.5):
            for up in (1.0, [1.0, 1.0, 1.0], 0.9):
                for down in (1.0, 0.8):
                    yield dict(conf=dict(), scen=[dict(kind="unitramp", c=c, p_min=pm, up=up, down=down)])
    one = [dict(kind="gen", d=d) for d in core.deviations(GEN, 1)] + [dict(kind="link", d=d) for d in core.deviations(LINK, 1) if d["eff2"] == 0.5 and not d["self_loop"]]
    one = [s for s in one if not quad(s)]
    for sns in ([0], [1], [0, 1], [1, 2], [2]):
        for b in optrun.batches(one, 60):
            yield dict(conf=dict(weightings=W3, sns=sns), scen=b)


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    parts = []
    names = {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = core.digest([case["conf"], sc])
        r.state([case["conf"], sc])
    optrun.solve_parts(r, case["conf"], parts, lambda p: names[p])
    r.sample = case["scen"][0]
    return r
