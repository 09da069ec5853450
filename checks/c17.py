"""C17: marking components inactive equals removing them, for every component and analysis."""
import itertools, math
from mc import core, nets, world

ID = "C17"
HS = [0]
TECHNIQUE = "exhaustive enumeration of inactive subsets of networks with every component type x all analyses, against the network without those components"
RULE = ("topology, linear and non-linear power flow, transfer factors, optimal dispatch, investment, prices and statistics of every other component are those of "
        "the network from which the inactive components were removed; inactive components report zero operation")
ASSUMPTIONS = ["the base networks have unique optima (generic numbers), so results are comparable value by value", "angles of the optimisation are not compared (arbitrary reference)",
               "investment and capacity entries of the inactive components themselves are not judged"]
KINDS = ["pf", "lp", "milp", "qp", "invest"]
CLS = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link")


def BOUNDS(tier):
    return dict(tier=tier, singles="all components of all classes", pairs="all pairs" if tier == "thorough" else "pairs of branches (power flow) and classes as a whole")


def names(kind):
    return [(c, i) for c, i, a in world.specs(kind) if c in CLS and not i.startswith("shed-")]


def cases(tier):
    full = tier == "thorough"
    for kind in KINDS:
        ns = names(kind)
        ones = [[x] for x in ns]
        groups = [[x for x in ns if x[0] == c] for c in CLS if any(x[0] == c for x in ns)]
        pairs = [list(p) for p in itertools.combinations(ns, 2)]
        if kind == "pf":
            sub = ones + groups + (pairs if full else [p for p in pairs if all(x[0] in ("Line", "Transformer", "Link") for x in p) and sum(x[0] == "Link" for x in p) != 1])
        elif kind == "lp":
            sub = ones + groups + (pairs if full else [])
        elif full:
            sub = ones + groups
        else:
            pick = dict(milp=["g1", "chp", "s0"], qp=["gg", "dc", "s0"], invest=["w1", "g2", "s1", "l12", "eg"])[kind]
            sub = [[x] for x in ns if x[1] in pick]
        for s in sub:
            yield dict(kind=kind, off=[list(x) for x in s])


def cost(case):
    return 1 if case["kind"] == "pf" else 2


def tag(case):
    return case["kind"] + ":" + "+".join(i for _, i in case["off"][:3])


def run(case):
    r = core.Result()
    kind = case["kind"]
    off = {tuple(x) for x in case["off"]}
    sp = world.specs(kind)
    a = world.build([(c, i, dict(at, active=False) if (c, i) in off else at) for c, i, at in sp], kind)
    b = world.build([s for s in sp if (s[0], s[1]) not in off], kind)
    ra, rb = world.analyse(a, kind), world.analyse(b, kind)
    r.transitions += 2
    r.traces += 1
    r.state([kind, case["off"]])
    r.outcome([sorted(str(k) for k in rb), [round(x, 4) for x in rb.get(("opt", "objective"), [0])]])

    own = {}
    for k in list(ra):
        if any((c, i) in off for c, i in ((k[1], k[-1]) if len(k) > 2 else (None, None),)):
            own[k] = ra.pop(k)
        elif k[0] == "ptdf" and k[1:3] in off:
            own[k] = ra.pop(k)
    for x in (ra, rb):          # a constraint without any variables has no multiplier
        for k in x:
            if len(k) > 2 and k[2] == "mu":
                x[k] = [0.0 if math.isnan(v) else v for v in x[k]]
    d = world.differ({k: v for k, v in ra.items() if not (len(k) > 1 and k[1] == "objective")}, {k: v for k, v in rb.items() if not (len(k) > 1 and k[1] == "objective")})
    if d:
        r.bad(f"{kind}:{d.split(':')[0]}", f"{kind}: with {case['off']} inactive and without them: {d}")
    oa, ob = ra.get(("opt", "objective")), rb.get(("opt", "objective"))
    if oa and ob and abs(sum(oa) - sum(ob)) > 1e-3:
        r.bad(f"{kind}:objective", f"{kind}: objective with {case['off']} inactive {oa}, without them {ob}")
    for k, v in own.items():
        if k[0] in ("ptdf", "topo") or k[-2] in ("p_nom_opt", "e_nom_opt", "s_nom_opt", "mu"):
            continue
        if any(isinstance(x, float) and not abs(x) < 1e-6 and not math.isnan(x) for x in v):
            r.bad(f"{kind}:operation:{k[1]}", f"{kind}: inactive {k[1]} {k[-1]} reports {k[2]} = {v}")
    return r
