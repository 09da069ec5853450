"""C29: transmission losses."""
import itertools
from mc import core, nets, optrun, refopt
from checks import c12

ID = "C29"
HS = [0]
TECHNIQUE = "explicit enumeration of grids (all small multigraphs x branch types x fixed/extendable) x tangent counts, each solved by the real optimiser and judged against an independent reference problem with the same tangents"
RULE = ("Every scenario is a small grid of lines and transformers (fixed, extendable, time-varying limits, inactive, parallel, AC or DC) solved with 0 to 4 tangents, over all or some snapshots or two periods; both ends, losses, tangents, balances and "
        "the optimum are judged part by part; zero tangents must give the lossless model and reported tables must stay free of gaps.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "the tangents are those of the documented quadratic loss curve at equidistant points up to the full loading"]
X = [0.1, 0.25, 0.4, 0.15, 0.3, 0.2]


def BOUNDS(tier):
    return "connected multigraphs up to 3 buses/3 branches (4 buses/4 branches: two patterns); 0-3 tangents" if tier == "quick" else "connected multigraphs up to 4 buses/5 branches; 0-4 tangents; all type patterns up to 3 branches"


def specs(sc):
    sp = [["Bus", f"n{i}", dict(carrier=sc.get("carrier", "AC"), v_nom=10.0)] for i in range(sc["nb"])]
    P = len(sc.get("years", [0]))
    for i, ((a, b), k) in enumerate(zip(sc["edges"], sc["pat"])):
        x, s = X[(i + sc["rot"]) % 6], [19.0, 14.0, 16.0, 21.0, 18.0, 26.0][(i + 2 * sc["rot"]) % 6]
        at = dict(bus0=f"n{a}", bus1=f"n{b}", s_nom=s)
        rr = (0.0021 + 0.0004 * i) * sc.get("res", 1.0)
        if k == "L":
            at.update(x=x * 100.0, r=rr * 100.0)
        else:
            at.update(x=x * s, r=rr * s, tap_ratio=1.0 if k == "T" else 1.25)
        if i in sc.get("ext", []):
            at.update(s_nom_extendable=True, capital_cost=3.0 + 1.7 * i, s_nom_max=31.0 + i, s_nom_min=1.0)
        if sc.get("smax") == i:
            at["s_max_pu"] = [0.5, 1.0, 0.7] * P
        if sc.get("off") == i:
            at["active"] = False
        if "years" in sc:
            at.update(build_year=2030 if sc.get("late") == i else 0, lifetime=3000)
        sp.append(["Line" if k == "L" else "Transformer", f"e{i}", at])
    for i in range(sc["nb"]):
        at = dict(bus=f"n{i}", p_nom=80.0, marginal_cost=[10.0, 37.0, 23.0, 51.0][(i + sc["rot"]) % 4])
        if "years" in sc:
            at.update(build_year=0, lifetime=3000)
        sp.append(["Generator", f"g{i}", at])
        sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=[[6.0, 20.0, 3.0], [11.0, 2.0, 25.0], [1.0, 9.0, 14.0], [17.0, 5.0, 8.0]][i] * P)])
    return sp


def scenarios(tier):
    q = tier == "quick"
    for nb, m in [(2, 1), (2, 2), (3, 2), (3, 3), (4, 4)] + ([] if q else [(2, 3), (3, 4), (4, 5)]):
        for gi, ed in enumerate(nets.multigraphs(nb, m)):
            if len(nets.components(nb, ed)) != 1:
                continue
            pats = ["".join(p) for p in itertools.product("LTP", repeat=m)] if m <= (2 if q else 3) else [("LTP" * m)[:m], "L" * m] + ([] if q and m > 3 else [("TLP" * m)[:m]])
            for pi, pat in enumerate(pats):
                e2 = [list(reversed(e)) if (i + pi) % 3 == 1 else list(e) for i, e in enumerate(ed)]
                base = dict(nb=nb, edges=e2, pat=pat, rot=(pi + gi) % 5)
                yield dict(base)
                yield dict(base, ext=list(range(m)))
                yield dict(base, ext=[pi % m], smax=(pi + 1) % m)
                yield dict(base, carrier="DC", smax=pi % m)
                if m > 1:
                    yield dict(base, off=(pi + 1) % m)
                yield dict(base, res=6.0)


def cases(tier):
    L = list(scenarios(tier))
    W = dict(weightings=c12.W3)
    for K in (1, 2, 3, 0) + (() if tier == "quick" else (4,)):
        for b in optrun.batches(L, 40):
            yield dict(conf=dict(W, losses=K), scen=b)
    for sns in ([0], [1, 2], [0, 1], [2]):
        for b in optrun.batches(L[::3] if tier == "quick" else L, 60):
            yield dict(conf=dict(W, losses=2, sns=sns), scen=b)
    per = []
    for s in L:
        if s["nb"] == 3 and "off" not in s and len(s["edges"]) <= 3:
            per.append(dict(s, years=[2020, 2030], late=0))
            per.append(dict(s, years=[2020, 2030]))
    for b in optrun.batches(per[::2] if tier == "quick" else per, 30):
        yield dict(conf=dict(T=3, periods=[2020, 2030], period_weightings={"objective": [1.0, 0.7], "years": [10.0, 10.0]}, losses=2), scen=b)


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    parts, names = [], {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = core.digest([case["conf"], sc])
        r.state([case["conf"], sc])
    K = case["conf"].get("losses", 0)

    def judge(n, m, sub, p, spec, xs, best):
        for c in ("Line", "Transformer"):
            for a in ("p0", "p1"):
                d = n.dynamic(c)[a]
                cols = [x for x in d.columns if x.startswith(p)]
                if d[cols].isna().any().any():
                    r.bad(f"gap:{names[p]}", f"{c} {a} has missing values after optimising {m.S}: {d[cols].to_dict('list')} in {spec}")
                for g in cols:
                    for t in n.snapshots:
                        if t not in m.S and d.at[t, g] != 0:
                            r.bad(f"outside:{names[p]}", f"{c} {g} {a} at the not optimised snapshot {t} is {d.at[t, g]}")
                        if not K and abs(n.dynamic(c)["p0"].at[t, g] + n.dynamic(c)["p1"].at[t, g]) > 1e-6:
                            r.bad(f"lossless:{names[p]}", f"{c} {g} has losses without loss approximation: {spec}")
    optrun.solve_parts(r, case["conf"], parts, lambda p: names[p], judge=judge)
    r.sample = dict(case, scen=case["scen"][:1])
    return r
