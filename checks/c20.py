"""C20: security-constrained optimal dispatch."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C20"
HS = [0]
TECHNIQUE = "explicit enumeration of meshed grids x outage lists, each solved by the real security-constrained optimiser and judged against a reference optimiser that models every outage as a grid of its own"
RULE = ("Every scenario is a connected multigraph of lines and transformers (fixed or extendable, some time-varying limits, inactive branches or investment periods) with a list of outages; the reference problem contains, for every "
        "outage, the flows of the grid really without that branch (own network equations); feasibility and optimality of the returned dispatch are checked part by part, several islands share one call.")
ASSUMPTIONS = ["HiGHS as called by scipy solves the small reference LPs correctly", "listed outages do not split an island (documented to need separate treatment)"]
W3 = {"objective": [1.0, 2.5, 0.5], "stores": [1.0, 2.0, 3.0], "generators": [2.0, 1.0, 1.5]}
X = [0.1, 0.25, 0.4, 0.15, 0.3, 0.2]
LIM = [9.0, 14.0, 6.0, 11.0, 8.0, 16.0]


def BOUNDS(tier):
    return ("connected multigraphs with 2 buses/2-3 branches, 3 buses/3-4, 4 buses/4-5 branches; three type patterns; fixed / one / all branches extendable; no, single, all non-splitting outages; outage lists as None, list, Index, MultiIndex; 2 islands per call and up to 30; 3 snapshots, sub-ranges; two investment periods with different grids"
            + ("" if tier == "quick" else "; 4 buses/6 branches, 5 buses/6 branches; all type patterns and all single outages"))


def splits(nb, edges, active, o):
    rest = [e for i, e in enumerate(edges) if active[i] and i != o]
    allb = [e for i, e in enumerate(edges) if active[i]]
    return len(nets.components(nb, rest)) != len(nets.components(nb, allb))


def specs(sc):
    sp = [["Bus", f"n{i}", dict(carrier=sc.get("carrier", "AC"), v_nom=10.0)] for i in range(sc["nb"])]
    for i, ((a, b), k) in enumerate(zip(sc["edges"], sc["pat"])):
        j = (i + sc["rot"]) % 6
        x, s = X[j], LIM[(i + 2 * sc["rot"]) % 6]
        at = dict(bus0=f"n{a}", bus1=f"n{b}", s_nom=s)
        if k == "L":
            at.update(x=x * 100.0, r=x * 37.0 + 2.0 * i)
        else:
            at.update(x=x * s, r=(x * 0.37 + 0.02 * i) * s, tap_ratio=1.0 if k == "T" else 1.25)
        if i in sc.get("ext", []):
            at.update(s_nom_extendable=True, capital_cost=3.0 + 1.7 * i, s_nom_max=40.0, s_nom_min=1.0)
        if sc.get("smax") == i:
            at["s_max_pu"] = [0.5, 1.0, 0.7]
        if sc.get("off") == i:
            at["active"] = False
        if sc.get("life") and sc["life"][0] == i:
            at.update(build_year=sc["life"][1], lifetime=sc["life"][2])
        elif sc.get("life"):
            at.update(build_year=0, lifetime=3000)
        sp.append(["Line" if k == "L" else "Transformer", f"e{i}", at])
    T = 2 if sc.get("life") else 3
    extra = dict(build_year=0, lifetime=3000) if sc.get("life") else {}
    for i in range(sc["nb"]):
        sp.append(["Generator", f"g{i}", dict(bus=f"n{i}", p_nom=60.0, marginal_cost=[10.0, 35.0, 22.0, 47.0, 29.0][(i + sc["rot"]) % 5], **extra)])
        sp.append(["Load", f"l{i}", dict(bus=f"n{i}", p_set=([[6.0, 20.0, 3.0], [11.0, 2.0, 25.0], [1.0, 9.0, 14.0], [17.0, 5.0, 8.0], [4.0, 13.0, 2.0]][i] * 2)[:2 * T if sc.get("life") else T])])
    return sp


def scenarios(tier):
    sizes = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (4, 5)] + ([(4, 6), (5, 6)] if tier != "quick" else [])
    for nb, m in sizes:
        for gi, ed in enumerate(nets.multigraphs(nb, m)):
            if len(nets.components(nb, ed)) != 1:
                continue
            ok = [i for i in range(m) if not splits(nb, ed, [True] * m, i)]
            if not ok:
                continue
            pats = [("LTP" * m)[:m], "L" * m, ("TL" * m)[:m]]
            if tier != "quick" and m <= 4:
                pats = ["".join(p) for p in itertools.product("LTP" if m <= 3 else "LP", repeat=m)]
            for pi, pat in enumerate(pats):
                e2 = [list(reversed(e)) if (i + pi) % 3 == 1 else list(e) for i, e in enumerate(ed)]
                base = dict(nb=nb, edges=e2, pat=pat, rot=(pi + gi) % 5)
                exts = ([], [pi % m], list(range(m)), ok[:1])
                lists = [ok] + [[i] for i in ok] + [[]]
                if tier == "quick":
                    lists = [ok, [ok[(pi + gi) % len(ok)]]] + ([[]] if m == 3 else [])
                for li, out in enumerate(lists):
                    for j, ext in enumerate(exts):
                        if tier != "quick" or j == (li + pi + gi) % 4:
                            yield dict(base, out=out, ext=ext)
                if tier != "quick" or pi == 0:
                    yield dict(base, out=ok, ext=[], carrier="DC")
                if tier != "quick" or pi == 1:
                    yield dict(base, out=ok, ext=[], smax=(pi + 1) % m)
                for off in range(m) if tier != "quick" else [(pi + gi) % m]:
                    act = [i != off for i in range(m)]
                    o2 = [i for i in range(m) if i != off and not splits(nb, ed, act, i)]
                    if o2:
                        yield dict(base, out=o2, ext=[off] if (pi + off) % 2 else [], off=off)


def cases(tier):
    q = tier == "quick"
    L = list(scenarios(tier))
    W = dict(weightings=W3)
    for b in optrun.batches(L, 6 if q else 12):
        yield dict(conf=W, scen=b, form="multi")
    lines = [s for s in L if set(s["pat"]) == {"L"}]
    for i, b in enumerate(optrun.batches(lines, 8)):
        for form in ("list", "index"):
            if not q or i < 2:
                yield dict(conf=W, scen=b, form=form)
    # all branches of the network are tested when no list is given
    none = [s for s in L if len(s["out"]) == len(s["edges"]) and "off" not in s]
    for b in optrun.batches(none[::3] if q else none, 12):
        yield dict(conf={}, scen=b, form="none")
    sub = [s for s in L if s["nb"] == 3 and len(s["edges"]) == 3 and s["out"]]
    for sns in ([0], [1, 2], [2]):
        for b in optrun.batches(sub[::3] if q else sub, 10):
            yield dict(conf=dict(W, sns=sns), scen=b, form="multi")
    # investment periods with different grids
    per = []
    for s in L:
        m = len(s["edges"])
        if s["nb"] == 3 and m in (3, 4) and s["out"] and "off" not in s and "smax" not in s and "carrier" not in s:
            for life in ([0, 2030, 50], [m - 1, 2000, 30]):
                o2 = [i for i in s["out"] if i != life[0] and not splits(s["nb"], s["edges"], [k != life[0] for k in range(m)], i)]
                if o2:
                    per.append(dict(s, out=o2, life=life))
                    if not splits(s["nb"], s["edges"], [True] * m, life[0]) and len(s["out"]) > 1:
                        per.append(dict(s, out=o2 + [life[0]], life=life))
    for b in optrun.batches(per[::2] if q else per, 6):
        yield dict(conf=dict(T=2, periods=[2020, 2030], period_weightings={"objective": [1.0, 0.7], "years": [10.0, 10.0]}), scen=b, form="multi")


def tag(case):
    return core.digest(case)


def outage_rows(n, m, outs):
    """For every outage: flows of the grid without that branch, as linear functions of the flows before it."""
    import numpy as np
    keys = {}
    for c in ("Line", "Transformer"):
        for (kc, kind, name, *t) in [k for k in m.keys if k[0] == c and k[1] == "s"]:
            keys.setdefault(t[0], []).append((c, name))
    nom = {"Line": "s_nom", "Transformer": "s_nom"}
    cache = {}
    for t, br in keys.items():
        sig = tuple(br)
        if sig not in cache:
            cache[sig] = {}
            bus = {b: i for i, b in enumerate(n.buses.index)}
            comp = {b: b for b in bus}

            def root(b):
                while comp[b] != b:
                    b = comp[b]
                return b
            for c, e in br:
                comp[root(n.static(c).at[e, "bus0"])] = root(n.static(c).at[e, "bus1"])
            isl = {}
            for c, e in br:
                isl.setdefault(root(n.static(c).at[e, "bus0"]), []).append((c, e))
            for bs in isl.values():
                nodes = sorted({n.static(c).at[e, w] for c, e in bs for w in ("bus0", "bus1")}, key=bus.get)
                at = {b: i for i, b in enumerate(nodes)}
                A = np.zeros((len(nodes), len(bs)))
                y = np.zeros(len(bs))
                for j, (c, e) in enumerate(bs):
                    A[at[n.static(c).at[e, "bus0"]], j] += 1
                    A[at[n.static(c).at[e, "bus1"]], j] -= 1
                    x, rr = refopt.reactance(n, c, e)
                    y[j] = 1 / (rr if n.buses.at[nodes[0], "carrier"] == "DC" else x)
                for o, (c, e) in enumerate(bs):
                    if (c, e) not in outs:
                        continue
                    y2 = y.copy()
                    y2[o] = 0.0
                    M = np.diag(y2) @ A.T @ np.linalg.pinv((A * y2) @ A.T) @ A
                    if not np.allclose((A @ M), A):
                        raise AssertionError("outage splits the island")
                    cache[sig][c, e] = (bs, o, M)
        for (c, e), (bs, o, M) in cache[sig].items():
            for j, (cj, ej) in enumerate(bs):
                if j == o:
                    continue
                row = {(bc, "s", be, t): M[j, i] for i, (bc, be) in enumerate(bs) if abs(M[j, i]) > 1e-12}
                f = refopt.val(n, cj, ej, "s_max_pu", t)
                s = n.static(cj)
                tag = f"security:{ej}:{t}:without:{e}"
                if s.at[ej, "s_nom_extendable"]:
                    k = (cj, "nom", ej)
                    m.row({**row, k: -f}, -refopt.INF, 0, tag)
                    m.row({**row, k: f}, 0, refopt.INF, tag)
                else:
                    m.row(row, -f * s.at[ej, "s_nom"], f * s.at[ej, "s_nom"], tag)


def run(case):
    import pandas as pd
    r = core.Result()
    parts, names, outs = [], {}, []
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, specs(sc)))
        names[p] = core.digest([case["conf"], case["form"], sc])
        r.state([case["conf"], case["form"], sc])
        outs += [("Line" if sc["pat"][o] == "L" else "Transformer", f"{p}e{o}") for o in sc["out"]]

    def extra(n, m):
        outage_rows(n, m, set(outs))

    def solve(n, args):
        mine = [o for o in outs if o[1] in n.static(o[0]).index]
        if case["form"] == "multi":
            bo = pd.MultiIndex.from_tuples(mine, names=["type", "name"]) if mine else pd.MultiIndex.from_arrays([[], []])
        elif case["form"] == "list":
            bo = [x for _, x in mine]
        elif case["form"] == "index":
            bo = pd.Index([x for _, x in mine], dtype=object)
        else:
            bo = None
        kw = dict(args)
        return n.optimize.optimize_security_constrained(snapshots=kw.pop("snapshots", None), branch_outages=bo, multi_investment_periods=kw.pop("multi_investment_periods", False),
                                                        solver_name="highs", log_to_console=False, threads=1, **kw)
    optrun.solve_parts(r, case["conf"], parts, lambda p: names[p], extra=extra, solve=solve)
    r.sample = dict(case, scen=case["scen"][:1])
    return r
