"""C11: sensitivity factors = flows of really perturbed / outaged grids."""
import itertools
import math
from mc import core, nets, refpf

ID = "C11"
HS = [0, 1]
TECHNIQUE = "exhaustive enumeration of grid shapes x branch kinds x activity; every column of PTDF and BODF and every outage of the linear contingency analysis is compared with an independent solve of the really perturbed or outaged grid"
RULE = "each case is a network of several islands; for every island every bus injection, every non-splitting outage, both on the matrices and on the contingency analysis result table (including branches of other islands) is compared with a fresh nodal solve"
ASSUMPTIONS = ["rows of PTDF/BODF follow sub_network.branches_i(active_only=True), columns sub_network.buses_o", "outages that split an island are not judged"]


def BOUNDS(tier):
    return ("all multigraphs with 1..3 buses and 0..4 branches, 4 buses with 4" + (" and 5" if tier != "quick" else "") + " branches; branch kinds {line, tap transformer, phase shifter}" + (" (rotating)" if tier == "quick" else " (all)")
            + "; all activity patterns with at most one inactive branch" + ("" if tier == "quick" else " (all patterns up to 3 branches)") + "; AC and DC; snapshot given as none, one, list, index; outage list default, explicit, plain names")


def cases(tier):
    u = 0
    for dc in (0, 1):
        for nb, ms in ((1, (0,)), (2, (1, 2, 3, 4)), (3, (2, 3, 4)), (4, (4,) if tier == "quick" else (4, 5))):
            if dc and nb == 4:
                continue
            for m in ms:
                for edges in nets.multigraphs(nb, m):
                    K = "LXP" if not dc else "L"
                    kk = list(itertools.product(K, repeat=m))
                    if tier == "quick" and len(kk) > 3:
                        kk = [kk[(7 * i + u) % len(kk)] for i in range(3 if m < 4 else 2)] + [kk[0]] * (m < 3)
                    elif m > 3 and len(kk) > 9:
                        kk = kk[::9]
                    u += 1
                    sub = []
                    for kinds in kk:
                        for act in itertools.product((1, 0), repeat=m):
                            if sum(act) < m - 1 and (tier == "quick" or m > 3):
                                continue
                            sub.append([kinds, act])
                    for h in range(0, len(sub), 8):
                        yield dict(nb=nb, e=edges, sub=sub[h:h + 8], dc=dc, mode=(u + h) % 6, hs=[u % 2] if tier == "quick" else [0, 1])
    for p in (0, 1):
        for mode in range(6):
            yield dict(nb=3, e=[[0, 1], [1, 2], [2, 0], [0, 1]], sub=[["LXLP", (1, 1, 1, 1)], ["XLPL", (1, 0, 1, 1)]], dc=0, mode=mode, periods=p, dup=1, hs=[mode % 2])


def tag(case):
    return core.digest(case)


def cost(case):
    return len(case["sub"])


def run(case):
    import numpy as np
    import pandas as pd
    from checks import c08
    r = core.Result()
    r.sample = {k: v for k, v in case.items() if k != "hs"}
    n = nets.new(snapshots=[0, 1], periods=[2020, 2030] if case.get("periods") else None)
    specs = [["Bus", "lone", dict(v_nom=10.0)], ["Load", "lone", dict(bus="lone", p_set=1.0)]]
    for i, (kinds, act) in enumerate(case["sub"]):
        p = f"i{i}~"
        specs += c08.grid(p, case["nb"], case["e"], kinds, act, case["dc"])
        for b in range(case["nb"]):
            specs.append(["Load", p + f"l{b}", dict(bus=p + f"b{b}", p_set=[[1.25, -0.5, 0.75, 2.0][b], [0.5, 1.0, -1.5, 0.25][b]] * (2 if case.get("periods") else 1))])
        specs.append(["Generator", p + "g", dict(bus=p + f"b{case['nb'] - 1}", p_set=0.25)])
    if case.get("dup"):
        # the same name for a line and a transformer
        specs += [["Line", "same", dict(bus0="i0~b0", bus1="i0~b1", x=3.0, r=1.0)], ["Transformer", "same", dict(bus0="i0~b1", bus1="i0~b2", x=0.3, r=0.01, s_nom=5.0)], ["Line", "other", dict(bus0="i1~b0", bus1="i1~b1", x=3.0, r=1.0)]]
    nets.bulk(n, specs)
    controls = dict(n.generators.control)
    key = core.digest(r.sample)
    mode = case["mode"]
    t = n.snapshots[0] if mode != 1 else n.snapshots[-1]
    branches = [(c, k) for c in refpf.BR for k in n.static(c).index]
    live = [x for x in branches if refpf.act(n, *x)]
    arg = {0: None, 1: t, 2: list(n.snapshots), 3: n.snapshots, 4: n.snapshots[:1], 5: t}[mode]
    outs = None if mode in (0, 1, 3) else branches[::-1] if mode in (2, 5) else [k for c, k in branches if c == "Line"]
    if not branches:
        n.lpf(t)
    else:
        res = n.lpf_contingency(arg, outs) if outs is not None else n.lpf_contingency(arg) if arg is not None else n.lpf_contingency()
        r.transitions += 1
        want = branches if outs is None else [o if isinstance(o, tuple) else ("Line", o) for o in outs]
        if list(res.columns) != ["base"] + want and set(res.columns) != {"base"} | set(want):
            r.bad(f"columns:{key}", f"columns {list(res.columns)}, expected base and {want}")
            return r
        if set(res.index) != set(branches):
            r.bad(f"rows:{key}", f"rows {list(res.index)}, expected {branches}")
            return r
        base = refpf.linear(n, t, controls)
        nisl = len(refpf.islands(n))
        for o in ["base"] + want:
            exp = base
            if o != "base" and o in live:
                n.static(o[0]).loc[o[1], "active"] = False
                split = len(refpf.islands(n)) != nisl
                exp = None if split else refpf.linear(n, t, controls)
                n.static(o[0]).loc[o[1], "active"] = True
            if exp is None:
                continue
            r.traces += 1
            for x in branches:
                got = float(res.at[x, o]) if o != "base" else float(res["base"][x])
                e = exp[x[0], "p0", x[1]]
                if not math.isclose(got, e, rel_tol=1e-6, abs_tol=1e-6):
                    r.bad(f"outage:{key}:{o}:{x}", f"flow of {x} for outage {o} is {got}, really {e}, in {r.sample}")
    # the matrices
    A = n.loads.active.copy()
    for (kinds, act), i in zip(case["sub"], range(len(case["sub"]))):
        r.state([case["nb"], case["e"], kinds, act, case["dc"], mode, case.get("periods")])
    for sub in n.sub_networks.obj:
        br = list(sub.branches_i(active_only=True))
        if not br:
            continue
        sub.calculate_BODF()
        bo = list(sub.buses_o)
        PT, BO = np.asarray(sub.PTDF), np.asarray(sub.BODF)
        if PT.shape != (len(br), len(bo)) or BO.shape != (len(br), len(br)):
            r.bad(f"shape:{key}", f"PTDF {PT.shape}, BODF {BO.shape} for {br}, {bo}")
            continue
        f0 = flows(n, bo, br, {}, bo[0])
        for j, b in enumerate(bo):
            f = flows(n, bo, br, {b: 1.0}, bo[0])
            r.transitions += 1
            if not np.allclose(PT[:, j], f - f0, atol=1e-8):
                r.bad(f"PTDF:{key}:{b}", f"PTDF column {b} {PT[:, j]}, really {f - f0}, in {r.sample}")
        inj = {b: 0.3 + 0.7 * j for j, b in enumerate(bo)}
        f = flows(n, bo, br, inj, bo[0])
        r.outcome([round(float(x), 6) for x in f])
        for j, o in enumerate(br):
            rest = [x for x in br if x != o]
            g = flows(n, bo, rest, inj, bo[0])
            if g is None:
                continue
            g = np.array([0.0 if x == o else g[rest.index(x)] for x in br])
            got = f + BO[:, j] * f[j]
            r.transitions += 1
            if not np.allclose(got, g, atol=1e-7):
                r.bad(f"BODF:{key}:{o}", f"BODF flows for outage {o}: {got}, really {g}, in {r.sample}")
    return r


def flows(n, buses, br, inj, slack):
    """Linear flows of the given branches for the given injections; None if the grid falls apart."""
    import numpy as np
    ix = {b: i for i, b in enumerate(buses)}
    N = len(buses)
    A = np.zeros((N, N))
    rhs = np.array([inj.get(b, 0.0) for b in buses])
    P = []
    for c, k in br:
        s = n.static(c).loc[k]
        i, j = ix[s["bus0"]], ix[s["bus1"]]
        b, ph = refpf.lin_b(n, c, k)
        P.append((i, j, b, ph))
        A[i, i] += b
        A[j, j] += b
        A[i, j] -= b
        A[j, i] -= b
        rhs[i] += b * ph
        rhs[j] -= b * ph
    if len(nets.components(N, [(i, j) for i, j, _, _ in P])) > 1:
        return None
    th = np.zeros(N)
    keep = [i for i in range(N) if i != ix[slack]]
    th[keep] = np.linalg.solve(A[np.ix_(keep, keep)], rhs[keep])
    return np.array([b * (th[i] - th[j] - ph) for i, j, b, ph in P])
