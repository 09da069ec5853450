"""C09: the non-linear power flow solves the AC equations it reports as converged."""
import cmath
import itertools
import math
from mc import core, nets, refpf

ID = "C09"
HS = [0]
TECHNIQUE = "exhaustive enumeration of grid shapes x branch models x activity x bus controls x slack distributions, and of two-edit histories, executed on the real non-linear power flow; every reported quantity is checked against the AC equations with independently derived admittances"
RULE = "each case is one network of many islands; for every island and snapshot reported as converged, all branch flows, bus injections, set points and the slack distribution are checked against the AC equations"
ASSUMPTIONS = ["convergence is required where the injections are mild (all enumerated islands except those with an unsolvable demand)", "bus p and q are the injections excluding shunt impedances", "weights that are zero in a whole island, negative-sign generators in slack distributions and DC islands with branches are not enumerated"]


def BOUNDS(tier):
    return ("grids: all multigraphs with 1..3 buses and 0..3 branches; branch kinds {line, transformer pi/t x tap side x tap ratio x phase shift x shunt}; activity patterns; 9 asset/control configurations; 6 slack schemes; "
            + ("rotating combinations" if tier == "quick" else "full product up to 2 branches, rotating kinds for 3; also 4 buses") + "; histories: pairs of 8 edits x snapshot subsets")


KINDS = "LABCD"


def branch(k, j, b0, b1, on):
    d = dict(bus0=b0, bus1=b1, active=bool(on))
    if k == "L":
        return ["Line", dict(x=[5.0, 8.0, 6.5, 4.0][j], r=[1.0, 0.5, 2.5, 0.75][j], b=[1e-4, 0.0, 2e-4, 0.0][j], g=[0.0, 3e-5, 0.0, 1e-5][j], s_nom=10.0, **d)]
    t = dict(A=dict(model="t", tap_side=0, tap_ratio=1.05), B=dict(model="t", tap_side=1, tap_ratio=0.96, phase_shift=4.0), C=dict(model="pi", tap_side=0, tap_ratio=0.95, phase_shift=-3.0), D=dict(model="pi", tap_side=1, tap_ratio=1.04))[k]
    return ["Transformer", dict(x=[0.2, 0.35, 0.15, 0.3][j], r=[0.02, 0.01, 0.04, 0.03][j], s_nom=[8.0, 16.0, 4.0, 10.0][j], g=[0.002, 0.0, 0.01, 0.0][j], b=[-0.03, 0.0, -0.01, -0.02][j], **t, **d)]


def grid(p, nb, edges, kinds, act):
    out = []
    for i in range(nb):
        out.append(["Bus", p + f"b{i}", dict(v_nom=20.0, v_mag_pu_set=[1.0, 1.02] if i == 0 else [0.99, 1.01, 0.985][i % 3])])
    for j, ((a, b), k, x) in enumerate(zip(edges, kinds, act)):
        if j % 2:
            a, b = b, a
        c, d = branch(k, j, p + f"b{a}", p + f"b{b}", x)
        out.append([c, p + f"e{j}", d])
    return out


def assets(b, i):
    f, l, m = b[0], b[-1], b[len(b) // 2]
    L = [["Load", "l0", dict(bus=l, p_set=[1.25, 0.5], q_set=[0.25, -0.125])], ["Load", "l1", dict(bus=f, p_set=0.75, q_set=0.125)]]
    G = lambda k, bus, **kw: ["Generator", k, dict(bus=bus, **kw)]
    return [
        [G("g", f, p_set=1.5, q_set=0.25, p_nom=3.0, p_nom_opt=1.0)] + L,
        [G("ga", f, p_set=0.5, control="PV", p_nom=2.0, p_nom_opt=4.0), G("gb", l, p_set=[1.0, 0.75], control="Slack", p_nom=1.0, p_nom_opt=3.0)] + L,
        [G("ga", f, p_set=0.5, control="Slack", p_nom=1.0, p_nom_opt=2.0), G("gb", f, p_set=0.25, control="PV", q_set=0.0625, p_nom=2.0, p_nom_opt=1.0), G("gc", l, p_set=0.25, control="PV", p_nom=4.0, p_nom_opt=1.0, q_set=0.03125), G("gd", l, p_set=[0.5, 0.125], control="PV", p_nom=0.0, p_nom_opt=2.0), G("ge", l, p_set=0.125, q_set=0.0625, p_nom=1.0, p_nom_opt=3.0)] + L,
        [G("ga", f, p_set=0.5, control="Slack", active=False, p_nom=5.0, p_nom_opt=2.0), G("gb", l, p_set=0.5, control="PV", active=False, q_set=0.5, p_nom=7.0, p_nom_opt=2.0), G("gc", f, p_set=0.5, control="PV", p_nom=1.0, p_nom_opt=2.0), G("gd", m, p_set=1.0, q_set=[0.125, 0.25], p_nom=2.0, p_nom_opt=1.0)] + L,
        [G("g", l, p_set=0.5, p_nom=1.0, p_nom_opt=2.0), ["StorageUnit", "s", dict(bus=f, p_set=[0.25, -0.5], q_set=0.125)], ["StorageUnit", "soff", dict(bus=f, p_set=2.0, q_set=1.0, active=False)], ["Store", "e", dict(bus=l, p_set=0.125, q_set=[0.0625, 0.125])], ["ShuntImpedance", "h", dict(bus=m, g=5e-4, b=-1e-3)], ["ShuntImpedance", "h2", dict(bus=m, g=2e-4, b=5e-4)], ["ShuntImpedance", "hoff", dict(bus=f, g=0.01, b=0.02, active=False)]] + L,
        [G("g", f, p_set=0.5, p_nom=0.0, p_nom_opt=2.0), G("g2", f, p_set=0.25, p_nom=0.0, p_nom_opt=1.0), G("g3", l, p_set=0.25, p_nom=2.0, p_nom_opt=1.0), ["Link", "k", dict(bus0=f, bus1=l, p_set=0.5, efficiency=0.75)], ["Link", "koff", dict(bus0=l, bus1=f, p_set=3.0, active=False)], ["Link", "k2", dict(bus0=l, bus1="hub", bus2=f, p_set=[-0.25, 0.125], efficiency=0.5, efficiency2=0.25)], ["Load", "loff", dict(bus=l, p_set=3.0, q_set=1.0, active=False)]] + L,
        [G("ga", f, p_set=0.5, sign=-1.0, control="Slack"), G("gb", l, p_set=-0.25, q_set=0.125, sign=-1.0, control="PV"), G("gc", l, p_set=0.25, sign=-1.0)] + L,
        L,
        [G("g", f, p_set=1.5), ["Load", "big", dict(bus=l, p_set=[0.25, 1e5], q_set=[0.125, 1e5])]] + L,
    ][i]


NA = 9
SCHEMES = ["single", "p_set", "p_nom", "p_nom_opt", "gens", "buses"]


def allowed(a, s, nb):
    return s == "single" or a in (0, 1, 2, 3, 4, 5)


def cases(tier):
    u = 0
    for s in SCHEMES:
        for nb, ms in ((1, (0,)), (2, (1, 2, 3)), (3, (2, 3))) + (((4, (3, 4)),) if tier != "quick" else ()):
            for m in ms:
                for edges in nets.multigraphs(nb, m):
                    sub = []
                    if tier == "quick":
                        kk = [tuple(KINDS[(i * (j + 1) + j) % 5] for j in range(m)) for i in range(5)] if m else [()]
                        if m == 3 or s != "single":
                            kk = kk[SCHEMES.index(s) % 2::2]
                    elif m < 3:
                        kk = list(itertools.product(KINDS, repeat=m))
                    else:
                        kk = [tuple(KINDS[(i * (j + 1) + q + j) % 5] for j in range(m)) for i in range(5) for q in range(2)]
                    for kinds in kk:
                        acts = list(itertools.product((1, 0), repeat=m))
                        if m == 3 or s != "single":
                            acts = [x for x in acts if sum(x) >= max(m - 1, 1)] or [()]
                        for act in acts:
                            aa = [a for a in range(NA) if allowed(a, s, nb)]
                            if tier == "quick" and m:
                                aa = [aa[u % len(aa)]] if m == 3 or not all(act) else [aa[u % len(aa)], aa[(u + 3) % len(aa)]]
                                u += 1
                            sub += [[kinds, act, a] for a in aa]
                    for h in range(0, len(sub), 24):
                        yield dict(k="grid", s=s, nb=nb, e=edges, sub=sub[h:h + 24], hs=[m % 2] if tier == "quick" else [0, 1])
    for i, e1 in enumerate(EDITS):
        yield dict(k="hist", e1=e1, second=[[e2, w] for j, e2 in enumerate(EDITS) for k, w in enumerate(("all", "first", "last")) if tier != "quick" or (i + j) % 3 == k])


EDITS = ["none", "line_off", "gen", "load", "remove", "add", "tap", "shunt"]


def edit(n, e):
    if e == "line_off":
        n.lines.loc["e0", "active"] = False
    elif e == "gen":
        n.generators.loc["gc", "active"] = not n.generators.at["gc", "active"]
        n.generators.loc["gd", "p_set"] += 0.25
    elif e == "load":
        n.loads_t.p_set["l0"] *= 0.75
        n.loads.loc["l0", "active"] = True
        n.loads_t.q_set["l0"] += 0.125
    elif e == "remove":
        for c, k in (("Generator", "gb"), ("Transformer", "e1"), ("Load", "l1"), ("ShuntImpedance", "h")):
            if k in n.static(c).index:
                n.remove(c, k)
    elif e == "add":
        if "e9" not in n.lines.index:
            n.add("Line", "e9", bus0="b2", bus1="b0", x=6.0, r=1.0, s_nom=5.0)
            n.add("Generator", "g9", bus="b1", p_set=0.25, control="PV")
            n.add("Bus", "new", v_nom=20.0, v_mag_pu_set=1.01)
            n.add("Load", "l9", bus="new", p_set=0.25, q_set=0.125)
            n.add("Generator", "gn", bus="new", p_set=0.125)
    elif e == "tap":
        n.transformers["tap_ratio"] *= 1.01
        n.transformers["phase_shift"] += 1.0
        n.lines["b"] += 1e-5
        n.buses.loc["b1", "v_mag_pu_set"] = 1.015
    elif e == "shunt":
        if len(n.shunt_impedances):
            n.shunt_impedances["active"] = ~n.shunt_impedances["active"]


def base():
    n = nets.new(snapshots=[0, 1])
    b = ["b0", "b1", "b2"]
    specs = grid("", 3, [[0, 1], [1, 2], [2, 0], [0, 1]], "LABL", [1, 1, 1, 1]) + [x for x in assets(b, 2)] + [["ShuntImpedance", "h", dict(bus="b2", g=5e-4, b=-1e-3)]]
    return nets.bulk(n, specs)


def tag(case):
    return core.digest(case)


def compare(n, r, sns, res, controls, scheme, weights, key, ctx, hard=()):
    """Check everything reported for the snapshots against the AC equations."""
    bad = lambda k, m: r.bad(f"{k}:{key}", f"{m} {ctx}")
    D = {(c, a): n.dynamic(c)[a] for c in ("Bus", "Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link", "ShuntImpedance") for a in n.dynamic(c)}
    g = lambda c, a, k, t: float(D[c, a].at[t, k])
    near = lambda x, y, tol=2e-5: math.isclose(x, y, rel_tol=1e-6, abs_tol=tol)
    for a in ("n_iter", "error", "converged"):
        if not res[a].index.equals(sns) or set(res[a].columns) != set(n.sub_networks.index):
            bad("report", f"{a} is indexed by {list(res[a].index)} and {list(res[a].columns)}")
            return
    Y = {(c, k): refpf.admittance(n, c, k) for c in refpf.BR for k in n.static(c).index if refpf.act(n, c, k)}
    isl = refpf.islands(n)
    for t in sns:
        expq, expp = {}, {}
        P = refpf.injections(n, t, expp)
        Q = refpf.injections(n, t, expq, reactive=True)
        for buses, br in isl:
            sn = n.buses.at[buses[0], "sub_network"]
            conv = bool(res["converged"].at[t, sn])
            skip = any((b, t) in hard for b in buses)
            r.transitions += 1
            if skip:
                if conv and br:
                    bad("converged", f"unsolvable island {buses} at {t} reported as converged")
                continue
            if not conv:
                bad("converged", f"island {buses} at {t} did not converge")
                continue
            r.traces += 1
            if not float(res["error"].at[t, sn]) <= 1e-6:
                bad("error", f"island {buses} at {t} converged with error {res['error'].at[t, sn]}")
            sb, sg = refpf.slack(n, buses, controls)
            gens = [k for k in n.generators.index if n.generators.at[k, "bus"] in buses and refpf.act(n, "Generator", k)]
            pv = {}
            for k in gens:
                if controls[k] in ("PV", "Slack") and k != sg and n.generators.at[k, "bus"] != sb:
                    pv.setdefault(n.generators.at[k, "bus"], k)
            V = {b: cmath.rect(g("Bus", "v_mag_pu", b, t), g("Bus", "v_ang", b, t)) for b in buses}
            S = {b: 0j for b in buses}
            for c, k in br:
                y00, y01, y10, y11 = Y[c, k]
                s = n.static(c).loc[k]
                v0, v1 = V[s["bus0"]], V[s["bus1"]]
                s0 = v0 * (y00 * v0 + y01 * v1).conjugate()
                s1 = v1 * (y10 * v0 + y11 * v1).conjugate()
                S[s["bus0"]] += s0
                S[s["bus1"]] += s1
                for a, x in (("p0", s0.real), ("q0", s0.imag), ("p1", s1.real), ("q1", s1.imag)):
                    if not near(g(c, a, k, t), x):
                        bad(f"flow:{a}", f"{c} {k} {a} at {t} is {g(c, a, k, t)}, voltages imply {x}")
            for k in n.shunt_impedances.index:
                s = n.shunt_impedances.loc[k]
                if s["bus"] in S:
                    v2 = abs(V[s["bus"]]) ** 2 * float(n.buses.at[s["bus"], "v_nom"]) ** 2 if s["active"] else 0.0
                    S[s["bus"]] += complex(s["g"] * v2, -s["b"] * v2)
                    if not near(g("ShuntImpedance", "p", k, t), s["g"] * v2) or not near(g("ShuntImpedance", "q", k, t), s["b"] * v2):
                        bad("shunt", f"shunt {k} at {t}: {g('ShuntImpedance', 'p', k, t)}, {g('ShuntImpedance', 'q', k, t)}, expected {s['g'] * v2}, {s['b'] * v2}")
            r.outcome([round(abs(v), 6) for v in V.values()])
            if not near(abs(V[sb]), refpf.val(n, "Bus", sb, "v_mag_pu_set", t)) or not near(g("Bus", "v_ang", sb, t), 0.0):
                bad("slack", f"slack bus {sb} at {t}: {V[sb]}")
            total = sum(x.real for x in S.values()) - sum(P[b] for b in buses)
            share = {}
            if scheme == "single":
                share = {sg: 1.0} if sg else {}
            else:
                w = {k: weights(k, t) for k in gens}
                tw = sum(w.values())
                share = {k: x / tw for k, x in w.items()}
            extra = {b: 0.0 for b in buses}
            for k, x in share.items():
                extra[n.generators.at[k, "bus"]] += x * total
            for b in buses:
                pset = P[b] + (extra[b] if gens else total if b == sb else 0.0)
                if not near(S[b].real, pset):
                    bad("balance", f"bus {b} at {t}: active power leaving {S[b].real}, set points plus slack {pset} (slack {total})")
                if not near(g("Bus", "p", b, t), S[b].real):
                    bad("bus_p", f"bus {b} at {t} reports p={g('Bus', 'p', b, t)}, voltages imply {S[b].real}")
                if b != sb and b not in pv and not near(S[b].imag, Q[b]):
                    bad("balance_q", f"PQ bus {b} at {t}: reactive power leaving {S[b].imag}, set point {Q[b]}")
                if b in pv and not near(abs(V[b]), refpf.val(n, "Bus", b, "v_mag_pu_set", t)):
                    bad("pv", f"PV bus {b} at {t}: voltage {abs(V[b])}")
                if not near(g("Bus", "q", b, t), S[b].imag):
                    bad("bus_q", f"bus {b} at {t} reports q={g('Bus', 'q', b, t)}, voltages imply {S[b].imag}")
                k = sg if b == sb else pv.get(b)
                if k:
                    expq["Generator", "q", k] += float(n.generators.at[k, "sign"]) * (S[b].imag - Q[b])
            for k, x in share.items():
                expp["Generator", "p", k] += float(n.generators.at[k, "sign"]) * x * total
        done = {b for buses, _ in isl for b in buses if bool(res["converged"].at[t, n.buses.at[buses[0], "sub_network"]]) and not any((x, t) in hard for x in buses)}
        for (c, a, k), x in {**expp, **expq}.items():
            if c != "Link" and n.static(c).at[k, "bus"] not in done:
                continue
            if not near(g(c, a, k, t), x):
                bad(f"{c}:{a}", f"{c} {k} {a} at {t} is {g(c, a, k, t)}, expected {x}")


def grid_case(case, r):
    import pandas as pd
    n = nets.new(snapshots=[0, 1])
    specs = [["Bus", "hub", dict(v_nom=20.0)]]
    if case["s"] != "single":
        specs.append(["Generator", "ghub", dict(bus="hub", p_set=1.0, p_nom=1.0, p_nom_opt=1.0)])
    hard = set()
    for i, (kinds, act, a) in enumerate(case["sub"]):
        p = f"i{i}~"
        specs += grid(p, case["nb"], case["e"], kinds, act)
        for c, name, d in assets([p + f"b{j}" for j in range(case["nb"])], a):
            specs.append([c, p + name, d])
        if a == 8:
            hard.add((p + f"b{case['nb'] - 1}", 1))
        r.state([case["nb"], case["e"], kinds, act, a, case["s"]])
    nets.bulk(n, specs)
    s = case["s"]
    kw = {}
    weights = None
    G = n.generators
    if s in ("p_set", "p_nom", "p_nom_opt"):
        kw = dict(distribute_slack=True, slack_weights=s)
        weights = lambda k, t: refpf.val(n, "Generator", k, "p_set", t) if s == "p_set" else float(n.generators.at[k, s])
    elif s in ("gens", "buses"):
        isl = refpf.islands(n)
        ok = {}
        n.determine_network_topology()
        sw = {}
        wt = {}
        for q, (buses, br) in enumerate(isl):
            gens = [k for k in G.index if G.at[k, "bus"] in buses and G.at[k, "active"]]
            sn = n.buses.at[buses[0], "sub_network"]
            if s == "gens":
                w = {k: float(1 + 2 * i) for i, k in enumerate(gens)}
                wt.update(w)
            else:
                gb = [b for b in buses if any(G.at[k, "bus"] == b for k in gens)]
                w = {b: float(2 + 3 * i) for i, b in enumerate(gb)}
                for b in gb:
                    nom = {k: float(G.at[k, "p_nom"]) for k in gens if G.at[k, "bus"] == b}
                    tot = sum(nom.values())
                    for k in nom:
                        wt[k] = w[b] * (nom[k] / tot if tot else 1 / len(nom))
            sw[sn] = w if q % 2 else pd.Series(w)
            if q % 4 == 2:
                sw[sn].index.name = "Generator" if s == "gens" else "Bus"
        kw = dict(distribute_slack=True, slack_weights=sw)
        weights = lambda k, t: wt[k]
    if s != "single":
        # islands without an active generator (inactive branches) cannot distribute anything
        for buses, br in refpf.islands(n):
            gens = [k for k in G.index if G.at[k, "bus"] in buses and G.at[k, "active"]]
            if not gens or s != "gens" and s != "buses" and any(not sum(weights(k, t) for k in gens) for t in n.snapshots):
                for b in buses:
                    k = "fill~" + b
                    n.add("Generator", k, bus=b, p_set=0.25, p_nom=2.0)
                    n.generators.loc[k, "p_nom_opt"] = 1.5
                    if s in ("gens", "buses"):
                        sn = n.buses.at[b, "sub_network"]
                        key = k if s == "gens" else b
                        sw[sn] = {**dict(sw[sn]), key: 2.0}
                        wt[k] = 2.0
    controls = dict(n.generators.control)
    res = n.pf(**kw)
    compare(n, r, n.snapshots, res, controls, s, weights, "grid" + core.digest(case), f"in {dict(case)}", hard)


def hist_case(case, r):
    import numpy as np
    for e2, which in case["second"]:
        n = base()
        edit(n, case["e1"])
        n.pf()
        edit(n, e2)
        S = {"all": n.snapshots, "first": n.snapshots[:1], "last": n.snapshots[1:]}[which]
        before = {(c, a): n.dynamic(c)[a].copy() for c in ("Generator", "Load", "Line", "Bus", "Transformer") for a in ("p", "q", "p0", "q1", "v_ang", "v_mag_pu") if a in n.dynamic(c)}
        controls = dict(n.generators.control)
        res = n.pf(S[0] if which == "last" else S)
        what = f"after edit {case['e1']}, pf, edit {e2}, pf of {which} snapshots"
        r.state([case["e1"], e2, which])
        r.sample = dict(e1=case["e1"], e2=e2, snapshots=which)
        compare(n, r, S, res, controls, "single", None, f"hist:{case['e1']}:{e2}:{which}", what)
        rest = n.snapshots.difference(S)
        for (c, a), df in before.items():
            cols = df.columns.intersection(n.dynamic(c)[a].columns)
            if not np.array_equal(df.loc[rest, cols].values, n.dynamic(c)[a].loc[rest, cols].values):
                r.bad(f"other:{c}:{a}:{case['e1']}:{e2}", f"{c} {a} of snapshots without power flow changed {what}")


def run(case):
    r = core.Result()
    r.sample = {k: v for k, v in case.items() if k != "hs"}
    (grid_case if case["k"] == "grid" else hist_case)(case, r)
    return r
