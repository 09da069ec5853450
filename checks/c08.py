"""C08: linear power flow = Kirchhoff's laws with a single slack."""
import itertools
from mc import core, nets, refpf

ID = "C08"
HS = [0]
TECHNIQUE = "exhaustive enumeration of grid shapes x branch kinds x activity x attached assets, and of all two-edit histories, executed on the real linear power flow and compared with an independent nodal solve"
RULE = "each case is one network of many islands (all asset configurations on one grid shape); every reported quantity of every snapshot is compared with an independent nodal solve; histories edit the network between two power flows"
ASSUMPTIONS = ["numpy.linalg.solve solves the small reference systems correctly", "which generator is the slack when none or several are marked: the first active one (of the marked ones) in table order"]
KINDS = "LXP"  # line, transformer with tap, transformer with phase shift


def BOUNDS(tier):
    return ("grids: all multigraphs with 1..3 buses and 0..3 branches" + ("" if tier == "quick" else ", 4 buses with 3..5 branches") + "; branch kinds {line, tap transformer, phase-shifting transformer}" + (" (4 of 27 patterns for 3 branches), activity patterns x 12 asset configurations (rotating, 1 or 2 per pattern; all 12 on homogeneous grids)" if tier == "quick" else ", all activity patterns x all 12 asset configurations")
            + "; AC and DC; histories: all pairs of 12 edits " + ("with all/first/last snapshots rotating" if tier == "quick" else "x all/first/last snapshots") + ", flat and period time axes")


def assets(b, i):
    """The i-th asset configuration on the buses b (first and last bus used)."""
    f, l = b[0], b[-1]
    L = [["Load", "l0", dict(bus=l, p_set=[3.25, 1.5])], ["Load", "l1", dict(bus=f, p_set=0.75)]]
    G = lambda k, bus, **kw: ["Generator", k, dict(bus=bus, **kw)]
    return [
        L,
        [G("g", f, p_set=2.5)] + L,
        [G("g", l, p_set=[1.25, 2.0])] + L,
        [G("ga", f, p_set=1.5, control="PV"), G("gb", l, p_set=1.0, control="Slack")] + L,
        [G("ga", l, p_set=1.5, control="Slack"), G("gb", f, p_set=[1.0, 0.25], control="Slack")] + L,
        [G("ga", f, p_set=1.5, active=False), G("gb", l, p_set=1.0)] + L,
        [G("ga", f, p_set=1.5, active=False, control="Slack"), G("gb", l, p_set=1.0, control="PV"), G("gc", f, p_set=0.5)] + L,
        [G("ga", f, p_set=1.5, active=False)] + L,
        [G("g", f, p_set=2.5, sign=-1.0)] + L,
        [G("g", l, p_set=0.5), ["StorageUnit", "s", dict(bus=f, p_set=[0.5, -0.75])], ["Store", "e", dict(bus=l, p_set=0.125, sign=-1.0)], ["ShuntImpedance", "h", dict(bus=l, g=0.002, b=0.001)], ["ShuntImpedance", "hoff", dict(bus=f, g=0.05, active=False)]] + L,
        [["StorageUnit", "soff", dict(bus=f, p_set=4.0, active=False)], ["Store", "e", dict(bus=l, p_set=[1.0, 2.0])], ["Load", "loff", dict(bus=l, p_set=9.0, active=False)], ["Load", "lneg", dict(bus=f, p_set=1.0, sign=1.0)]] + L,
        [G("g", f, p_set=0.5), ["Link", "k", dict(bus0=f, bus1=l, p_set=1.5, efficiency=0.75)], ["Link", "koff", dict(bus0=l, bus1=f, p_set=7.0, active=False)], ["Link", "k2", dict(bus0=l, bus1="hub", bus2=f, p_set=[-0.5, 0.25], efficiency=0.5, efficiency2=0.25)], ["Link", "kout", dict(bus0="hub", bus1=l, p_set=0.375)]] + L,
    ][i]


NA = 12


def grid(p, nb, edges, kinds, act, dc):
    out = [["Bus", p + f"b{i}", dict(v_nom=10.0, carrier="DC" if dc else "AC")] for i in range(nb)]
    for j, ((a, b), k, x) in enumerate(zip(edges, kinds, act)):
        if j % 2:
            a, b = b, a
        d = dict(bus0=p + f"b{a}", bus1=p + f"b{b}", active=bool(x))
        if k == "L":
            out.append(["Line", p + f"e{j}", dict(x=[7.0, 11.0, 5.0, 13.0, 17.0][j], r=[1.5, 0.5, 2.5, 3.5, 0.75][j], s_nom=10.0, **d)])
        else:
            out.append(["Transformer", p + f"e{j}", dict(x=[0.7, 1.1, 0.5, 1.3, 1.7][j], r=[0.1, 0.2, 0.3, 0.15, 0.05][j], s_nom=[8.0, 16.0, 4.0, 2.0, 1.0][j], model="t" if j % 2 else "pi", g=0.01, b=-0.02, tap_side=j % 2,
                                                            **(dict(tap_ratio=1.25) if k == "X" else dict(phase_shift=[20.0, -35.0, 10.0, 5.0, -8.0][j])), **d)])
    return out


def cases(tier):
    u = 0
    for dc in (0, 1):
        for nb, ms in (((1, (0,)), (2, (1, 2, 3)), (3, (2, 3))) if tier == "quick" else ((1, (0,)), (2, (1, 2, 3)), (3, (1, 2, 3, 4)), (4, (3, 4, 5)))):
            for m in ms:
                for edges in nets.multigraphs(nb, m):
                    K = KINDS if not dc else "L"
                    if m > 3:
                        K = K[:2]
                    for i, kinds in enumerate(itertools.product(K, repeat=m)):
                        if tier == "quick" and m == 3 and not dc and not (kinds in (("L",) * 3, ("L", "X", "P"), ("P", "L", "X"), ("X", "L", "L"))):
                            continue
                        sub = []
                        for act in itertools.product((1, 0), repeat=m):
                            if tier == "quick":
                                if m == 3 and sum(act) == 1:
                                    continue
                                every = sum(act) == m and len(set(kinds)) <= 1
                                sub += [[act, a] for a in range(NA) if every or (a - u) % NA in ((0, 5) if m < 3 else (0,))]
                                u += 1
                            else:
                                sub += [[act, a] for a in range(NA)]
                        for h in range(0, len(sub), 48):
                            yield dict(k="grid", nb=nb, e=edges, kinds=kinds, sub=sub[h:h + 48], dc=dc, hs=[0, 1] if tier != "quick" and len(set(kinds)) > 1 else [i % 2])
    for periods in (0, 1):
        for i, e1 in enumerate(EDITS):
            if tier == "quick" and periods and i % 4 != 1:
                continue
            for h in (0, 6):
                yield dict(k="hist", e1=e1, p=periods, second=[[e2, w] for j, e2 in enumerate(EDITS) for k, w in enumerate(("all", "first", "last")) if tier != "quick" or (i + j) % 3 == k][h * (1 if tier == "quick" else 3):][:6 * (1 if tier == "quick" else 3)])


EDITS = ["none", "line_off", "line_on", "gen_off", "gen_on", "load", "remove", "add", "link", "reactance", "bus_off", "solve"]


def edit(n, e):
    if e == "line_off":
        n.lines.loc["e0", "active"] = False
    elif e == "line_on":
        n.lines.loc["e2", "active"] = True
    elif e == "gen_off":
        n.generators.loc["ga", "active"] = False
    elif e == "gen_on":
        n.generators.loc["gc", "active"] = True
    elif e == "load":
        n.loads.loc["l2", "p_set"] += 1.75
        n.loads_t.p_set.iloc[0, 0] -= 0.5
    elif e == "remove":
        for c, k in (("Line", "e1"), ("Load", "l1"), ("Generator", "gb")):
            if k in n.static(c).index:
                n.remove(c, k)
    elif e == "add":
        if "e9" not in n.lines.index:
            n.add("Line", "e9", bus0="b2", bus1="b0", x=3.0, r=1.0, s_nom=5.0)
            n.add("Generator", "g9", bus="b2", p_set=0.625)
            n.add("Bus", "new", v_nom=10.0)
            n.add("Load", "l9", bus="new", p_set=0.25)
    elif e == "link":
        n.links.loc["k", "p_set"] += 0.5
        n.links.loc["k2", "active"] = not n.links.at["k2", "active"]
    elif e == "reactance":
        n.lines.loc["e0", "x"] *= 1.5
        n.transformers["tap_ratio"] *= 1.1
        n.buses.loc["b0", "v_nom"] = 10.0
    elif e == "bus_off":
        n.loads.loc["l2", "active"] = not n.loads.at["l2", "active"]
        n.stores.loc["st", "active"] = not n.stores.at["st", "active"]
        n.storage_units.loc["su", "active"] = not n.storage_units.at["su", "active"]
        n.shunt_impedances.loc["h", "active"] = not n.shunt_impedances.at["h", "active"]
    elif e == "solve":
        n.determine_network_topology()
        n.calculate_dependent_values()
    return n


def base(periods):
    n = nets.new(snapshots=[0, 1, 2] if not periods else [0, 1], periods=[2020, 2030] if periods else None)
    T = len(n.snapshots)
    s = lambda *x: list(x)[:T]
    return nets.bulk(n, grid("", 4, [[0, 1], [1, 2], [2, 0], [0, 1], [2, 3]], "LLLXL", [1, 1, 0, 1, 1], 0) + [
        ["Bus", "d", dict(carrier="DC", v_nom=5.0)], ["Bus", "d2", dict(carrier="DC", v_nom=5.0)], ["Line", "dc", dict(bus0="d", bus1="d2", r=0.5, x=0.1, s_nom=9.0)],
        ["Generator", "ga", dict(bus="b1", p_set=1.5, control="Slack")], ["Generator", "gb", dict(bus="b0", p_set=s(1.0, 2.0, 0.5, 0.25))], ["Generator", "gc", dict(bus="b3", p_set=0.75, active=False)], ["Generator", "gd", dict(bus="d2", p_set=0.1)],
        ["Load", "l0", dict(bus="b2", p_set=s(4.0, 1.0, 2.0, 3.0))], ["Load", "l1", dict(bus="b3", p_set=0.5)], ["Load", "l2", dict(bus="d", p_set=0.25)],
        ["Store", "st", dict(bus="b0", p_set=0.375)], ["StorageUnit", "su", dict(bus="d", p_set=0.0625)], ["ShuntImpedance", "h", dict(bus="b2", g=0.001, b=0.0)],
        ["Link", "k", dict(bus0="b2", bus1="d", p_set=0.5, efficiency=0.9)], ["Link", "k2", dict(bus0="d2", bus1="b0", bus2="b3", p_set=s(0.25, -0.5, 0.125, 0.75), efficiency=0.8, efficiency2=0.3)]])


def tag(case):
    return core.digest(case)


def compare(n, r, sns, controls, key, what):
    import math
    for t in sns:
        exp = refpf.linear(n, t, controls)
        obs = refpf.observed(n, t, exp)
        r.traces += 1
        r.outcome(round(sum(abs(x) for x in obs.values() if x is not None), 6))
        for k, e in exp.items():
            o = obs[k]
            r.transitions += 1
            if o is None or not math.isclose(o, e, rel_tol=1e-7, abs_tol=1e-7):
                r.bad(f"{k[0]}:{k[1]}:{key}:{k[2]}", f"{k[0]} {k[2]} {k[1]} at {t} is {o}, expected {e} {what}")


def grid_case(case, r):
    n = nets.new(snapshots=[0, 1])
    specs = [["Bus", "hub", dict(v_nom=10.0)]]
    for i, (act, a) in enumerate(case["sub"]):
        p = f"i{i}a{a}~"
        specs += grid(p, case["nb"], case["e"], case["kinds"], act, case["dc"])
        for c, name, d in assets([p + f"b{j}" for j in range(case["nb"])], a):
            specs.append([c, p + name, d])
        r.state([case["nb"], case["e"], case["kinds"], act, a, case["dc"]])
    nets.bulk(n, specs)
    controls = dict(n.generators.control)
    n.lpf()
    compare(n, r, n.snapshots, controls, "grid" + core.digest(case), f"in {dict(case)}")


def hist_case(case, r):
    import numpy as np
    for e2, which in case["second"]:
        n = base(case["p"])
        edit(n, case["e1"])
        n.lpf()
        edit(n, e2)
        S = {"all": n.snapshots, "first": n.snapshots[:1], "last": n.snapshots[1:]}[which]
        before = {(c, a): n.dynamic(c)[a].copy() for c in ("Generator", "Load", "Line", "Link", "Bus", "Transformer") for a in ("p", "p0", "p1", "v_ang") if a in n.dynamic(c)}
        controls = dict(n.generators.control)
        if len(S) == 1 and (which == "last" or case["p"]):
            n.lpf(S[0])
        else:
            n.lpf(S)
        what = f"after edit {case['e1']}, lpf, edit {e2}, lpf of {which} snapshots (periods={case['p']})"
        r.state([case["p"], case["e1"], e2, which])
        r.sample = dict(e1=case["e1"], e2=e2, snapshots=which)
        compare(n, r, S, controls, f"hist:{case['p']}:{case['e1']}:{e2}:{which}", what)
        rest = n.snapshots.difference(S)
        for (c, a), df in before.items():
            cols = df.columns.intersection(n.dynamic(c)[a].columns)
            if not np.array_equal(df.loc[rest, cols].values, n.dynamic(c)[a].loc[rest, cols].values):
                r.bad(f"other:{c}:{a}:{case['e1']}:{e2}", f"{c} {a} of snapshots without power flow changed {what}")


def run(case):
    r = core.Result()
    r.sample = {k: v for k, v in case.items() if k != "hs"}
    (grid_case if case["k"] == "grid" else hist_case)(case, r)
    return r
