"""C30: near-optimal alternatives stay within budget and optimise their direction."""
import copy, itertools, math
from mc import core, nets, canon, refopt, world

ID = "C30"
HS = [0]
TECHNIQUE = "exhaustive enumeration of directions x forms of weights x senses x slacks x expansion problems, each alternative judged for feasibility, budget and extremality against an independent reference optimiser"
RULE = ("an alternative is feasible, costs at most (1+slack) times the optimum, and its weighted sum of capacities or dispatch is extremal among all such systems; inputs, cost data and the weights handed in are unchanged")
ASSUMPTIONS = ["total cost is capital plus operating expenditure of the system as in the statistics (including that of fixed assets)", "every alternative starts from the solved optimum (the budget refers to the network's current solution)",
               "linear and mixed-integer problems (a quadratic budget is not supported by the modelling library)"]
SLACKS = [0.05, 0.0, 0.4]
SENSES = ["min", "max", "minimize", "maximize", 1, -1]
NETS = ["cap", "fixed", "inactive", "base", "lp", "lp-subset", "invest", "milp"]


def BOUNDS(tier):
    return dict(tier=tier, slacks=SLACKS, senses=[str(s) for s in SENSES], networks=NETS, forms=["float", "dict", "series", "frame", "default"])


def cases(tier):
    full = tier == "thorough"
    for net in NETS:
        D = directions(net)
        for i in range(0, len(D), 3):
            for k in range(len(SLACKS)):
                if not full and not k and net in ("lp-subset", "invest", "milp", "fixed") and (i // 3 + len(net)) % 2:
                    continue
                if not full and k and net in ("cap", "fixed") and (i // 3 + k) % 2:
                    continue
                if not full and k and net not in ("cap", "fixed") and not (k == 1 and i in (0, 6)):
                    continue
                yield dict(net=net, first=i, count=3, slack=k, full=full)
    for w in ("unsolved", "sense", "sense2"):
        yield dict(net="cap", bad=w)


def cost(case):
    return 3.0 if case["net"] in ("cap", "fixed", "inactive", "base") else 8.0


def tag(case):
    return f"{case['net']}-{case.get('bad', '')}"


def specs(net):
    if net in ("lp", "lp-subset", "invest", "milp"):
        return world.specs(net.split("-")[0])
    sp = [("Carrier", "c", dict()), ("Bus", "b", {}), ("Bus", "d", {}),
          ("Generator", "coal", dict(bus="b", p_nom_extendable=True, capital_cost=20.0, marginal_cost=2.0, carrier="c")),
          ("Generator", "gas", dict(bus="b", p_nom_extendable=True, capital_cost=13.0, marginal_cost=5.5, p_nom_min=1.0, p_nom_max=30.0)),
          ("Generator", "wind", dict(bus="d", p_nom_extendable=True, capital_cost=9.0, marginal_cost=0.1, p_max_pu=[0.2, 0.7, 0.4], p_nom_max=25.0)),
          ("Generator", "old", dict(bus="d", p_nom=3.0, marginal_cost=6.0)),
          ("Store", "s", dict(bus="d", e_nom_extendable=True, capital_cost=1.1, e_cyclic=True, e_nom_max=20.0)),
          ("StorageUnit", "u", dict(bus="b", p_nom_extendable=True, capital_cost=3.3, max_hours=2.0, efficiency_store=0.9, efficiency_dispatch=0.9, p_nom_max=6.0, cyclic_state_of_charge=True, marginal_cost=0.2)),
          ("Link", "k", dict(bus0="b", bus1="d", p_nom_extendable=True, capital_cost=2.2, p_min_pu=-1.0, p_nom_max=15.0, marginal_cost=0.05)),
          ("Load", "l", dict(bus="b", p_set=[11.0, 9.0, 14.0])), ("Load", "m", dict(bus="d", p_set=[3.0, 5.0, 4.0]))]
    at = {i: a for _, i, a in sp}
    if net == "base":      # capacities that exist already
        at["coal"]["p_nom"] = 2.0
        at["k"]["p_nom"] = 1.5
        at["s"]["e_nom"] = 2.5
    if net in ("fixed", "inactive"):
        at["old"]["capital_cost"] = 7.0
        sp.append(("Link", "fix", dict(bus0="b", bus1="d", p_nom=1.0, capital_cost=3.0, efficiency=0.9)))
    if net == "inactive":
        sp += [("Generator", "off", dict(bus="b", active=False, p_nom=10.0, capital_cost=50.0)), ("Generator", "offx", dict(bus="b", active=False, p_nom=4.0, p_nom_extendable=True, capital_cost=30.0))]
    return sp


def build(net):
    if net in ("lp", "lp-subset", "invest", "milp"):
        k = net.split("-")[0]
        return world.build(specs(net), k)
    n = nets.new(snapshots=[0, 1, 2])
    n.snapshot_weightings["objective"] = [2.0, 1.0, 3.0]
    return nets.bulk(n, specs(net))


def directions(net):
    """(label, class, attribute, form, names or None)"""
    nomi = dict(Generator="p_nom", Link="p_nom", Store="e_nom", StorageUnit="p_nom", Line="s_nom")
    ext, every = {}, {}
    for c, i, a in specs(net):
        if c in nomi:
            every.setdefault(c, []).append(i)
            if a.get(nomi[c] + "_extendable"):
                ext.setdefault(c, []).append(i)
    out = [("default", None)]
    for c in ext:
        a = nomi[c]
        out.append((f"{c}-all", {c: {a: ["float", 1.5]}}))
        for i in ext[c][:3]:
            out.append((f"{c}-{i}", {c: {a: ["dict", {i: 1.0}]}}))
        out.append((f"{c}-series", {c: {a: ["series", {i: 1.0 + 0.5 * k for k, i in enumerate(every[c])}]}}))
    g = ext["Generator"]
    if len(g) > 1:
        out.append(("mixed", {"Generator": {"p_nom": ["dict", {g[0]: 1.0, g[1]: -2.0}]}}))
    c2 = [c for c in ext if c != "Generator"][0]
    out.append(("two", {"Generator": {"p_nom": ["dict", {g[0]: 1.0}]}, c2: {nomi[c2]: ["dict", {ext[c2][0]: 0.7}]}}))
    for c, a in [("Generator", "p"), ("Link", "p"), ("StorageUnit", "p_dispatch"), ("Store", "e")]:
        if c not in every:
            continue
        out.append((f"{c}-{a}-float", {c: {a: ["float", 1.0]}}))
        out.append((f"{c}-{a}-dict", {c: {a: ["dict", {every[c][0]: 1.0, every[c][-1]: 0.25}]}}))
        out.append((f"{c}-{a}-series", {c: {a: ["series", {i: 1.0 + 0.3 * k for k, i in enumerate(every[c])}]}}))
        out.append((f"{c}-{a}-frame", {c: {a: ["frame", {i: [1.0 + 0.2 * k, 0.5, 1.7] for k, i in enumerate(every[c][:2])}]}}))
    out.append(("capacity+dispatch", {"Generator": {"p_nom": ["dict", {g[0]: 1.0}], "p": ["dict", {every["Generator"][0]: 0.1}]}}))
    return out


def make(w, n, sns):
    """The weights argument and its meaning {(class, attribute): f(name, position)}."""
    import pandas as pd
    if w is None:
        return None, {("Generator", "p_nom"): lambda i, t: 1.0}
    arg, mean = {}, {}
    for c, d in w.items():
        for a, (form, v) in d.items():
            if form == "float":
                x, f = v, (lambda i, t, v=v: v)
            elif form == "dict":
                x, f = dict(v), (lambda i, t, v=v: v.get(i, 0.0))
            elif form == "series":
                x, f = pd.Series(v), (lambda i, t, v=v: v.get(i, 0.0))
            else:
                T = len(sns)
                v = {i: [q[k % len(q)] for k in range(T)] for i, q in v.items()}
                x, f = pd.DataFrame(v, index=sns), (lambda i, t, v=v: v[i][t] if i in v else 0.0)
            arg.setdefault(c, {})[a] = x
            mean[c, a] = f
    return arg, mean


def inputs(n):
    """Everything but outputs, results of the run and meta data."""
    cn = canon.canon(n)
    out = {}
    for k, v in cn.items():
        if isinstance(k, tuple) and k[0] in ("static", "dyn") and len(k) > 2:
            c, a = k[1], k[2]
            st = n.components[c]["attrs"]
            if a in st.index and st.status[a].startswith("Output"):
                continue
        if k in ("meta", "objective", "objective_constant") or isinstance(k, tuple) and "meta" in k:
            continue
        out[k] = v
    return out


def run(case):
    res = core.Result()
    net = case["net"]
    n = build(net)
    if case.get("bad"):
        try:
            if case["bad"] != "unsolved":
                nets.optimize(n)
            so = dict(solver_name="highs")
            n.optimize.optimize_mga(sense="upwards" if case["bad"] == "sense" else 0 if case["bad"] == "sense2" else "min", **so)
            res.bad(case["bad"], f"{case['bad']} accepted")
        except ValueError:
            pass
        res.state(case)
        res.outcome("rejected")
        return res
    multi = net == "invest"
    sns = n.snapshots if net != "lp-subset" else n.snapshots[:2]
    kw = dict(multi_investment_periods=multi)
    st = nets.optimize(n, None if net != "lp-subset" else sns, **kw)
    ref = refopt.build(n, sns=None if net != "lp-subset" else sns, multi=multi)
    s0, best, _ = ref.solve()
    if tuple(st) != ("ok", "optimal") or s0 != "optimal":
        res.bad("base", f"{net}: {st} {s0}")
        return res
    fixed = 0.0
    for c, a in refopt.NOM.items():
        t = n.static(c)
        for i in t.index:
            if not t.at[i, a + "_extendable"] and t.at[i, "active"]:
                fixed += t.at[i, "capital_cost"] * t.at[i, a]
    slack = SLACKS[case["slack"]]
    keep = {c: (n.static(c).copy(), {k: v.copy() for k, v in n.dynamic(c).items()}) for c in n.components.keys()}
    attrs = n.objective, n.objective_constant
    D = directions(net)[case["first"]:case["first"] + case["count"]]
    for j, (label, w) in enumerate(D):
        for si, sense in enumerate(SENSES):
            if not case["full"] and si not in ((0, 1) if net == "cap" and slack == 0.05 else ((j + case["first"]) % 6,)):
                continue
            sgn = 1.0 if sense in ("min", "minimize", 1) else -1.0
            for c, (s, d) in keep.items():
                n.components[c].static = s.copy()
                for k, v in d.items():
                    n.components[c].dynamic[k] = v.copy()
            n._objective, n._objective_constant = getattr(n, "_objective", None), getattr(n, "_objective_constant", None)
            try:
                n.objective, n.objective_constant = attrs
            except AttributeError:
                pass
            arg, mean = make(w, n, sns)
            arg0 = copy.deepcopy(arg)
            before = inputs(n)
            key = f"{label} {sense} {slack} {net}"
            res.transitions += 1
            so = dict(log_to_console=False, threads=1, mip_rel_gap=0.0, mip_abs_gap=1e-9)
            status = n.optimize.optimize_mga(snapshots=None if net != "lp-subset" else sns, weights=arg, sense=sense, slack=slack, solver_name="highs", solver_options=so, **kw)
            res.traces += 1
            # the reference problem: budget row and direction
            m = refopt.build(n, sns=None if net != "lp-subset" else sns, multi=multi)
            m.row(dict(m.cost), -math.inf, (1 + slack) * (best + fixed) - fixed - m.const + 1e-6 * abs(best), "budget")
            pos = {t: k for k, t in enumerate(sns)}
            obj = {}
            for (c, a), f in mean.items():
                for k in m.keys:
                    if k[0] != c:
                        continue
                    if k[1] == "nom" and a == refopt.NOM[c] or k[1] == a and len(k) > 3:
                        v = f(k[2], pos[k[3]] if len(k) > 3 else 0)
                        if v:
                            obj[k] = v
            if not obj:
                raise RuntimeError(f"empty direction {key}")
            s1, val, x1 = m.solve(cost={k: sgn * v for k, v in obj.items()})
            val = None if x1 is None else sum(v * x1[m.idx[k]] for k, v in obj.items())
            ok = tuple(status) == ("ok", "optimal")
            if (s1 == "optimal") != ok:
                res.bad(f"status-{label}", f"{key}: {status}, reference {s1}")
                continue
            if not ok:
                res.outcome("unbounded")
                continue
            x = refopt.extract(n, m)
            if any(v != v for v in x):
                res.bad("missing", f"{key}: {[m.keys[i] for i, v in enumerate(x) if v != v][:3]}")
                continue
            bad = m.violations(x, 1e-4)
            if bad:
                res.bad("budget" if any(t == "budget" for t, _ in bad) else "infeasible", f"{key}: {bad[:3]}"[:300])
            mine = sum(v * x[m.idx[k]] for k, v in obj.items())
            if abs(mine - val) > (1e-3 if net != "milp" or slack else 1e-2) * max(1.0, abs(val)):
                res.bad(f"direction-{label}", f"{key}: {mine}, extremal value {val}")
            after = inputs(n)
            if canon.diff(before, after):
                res.bad("inputs", f"{key}: {canon.diff(before, after)}"[:300])
            if not same(arg, arg0):
                res.bad("weights-changed", f"{key}: {arg} {arg0}"[:1500])
            if n.meta.get("slack") != slack or n.meta.get("sense") not in (sense, sgn) or w is not None and set(n.meta.get("weights", {})) != set(w):
                res.bad("meta", f"{key}: {n.meta}"[:300])
            res.outcome([net, label, str(sense), round(val, 2)])
            res.state([net, label, str(sense), slack])
    return res


def same(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "equals"):
        return a.equals(b) and list(a.index.names) == list(b.index.names)
    return a == b
