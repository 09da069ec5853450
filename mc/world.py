"""A small network with every component type and generic numbers (so that optima are unique), and all analyses on it as
plain data.  Used by the checks that compare whole analyses of two networks (inactive, static/series, naming and order)."""
import math
from . import nets

T3 = [0, 1, 2]
WEIGHTS = dict(objective=[2.0, 1.0, 3.0], stores=[1.5, 1.0, 2.0], generators=[2.5, 1.0, 1.5])


def opt_specs(kind="lp"):
    """kind: lp, milp (committable), qp (quadratic costs), invest (two periods)"""
    inv = kind == "invest"
    r = (lambda v: v + [round(x * 1.07 + 0.003, 4) for x in v]) if inv else (lambda v: v)
    new = dict(build_year=2025, lifetime=30) if inv else {}
    old = dict(build_year=2000, lifetime=25) if inv else {}
    sp = [("Carrier", "gas", dict(co2_emissions=0.21)), ("Carrier", "wind", {}), ("Carrier", "AC", {}), ("Carrier", "heat", {}), ("Carrier", "load", {}),
          ("Carrier", "oil", dict(co2_emissions=0.31))]
    for i in range(4):
        sp.append(("Bus", f"a{i}", dict(carrier="AC", v_nom=380.0 if i != 2 else 220.0)))
    sp += [("Bus", "gas", dict(carrier="gas")), ("Bus", "h", dict(carrier="heat"))]
    for k, b in enumerate(["a0", "a1", "a2", "a3", "gas", "h"]):
        sp.append(("Generator", f"shed-{b}", dict(bus=b, p_nom=100.0, marginal_cost=311.0 + 7.7 * k, carrier="load")))
    sp += [("Generator", "w0", dict(bus="a0", carrier="wind", p_nom=6.1, p_max_pu=r([0.31, 0.83, 0.57]), marginal_cost=0.13)),
           ("Generator", "w1", dict(bus="a3", carrier="wind", p_nom_extendable=True, p_nom_max=5.3, capital_cost=8.9, p_max_pu=r([0.47, 0.29, 0.71]), marginal_cost=0.17, **new)),
           ("Generator", "g1", dict(bus="a1", carrier="oil", p_nom=12.0, marginal_cost=12.3, p_min_pu=0.05, ramp_limit_up=0.14, ramp_limit_down=0.17)),
           ("Generator", "g2", dict(bus="a2", carrier="oil", p_nom_extendable=True, capital_cost=7.7, marginal_cost=9.1, p_nom_max=6.3, **old)),
           ("Generator", "gg", dict(bus="gas", carrier="gas", p_nom=60.0, marginal_cost=7.3)),
           ("StorageUnit", "s0", dict(bus="a0", carrier="wind", p_nom=3.0, max_hours=2.3, efficiency_store=0.91, efficiency_dispatch=0.87, inflow=r([0.7, 0.2, 0.4]),
                                      marginal_cost=0.77, marginal_cost_storage=0.11, spill_cost=0.31, standing_loss=0.013, cyclic_state_of_charge=True)),
           ("StorageUnit", "s1", dict(bus="a2", carrier="load", p_nom_extendable=True, p_nom_max=2.1, capital_cost=2.9, max_hours=1.7, efficiency_store=0.93,
                                      marginal_cost=0.53, state_of_charge_initial=0.6, **new)),
           ("Store", "eh", dict(bus="h", carrier="heat", e_nom_extendable=True, e_nom_max=3.7, capital_cost=0.9, e_cyclic=True, standing_loss=0.02, marginal_cost=0.19)),
           ("Store", "eg", dict(bus="gas", carrier="gas", e_nom=8.0, e_initial=5.5, e_min_pu=0.1, marginal_cost=0.41, marginal_cost_storage=0.07)),
           ("Link", "chp", dict(bus0="gas", bus1="a0", bus2="h", carrier="gas", efficiency=0.41, efficiency2=0.47, p_nom=9.0, marginal_cost=0.63)),
           ("Link", "hp", dict(bus0="a2", bus1="h", carrier="heat", efficiency=2.7, p_nom_extendable=True, p_nom_max=2.2, capital_cost=6.1, marginal_cost=0.23)),
           ("Link", "dc", dict(bus0="a1", bus1="a3", carrier="AC", p_nom=4.1, p_min_pu=-1.0, efficiency=0.97, marginal_cost=0.31)),
           ("Load", "d0", dict(bus="a0", carrier="load", p_set=r([4.1, 5.3, 3.7]))), ("Load", "d1", dict(bus="a1", carrier="load", p_set=r([4.9, 6.1, 3.9]))),
           ("Load", "d2", dict(bus="a2", carrier="load", p_set=r([1.3, 2.7, 3.1]))), ("Load", "d3", dict(bus="a3", carrier="load", p_set=1.9)),
           ("Load", "dh", dict(bus="h", carrier="load", p_set=r([3.3, 2.1, 4.7]))),
           ("Line", "l01", dict(bus0="a0", bus1="a1", carrier="AC", x=0.21, r=0.02, s_nom=3.1, s_max_pu=0.9)),
           ("Line", "l12", dict(bus0="a1", bus1="a0", carrier="AC", x=0.33, r=0.03, s_nom=0.7, s_nom_extendable=True, s_nom_max=2.9, capital_cost=3.3)),
           ("Transformer", "t02", dict(bus0="a0", bus1="a2", x=0.27, r=0.01, s_nom=4.3, tap_ratio=1.05)),
           ("Transformer", "t12", dict(bus0="a1", bus1="a2", x=0.39, s_nom=2.7, s_max_pu=0.8)),
           ("GlobalConstraint", "co2", dict(type="primary_energy", carrier_attribute="co2_emissions", sense="<=", constant=13.0 if not inv else 130.0)),
           ("GlobalConstraint", "gasop", dict(type="operational_limit", carrier_attribute="oil", sense="<=", constant=17.0 if not inv else 310.0)),
           ("GlobalConstraint", "exp", dict(type="transmission_volume_expansion_limit", carrier_attribute="AC", sense="<=", constant=1.9))]
    sp = [(c, i, dict(a)) for c, i, a in sp]
    at = {i: a for _, i, a in sp}
    at["l12"]["length"] = 1.3
    at["l01"]["length"] = 0.7
    if kind == "milp":
        for i in ("co2", "gasop"):
            sp = [s for s in sp if s[1] != i]
        at["g1"].update(committable=True, start_up_cost=13.1, shut_down_cost=7.3, stand_by_cost=3.7, p_min_pu=0.31, up_time_before=0, down_time_before=1, min_up_time=2)
        at["chp"].update(committable=True, start_up_cost=3.1, shut_down_cost=1.3, stand_by_cost=0.7, p_min_pu=0.23, up_time_before=1, down_time_before=0)
    if kind == "qp":
        for i, v in (("w0", 0.11), ("g1", 0.37), ("gg", 0.05), ("chp", 0.13), ("s0", 0.17), ("eg", 0.23), ("dc", 0.29)):
            at[i]["marginal_cost_quadratic"] = v
    return sp


def pf_specs():
    """AC power flow: one meshed network with every branch and one-port type, and a second one behind a link."""
    sp = [("Carrier", "AC", {})]
    for i in range(5):
        sp.append(("Bus", f"a{i}", dict(v_nom=380.0 if i != 2 else 220.0, v_mag_pu_set=1.0 + 0.01 * i)))
    sp += [("LineType", "lt", dict(f_nom=50.0, r_per_length=0.03, x_per_length=0.3, c_per_length=11.0, i_nom=0.7)),
           ("Generator", "gs", dict(bus="a0", control="Slack", p_set=[3.1, 2.7], p_nom=20.0)),
           ("Generator", "gs2", dict(bus="a0", control="PQ", p_set=1.1, q_set=0.3, p_nom=5.0)),
           ("Generator", "gv", dict(bus="a1", control="PV", p_set=[2.3, 4.1], p_nom=10.0)),
           ("Generator", "gq", dict(bus="a2", control="PQ", p_set=[1.7, 0.9], q_set=[0.4, 0.2], p_nom=6.0)),
           ("Generator", "gr", dict(bus="a3", control="Slack", p_set=0.7, p_nom=9.0)),
           ("StorageUnit", "su", dict(bus="a2", control="PV", p_set=[0.6, -0.8], p_nom=2.0)),
           ("StorageUnit", "sq", dict(bus="a1", control="PQ", p_set=0.35, q_set=[0.15, 0.05], p_nom=2.0)),
           ("Store", "st", dict(bus="a0", p_set=[0.25, -0.45], q_set=0.05, e_nom=5.0)),
           ("Load", "d0", dict(bus="a0", p_set=2.9, q_set=0.7)), ("Load", "d1", dict(bus="a1", p_set=[3.7, 1.9], q_set=[0.5, 0.9])),
           ("Load", "d2", dict(bus="a2", p_set=[2.2, 3.1], q_set=0.6)), ("Load", "d3", dict(bus="a3", p_set=1.4, q_set=0.2)), ("Load", "d4", dict(bus="a4", p_set=[0.9, 1.2], q_set=0.1)),
           ("ShuntImpedance", "sh", dict(bus="a1", g=1e-6, b=3e-6)), ("ShuntImpedance", "si", dict(bus="a2", b=-2e-6)),
           ("Line", "l01", dict(bus0="a0", bus1="a1", x=9.1, r=1.3, b=2e-5, s_nom=10.0)), ("Line", "l10", dict(bus0="a1", bus1="a0", x=13.7, r=2.1, g=1e-6, s_nom=10.0)),
           ("Line", "lty", dict(bus0="a0", bus1="a1", type="lt", length=37.0)),
           ("Line", "l34", dict(bus0="a3", bus1="a4", x=7.3, r=1.1, s_nom=10.0)), ("Line", "l43", dict(bus0="a4", bus1="a3", x=5.9, r=0.7, s_nom=10.0)),
           ("Transformer", "t02", dict(bus0="a0", bus1="a2", x=0.13, r=0.011, s_nom=100.0, tap_ratio=1.03, phase_shift=2.0)),
           ("Transformer", "t12", dict(bus0="a2", bus1="a1", x=0.17, r=0.013, s_nom=90.0, tap_ratio=0.98, tap_side=1, model="pi", g=0.001, b=-0.002)),
           ("Link", "k", dict(bus0="a1", bus1="a3", p_set=[0.8, -0.3], efficiency=0.96, p_nom=5.0)),
           ("Link", "k2", dict(bus0="a4", bus1="a2", bus2="a0", p_set=0.4, efficiency=0.5, efficiency2=0.3, p_nom=5.0))]
    return [(c, i, dict(a)) for c, i, a in sp]


def build(specs, kind):
    """kind: lp/milp/qp/invest/pf"""
    if kind == "pf":
        return nets.bulk(nets.new(snapshots=[0, 1]), specs)
    n = nets.new(snapshots=T3)
    if kind == "invest":
        n.set_investment_periods([2020, 2030])
        n.investment_period_weightings["objective"] = [3.0, 2.0]
        n.investment_period_weightings["years"] = [10.0, 10.0]
    for k, v in WEIGHTS.items():
        n.snapshot_weightings[k] = v * (2 if kind == "invest" else 1)
    return nets.bulk(n, specs)


OUT = {"Generator": ["p", "q", "status", "start_up", "shut_down"], "Load": ["p", "q"], "StorageUnit": ["p", "q", "p_dispatch", "p_store", "state_of_charge", "spill"],
       "Store": ["p", "q", "e"], "ShuntImpedance": ["p", "q"], "Line": ["p0", "p1", "q0", "q1", "mu_lower", "mu_upper"], "Transformer": ["p0", "p1", "q0", "q1", "mu_lower", "mu_upper"],
       "Link": ["p0", "p1", "p2", "status", "start_up", "shut_down"], "Bus": ["p", "q", "v_ang", "v_mag_pu", "marginal_price"]}
OPT = {"Generator": "p_nom_opt", "StorageUnit": "p_nom_opt", "Link": "p_nom_opt", "Store": "e_nom_opt", "Line": "s_nom_opt", "Transformer": "s_nom_opt"}


def outputs(n, what, duals=True):
    r = {}
    for c, attrs in OUT.items():
        for a in attrs:
            if a.startswith("mu_") and not duals or a == "marginal_price" and not duals:
                continue
            if a in n.dynamic(c):
                df = n.dynamic(c)[a]
                for col, vals in zip(df.columns, df.values.T):
                    r[what, c, a, col] = [float(x) for x in vals]
    return r


def solve(n, kind, what="opt"):
    """Optimise and read everything back; raises if not optimal."""
    s = nets.optimize(n, multi_investment_periods=(kind == "invest"))
    if tuple(s) != ("ok", "optimal"):
        raise RuntimeError(f"not solved: {s}")
    r = {(what, "objective"): [n.objective, n.objective_constant]}
    r.update(outputs(n, what, duals=kind in ("lp", "qp", "invest")))
    r = {k: v for k, v in r.items() if k[2:3] != ("v_ang",)}       # relative to an arbitrary bus
    for c, a in OPT.items():
        for i, v in n.static(c)[a].items():
            r[what, c, a, i] = [float(v)]
    for i, v in n.global_constraints.mu.items():
        if kind != "milp":
            r[what, "GlobalConstraint", "mu", i] = [float(v)]
    return r


def stats(n, what="stats"):
    r = {}
    for s in ("energy_balance", "opex", "capex", "optimal_capacity", "curtailment", "revenue"):
        df = getattr(n.statistics, s)(groupby=["bus", "carrier"] if s != "revenue" else "bus", drop_zero=False)
        if hasattr(df, "columns"):
            df = df.stack(future_stack=True)
        for k, v in df.items():
            r[(what, s) + tuple(str(x) for x in k)] = [0.0 if math.isnan(v) else float(v)]
    return r


def topology(n, what="topo"):
    n.determine_network_topology()
    parts = {}
    for b, s in n.buses.sub_network.items():
        parts.setdefault(s, []).append(b)
    r = {(what, "parts"): sorted(sorted(p) for p in parts.values())}
    for c in ("Line", "Transformer"):
        for i, s in n.static(c).sub_network.items():
            r[what, c, i] = sorted(parts[s]) if s in parts else [""]
    return r


def factors(n, what="ptdf", bodf=False):
    """Power transfer distribution factors by names."""
    import numpy as np
    r = {}
    for s in n.sub_networks.obj:
        if len(s.buses_i()) < 2:
            continue
        s.calculate_PTDF()
        P = np.asarray(s.PTDF)
        for i, br in enumerate(s.branches_i(active_only=True)):
            for j, b in enumerate(s.buses_o):
                r[(what,) + tuple(br) + (b,)] = [float(P[i, j])]
        if bodf:
            s.calculate_BODF()
            B = np.asarray(s.BODF)
            for i, br in enumerate(s.branches_i(active_only=True)):
                for j, bs in enumerate(s.branches_i(active_only=True)):
                    r[("bodf",) + tuple(br) + tuple(bs)] = [float(B[i, j])]
    return r


def powerflow(n, bodf=False):
    r = topology(n)
    m = n.copy()
    m.lpf()
    r.update(outputs(m, "lpf"))
    r.update(factors(m, bodf=bodf))
    m = n.copy()
    m.pf(x_tol=1e-10)
    r.update(outputs(m, "pf"))
    m = n.copy()
    m.pf(x_tol=1e-10, distribute_slack=True, slack_weights="p_set")
    r.update(outputs(m, "pf-distributed"))
    return r


def specs(kind):
    return pf_specs() if kind == "pf" else opt_specs(kind)


def analyse(n, kind, bodf=False):
    if kind == "pf":
        return powerflow(n, bodf)
    r = solve(n, kind)
    if len(r) > 1:
        r.update(stats(n))
    return r


def differ(a, b, tol=2e-5, skip=lambda k: False):
    """First difference of two result dictionaries (missing series count as zero when the other side is zero)."""
    for k in sorted(set(a) | set(b), key=str):
        if skip(k):
            continue
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            z = y if x is None else x
            if all(isinstance(v, float) and (math.isnan(v) or abs(v) < 1e-6) for v in z):
                continue
            return f"{k}: only on one side: {z}"
        if len(x) != len(y):
            return f"{k}: {x} and {y}"
        for u, v in zip(x, y):
            if isinstance(u, float) and isinstance(v, float):
                if (math.isnan(u) and math.isnan(v)):
                    continue
                if not abs(u - v) <= tol * max(1.0, abs(u), abs(v)):
                    return f"{k}: {x} and {y}"
            elif u != v:
                return f"{k}: {x} and {y}"
    return None
