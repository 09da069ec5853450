"""Independent reference optimiser.

Reads the raw tables of a network and builds, from the documented formulas only, a plain LP/MILP that is solved by
scipy (an own call of HiGHS, not through linopy).  It offers
  ref(n, ...)        -> Ref   (variables, rows, costs)
  Ref.solve()        -> (status, objective, x)
  Ref.extract(n)     -> x     values PyPSA reported for every reference variable
  Ref.violations(x)  -> rows violated by a reported solution
  compare(n, ...)    -> full oracle used by the optimisation checks
"""
import math

NOM = {"Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom"}
INF = float("inf")


class Ref:
    def __init__(self):
        self.keys, self.idx, self.lb, self.ub, self.int = [], {}, [], [], []
        self.rows = []          # (dict, lo, hi, tag)
        self.cost, self.qcost, self.const = {}, {}, 0.0

    def var(self, key, lb=-INF, ub=INF, integer=False):
        assert key not in self.idx, key
        self.idx[key] = len(self.keys)
        self.keys.append(key)
        self.lb.append(lb)
        self.ub.append(ub)
        self.int.append(1 if integer else 0)
        return key

    def row(self, expr, lo, hi, tag):
        self.rows.append((expr, lo, hi, tag))

    def add_cost(self, key, c):
        if c:
            self.cost[key] = self.cost.get(key, 0.0) + c

    def vector(self, d):
        import numpy as np
        v = np.zeros(len(self.keys))
        for k, c in d.items():
            v[self.idx[k]] += c
        return v

    def matrix(self):
        import numpy as np
        from scipy import sparse
        r, c, v = [], [], []
        lo, hi = [], []
        for i, (e, l, h, t) in enumerate(self.rows):
            for k, co in e.items():
                r.append(i)
                c.append(self.idx[k])
                v.append(co)
            lo.append(l)
            hi.append(h)
        return sparse.csr_matrix((v, (r, c)), shape=(len(self.rows), len(self.keys))), np.array(lo), np.array(hi)

    def solve(self, cost=None, fixed=None):
        """min cost (default: linear cost) -> ("optimal"|"infeasible"|"unbounded"|other, value, x)"""
        import numpy as np
        from scipy.optimize import milp, LinearConstraint, Bounds
        assert cost is not None or not self.qcost
        c = self.vector(self.cost if cost is None else cost) if not hasattr(cost, "shape") else cost
        lb, ub = np.array(self.lb), np.array(self.ub)
        if fixed:
            for k, v in fixed.items():
                lb[self.idx[k]] = ub[self.idx[k]] = v
        A, lo, hi = self.matrix()
        cons = [LinearConstraint(A, lo, hi)] if len(self.rows) else []
        if not len(self.keys):
            return ("optimal" if all(l <= 1e-9 and h >= -1e-9 for _, l, h, _ in self.rows) else "infeasible"), self.const, np.zeros(0)
        r = milp(c, constraints=cons, bounds=Bounds(lb, ub), integrality=np.array(self.int), options=dict(mip_rel_gap=0.0, presolve=not any(self.int)))   # its MIP presolve returns wrong optima
        if r.status == 4:
            r = milp(c, constraints=cons, bounds=Bounds(lb, ub), integrality=np.array(self.int), options=dict(mip_rel_gap=0.0, presolve=False))
        st = {0: "optimal", 2: "infeasible", 3: "unbounded"}.get(r.status, f"status{r.status}:{r.message}")
        return st, (r.fun + self.const if r.x is not None else None), r.x

    def value(self, x):
        v = self.const
        for k, c in self.cost.items():
            v += c * x[self.idx[k]]
        for k, c in self.qcost.items():
            v += c * x[self.idx[k]] ** 2
        return v

    def gradient(self, x):
        g = self.vector(self.cost)
        for k, c in self.qcost.items():
            g[self.idx[k]] += 2 * c * x[self.idx[k]]
        return g

    def violations(self, x, tol=1e-4):
        """Rows and bounds a point violates (relative to the size of the row)."""
        out = []
        for k, v, l, u, i in zip(self.keys, x, self.lb, self.ub, self.int):
            s = tol * max(1.0, abs(v))
            if not (v >= l - s and v <= u + s):
                out.append((f"bound {k}", f"{k}={v} not in [{l},{u}]"))
            if i and abs(v - round(v)) > 1e-4:
                out.append((f"integer {k}", f"{k}={v} not integral"))
        for e, l, h, t in self.rows:
            a = sum(c * x[self.idx[k]] for k, c in e.items())
            s = tol * max(1.0, sum(abs(c * x[self.idx[k]]) for k, c in e.items()), abs(l) if math.isfinite(l) else 0, abs(h) if math.isfinite(h) else 0)
            if not (a >= l - s and a <= h + s):
                out.append((t, f"{t}: {a} not in [{l},{h}]"))
        return out


def val(n, c, name, attr, t=None):
    """Input value: the series takes precedence over the static value."""
    d = n.dynamic(c)
    if t is not None and attr in d and name in d[attr].columns:
        return float(d[attr].at[t, name])
    return float(n.static(c).at[name, attr])


def is_active(n, c, name, period=None):
    s = n.static(c)
    if not bool(s.at[name, "active"]):
        return False
    if period is None:
        return True
    return s.at[name, "build_year"] <= period < s.at[name, "build_year"] + s.at[name, "lifetime"]


def reactance(n, c, name, typed=False):
    """Effective per-unit impedance (x, r) of an untyped branch."""
    s = n.static(c)
    if c == "Line":
        v = n.buses.at[s.at[name, "bus0"], "v_nom"]
        return s.at[name, "x"] / v**2, s.at[name, "r"] / v**2
    tap = s.at[name, "tap_ratio"]
    return s.at[name, "x"] / s.at[name, "s_nom"] * tap, s.at[name, "r"] / s.at[name, "s_nom"] * tap


def cycles(branches):
    """Fundamental cycles of a multigraph; branches: list of (key, a, b).  Own spanning-forest construction."""
    adj, parent, seen, used = {}, {}, set(), set()
    for k, a, b in branches:
        adj.setdefault(a, []).append((k, b, 1))
        adj.setdefault(b, []).append((k, a, -1))
    order = []
    for root in adj:
        if root in seen:
            continue
        seen.add(root)
        parent[root] = None
        stack = [root]
        while stack:
            u = stack.pop(0)
            order.append(u)
            for k, w, sg in adj[u]:
                if w not in seen:
                    seen.add(w)
                    parent[w] = (u, k, sg)   # traversing k from u to w has sign sg
                    used.add(k)
                    stack.append(w)

    def to_root(u):
        path = {}
        while parent[u] is not None:
            p, k, sg = parent[u]
            path[k] = path.get(k, 0) - sg   # walking u -> p
            u = p
        return path
    out = []
    for k, a, b in branches:
        if k in used:
            continue
        cyc = {k: 1}                        # a -> b along k, then b -> root -> a
        for kk, s in to_root(b).items():
            cyc[kk] = cyc.get(kk, 0) + s
        for kk, s in to_root(a).items():
            cyc[kk] = cyc.get(kk, 0) - s
        out.append({kk: s for kk, s in cyc.items() if s})
    return out


def link_ports(n):
    ports = []
    for col in n.links.columns:
        if col.startswith("bus") and col[3:] not in ("0",) and col[3:].isdigit():
            ports.append(col[3:])
    return ports


def build(n, sns=None, multi=False, losses=0, skip=(), relaxed_uc=False, glc=True):
    """The documented optimisation problem of network n over snapshots sns."""
    import pandas as pd
    m = Ref()
    S = list(n.snapshots if sns is None else sns)
    allS = list(n.snapshots)
    first = allS.index(S[0])
    W = {w: {t: float(n.snapshot_weightings.at[t, w]) for t in S} for w in ("objective", "stores", "generators")}
    per = {t: (t[0] if multi else None) for t in S}
    periods = []
    for t in S:
        if per[t] not in periods:
            periods.append(per[t])
    PW = {p: (float(n.investment_period_weightings.at[p, "objective"]) if multi else 1.0) for p in periods}
    PY = {p: (float(n.investment_period_weightings.at[p, "years"]) if multi else 1.0) for p in periods}
    wobj = {t: W["objective"][t] * PW[per[t]] for t in S}
    bal = {(b, t): [{}, 0.0] for b in n.buses.index for t in S}

    def put(b, t, key, co):
        if co:
            e = bal[b, t][0]
            e[key] = e.get(key, 0.0) + co
        else:
            bal[b, t][0].setdefault(key, 0.0)

    def act(c, g, t):
        return is_active(n, c, g, per[t])

    # ---- capacities
    ext = {}
    for c, a in NOM.items():
        s = n.static(c)
        for g in s.index:
            ext[c, g] = bool(s.at[g, a + "_extendable"])
            if not ext[c, g]:
                continue
            k = m.var((c, "nom", g), s.at[g, a + "_min"], s.at[g, a + "_max"])
            mod = s.at[g, a + "_mod"]
            if mod > 0:
                z = m.var((c, "n_mod", g), 0, INF, True)
                m.row({k: 1.0, z: -mod}, 0, 0, f"modular:{c}:{g}")
            if a + "_set" in s.columns and not pd.isna(s.at[g, a + "_set"]):
                v = float(s.at[g, a + "_set"])
                m.row({k: 1.0}, v, v, f"nom_set:{c}:{g}")
            w = sum(PW[p] for p in periods if is_active(n, c, g, p))
            m.add_cost(k, w * s.at[g, "capital_cost"])

    def lim(c, g, key, factor_lo, factor_hi, tag, t):
        """factor_lo*nom <= key <= factor_hi*nom"""
        a = NOM[c]
        if ext[c, g]:
            nk = (c, "nom", g)
            m.row({key: 1.0, nk: -factor_lo}, 0, INF, f"{tag}-lower:{c}:{g}:{t}")
            m.row({key: 1.0, nk: -factor_hi}, -INF, 0, f"{tag}-upper:{c}:{g}:{t}")
        else:
            nom = float(n.static(c).at[g, a])
            m.row({key: 1.0}, factor_lo * nom, factor_hi * nom, f"{tag}:{c}:{g}:{t}")

    def fixed(c, attr, g, key, t):
        d = n.dynamic(c)
        if attr in d and g in d[attr].columns and not pd.isna(d[attr].at[t, g]):
            v = float(d[attr].at[t, g])
            m.row({key: 1.0}, v, v, f"{attr}:{c}:{g}:{t}")

    # ---- generators and links
    for c in ("Generator", "Link"):
        s = n.static(c)
        out = "p" if c == "Generator" else "p0"
        for g in s.index:
            com = bool(s.at[g, "committable"]) and not ext[c, g]
            nom = float(s.at[g, "p_nom"])
            if bool(s.at[g, "committable"]) and ext[c, g]:
                raise AssertionError("committable and extendable is outside the specification")
            A = [t for t in S if act(c, g, t)]
            for t in A:
                key = m.var((c, "p", g, t))
                m.add_cost(key, wobj[t] * val(n, c, g, "marginal_cost", t))
                q = wobj[t] * val(n, c, g, "marginal_cost_quadratic", t)
                if q:
                    m.qcost[key] = q
                lo, hi = val(n, c, g, "p_min_pu", t), val(n, c, g, "p_max_pu", t)
                if com:
                    u = m.var((c, "status", g, t), 0, 1, not relaxed_uc)
                    v = m.var((c, "start_up", g, t), 0, 1, not relaxed_uc)
                    w = m.var((c, "shut_down", g, t), 0, 1, not relaxed_uc)
                    m.row({key: 1.0, u: -lo * nom}, 0, INF, f"com-lower:{c}:{g}:{t}")
                    m.row({key: 1.0, u: -hi * nom}, -INF, 0, f"com-upper:{c}:{g}:{t}")
                    m.add_cost(u, wobj[t] * val(n, c, g, "stand_by_cost", t))
                    m.add_cost(v, float(s.at[g, "start_up_cost"]))
                    m.add_cost(w, float(s.at[g, "shut_down_cost"]))
                else:
                    lim(c, g, key, lo, hi, "p", t)
                fixed(c, "p_set", g, key, t)
                if c == "Generator":
                    put(s.at[g, "bus"], t, key, float(s.at[g, "sign"]))
                else:
                    put(s.at[g, "bus0"], t, key, -1.0)
                    for i in link_ports(n):
                        b = s.at[g, "bus" + i]
                        if isinstance(b, str) and b:
                            put(b, t, key, val(n, c, g, "efficiency" + ("" if i == "1" else i), t))
            if com:
                unit_commitment(n, m, c, g, S, A, allS, first)
            ramps(n, m, c, g, S, act, allS, first, com, ext[c, g], out)

        if c == "Generator":
            for g in s.index:
                e = {(c, "p", g, t): W["generators"][t] for t in S if act(c, g, t)}
                if e and (s.at[g, "e_sum_min"] > -INF or s.at[g, "e_sum_max"] < INF):
                    m.row(e, s.at[g, "e_sum_min"], s.at[g, "e_sum_max"], f"e_sum:{g}")

    # ---- loads
    for l in n.loads.index:
        if not bool(n.loads.at[l, "active"]):
            continue
        for t in S:
            bal[n.loads.at[l, "bus"], t][1] += float(n.loads.at[l, "sign"]) * val(n, "Load", l, "p_set", t)

    # ---- storage
    c, s = "StorageUnit", n.storage_units
    for g in s.index:
        mh = float(s.at[g, "max_hours"])
        A = [t for t in S if act(c, g, t)]
        for t in A:
            d = m.var((c, "p_dispatch", g, t))
            st = m.var((c, "p_store", g, t))
            e = m.var((c, "soc", g, t))
            lim(c, g, d, 0.0, val(n, c, g, "p_max_pu", t), "p_dispatch", t)
            lim(c, g, st, 0.0, -val(n, c, g, "p_min_pu", t), "p_store", t)
            lim(c, g, e, 0.0, mh, "soc", t)
            inflow = val(n, c, g, "inflow", t)
            if inflow > 0:
                sp = m.var((c, "spill", g, t), 0, inflow)
                m.add_cost(sp, wobj[t] * val(n, c, g, "spill_cost", t))
            m.add_cost(d, wobj[t] * val(n, c, g, "marginal_cost", t))
            q = wobj[t] * val(n, c, g, "marginal_cost_quadratic", t)
            if q:
                m.qcost[d] = q
            m.add_cost(e, wobj[t] * val(n, c, g, "marginal_cost_storage", t))
            fixed(c, "p_dispatch_set", g, d, t)
            fixed(c, "p_store_set", g, st, t)
            fixed(c, "state_of_charge_set", g, e, t)
            put(s.at[g, "bus"], t, d, float(s.at[g, "sign"]))
            put(s.at[g, "bus"], t, st, -float(s.at[g, "sign"]))
        for t, prev in previous(A, multi, bool(s.at[g, "cyclic_state_of_charge"]), bool(s.at[g, "cyclic_state_of_charge_per_period"]),
                                bool(s.at[g, "state_of_charge_initial_per_period"]), isinstance(n.snapshots, pd.MultiIndex)):
            eh = W["stores"][t]
            e = {(c, "soc", g, t): 1.0, (c, "p_store", g, t): -eh * val(n, c, g, "efficiency_store", t),
                 (c, "p_dispatch", g, t): eh / val(n, c, g, "efficiency_dispatch", t)}
            if (c, "spill", g, t) in m.idx:
                e[c, "spill", g, t] = eh
            rhs = eh * val(n, c, g, "inflow", t)
            stand = (1 - val(n, c, g, "standing_loss", t)) ** eh
            if prev is None:
                rhs += float(s.at[g, "state_of_charge_initial"]) * stand
            else:
                k = (c, "soc", g, prev)
                e[k] = e.get(k, 0.0) - stand
            m.row(e, rhs, rhs, f"energy_balance:{c}:{g}:{t}")
    c, s = "Store", n.stores
    for g in s.index:
        A = [t for t in S if act(c, g, t)]
        for t in A:
            p = m.var((c, "p", g, t))
            e = m.var((c, "e", g, t))
            lim(c, g, e, val(n, c, g, "e_min_pu", t), val(n, c, g, "e_max_pu", t), "e", t)
            m.add_cost(p, wobj[t] * val(n, c, g, "marginal_cost", t))
            q = wobj[t] * val(n, c, g, "marginal_cost_quadratic", t)
            if q:
                m.qcost[p] = q
            m.add_cost(e, wobj[t] * val(n, c, g, "marginal_cost_storage", t))
            fixed(c, "e_set", g, e, t)
            put(s.at[g, "bus"], t, p, float(s.at[g, "sign"]))
        for t, prev in previous(A, multi, bool(s.at[g, "e_cyclic"]), bool(s.at[g, "e_cyclic_per_period"]),
                                bool(s.at[g, "e_initial_per_period"]), isinstance(n.snapshots, pd.MultiIndex)):
            eh = W["stores"][t]
            e = {(c, "e", g, t): 1.0, (c, "p", g, t): eh}
            rhs = 0.0
            if prev is None:
                rhs += float(s.at[g, "e_initial"]) * (1 - val(n, c, g, "standing_loss", t)) ** eh
            else:
                k = (c, "e", g, prev)
                e[k] = e.get(k, 0.0) - (1 - val(n, c, g, "standing_loss", t)) ** eh
            m.row(e, rhs, rhs, f"energy_balance:{c}:{g}:{t}")

    # ---- passive branches
    for c in ("Line", "Transformer"):
        s = n.static(c)
        for g in s.index:
            for t in S:
                if not act(c, g, t):
                    continue
                k = m.var((c, "s", g, t))
                smax = val(n, c, g, "s_max_pu", t)
                put(s.at[g, "bus0"], t, k, -1.0)
                put(s.at[g, "bus1"], t, k, 1.0)
                fixed(c, "s_set", g, k, t)
                if not losses:
                    lim(c, g, k, -smax, smax, "s", t)
                    continue
                r = float(branch_r(n, c, g))
                top = float(s.at[g, "s_nom_max"] if ext[c, g] else s.at[g, "s_nom"])
                lo = m.var((c, "loss", g, t), 0, r * (smax * top) ** 2)
                put(s.at[g, "bus0"], t, lo, -0.5)
                put(s.at[g, "bus1"], t, lo, -0.5)
                cap = {(c, "nom", g): -smax} if ext[c, g] else {}
                rhs = 0.0 if ext[c, g] else smax * float(s.at[g, "s_nom"])
                m.row({k: 1.0, lo: 1.0, **cap}, -INF, rhs, f"s-upper:{c}:{g}:{t}")
                m.row({k: -1.0, lo: 1.0, **cap}, -INF, rhs, f"s-lower:{c}:{g}:{t}")
                for i in range(1, losses + 1):
                    pk = i / losses * smax * top
                    for sg in (1, -1):
                        m.row({lo: 1.0, k: -sg * 2 * r * pk}, -r * pk * pk, INF, f"tangent{i}:{c}:{g}:{t}")
    if "kvl" not in skip:
        for t in S:
            for carrier_x, members in groups(n, t, act):
                for cyc in cycles(members):
                    e = {}
                    for (c, g), sg in cyc.items():
                        x = branch_x(n, c, g, carrier_x)
                        e[c, "s", g, t] = sg * x
                    sc = max(abs(v) for v in e.values())
                    m.row({k: v / sc for k, v in e.items()}, 0, 0, f"KVL:{t}:{sorted(cyc)}")
    # ---- balance
    for (b, t), (e, rhs) in bal.items():
        # sum of injections + sign*p_set = 0, loads have sign -1
        m.row(e, -rhs, -rhs, f"balance:{b}:{t}")
    m.const = 0.0
    m.S, m.W, m.per, m.periods, m.PW, m.PY, m.multi, m.ext, m.losses = S, W, per, periods, PW, PY, multi, ext, losses
    m.wobj = wobj
    if glc:
        global_constraints(n, m)
    return m


def branch_x(n, c, g, carrier):
    x, r = reactance(n, c, g)
    return r if carrier == "DC" else x


def branch_r(n, c, g):
    return reactance(n, c, g)[1]


def groups(n, t, act):
    """Connected components of active passive branches with the carrier of their buses."""
    br = [((c, g), n.static(c).at[g, "bus0"], n.static(c).at[g, "bus1"]) for c in ("Line", "Transformer") for g in n.static(c).index if act(c, g, t)]
    comp = {b: {b} for b in n.buses.index}
    for _, a, b in br:
        if comp[a] is not comp[b]:
            u = comp[a] | comp[b]
            for x in u:
                comp[x] = u
    seen = []
    for b in n.buses.index:
        if any(comp[b] is s for s in seen):
            continue
        seen.append(comp[b])
        mem = [e for e in br if e[1] in comp[b]]
        if mem:
            yield n.buses.at[b, "carrier"], mem


def previous(A, multi, cyclic, cyc_pp, ini_pp, multiindex):
    """For every active snapshot: the snapshot its level continues from, None = initial level."""
    out = []
    for i, t in enumerate(A):
        if multiindex and (cyc_pp if cyclic else ini_pp):
            grp = [x for x in A if x[0] == t[0]]
            j = grp.index(t)
            prev = grp[j - 1] if j else (grp[-1] if cyclic else None)
        else:
            prev = A[i - 1] if i else (A[-1] if cyclic else None)
        out.append((t, prev))
    return out


def unit_commitment(n, m, c, g, S, A, allS, first, state=None):
    s = n.static(c)
    assert A == S, "inactive committables are outside the specification"
    UT, DT = int(s.at[g, "min_up_time"]), int(s.at[g, "min_down_time"])
    up, down = int(s.at[g, "up_time_before"]), int(s.at[g, "down_time_before"])
    if first > 0:      # statuses before the window are those of previous simulations
        up = down = 0
        st = n.dynamic(c)["status"]      # nothing known about earlier snapshots: neither on nor bound to stay off
        hist = [int(round(float(st.at[t, g]))) for t in allS[:first]][::-1] if g in st.columns else [None]
        for h in hist:
            if h is None:
                break
            if h != hist[0]:
                break
            if h:
                up += 1
            else:
                down += 1
        else:
            if hist[0]:      # very close to the start: take the time before the snapshots into account as well
                up += int(s.at[g, "up_time_before"])
            elif int(s.at[g, "up_time_before"]) == 0:
                down += int(s.at[g, "down_time_before"])
    u0 = 1 if up > 0 else 0
    for i, t in enumerate(S):
        u, v, w = (c, "status", g, t), (c, "start_up", g, t), (c, "shut_down", g, t)
        if i == 0:
            m.row({v: 1.0, u: -1.0}, -u0, INF, f"start:{c}:{g}:{t}")
            m.row({w: 1.0, u: 1.0}, u0, INF, f"stop:{c}:{g}:{t}")
        else:
            pu = (c, "status", g, S[i - 1])
            m.row({v: 1.0, u: -1.0, pu: 1.0}, 0, INF, f"start:{c}:{g}:{t}")
            m.row({w: 1.0, u: 1.0, pu: -1.0}, 0, INF, f"stop:{c}:{g}:{t}")
        # if it starts (stops) at t it stays on (off) for the next UT (DT) snapshots within the window
        prev = {} if i == 0 else {(c, "status", g, S[i - 1]): 1.0}
        for j in range(i + 1, min(i + UT, len(S))):
            uj = (c, "status", g, S[j])
            # u_j >= u_i - u_{i-1}
            e = {uj: 1.0, u: -1.0}
            for k, x in prev.items():
                e[k] = e.get(k, 0) + x
            m.row(e, -u0 if i == 0 else 0, INF, f"min_up:{c}:{g}:{t}")
        for j in range(i + 1, min(i + DT, len(S))):
            uj = (c, "status", g, S[j])
            # 1 - u_j >= u_{i-1} - u_i
            e = {uj: -1.0, u: 1.0}
            for k, x in prev.items():
                e[k] = e.get(k, 0) - x
            m.row(e, -1 + u0 if i == 0 else -1, INF, f"min_down:{c}:{g}:{t}")
        if u0 and i < UT - up:
            m.row({u: 1.0}, 1, 1, f"must_stay_up:{c}:{g}:{t}")
        if not u0 and down > 0 and i < DT - down:
            m.row({u: 1.0}, 0, 0, f"must_stay_down:{c}:{g}:{t}")


def ramps(n, m, c, g, S, act, allS, first, com, ext, out):
    s = n.static(c)
    nom = float(s.at[g, "p_nom"])
    for i, t in enumerate(S):
        if not act(c, g, t):
            continue
        ru, rd = val(n, c, g, "ramp_limit_up", t), val(n, c, g, "ramp_limit_down", t)
        rs, rq = float(s.at[g, "ramp_limit_start_up"]), float(s.at[g, "ramp_limit_shut_down"])
        key = (c, "p", g, t)
        e, const, u_prev = {key: 1.0}, 0.0, None
        if i == 0:
            if first == 0:
                continue
            tp = allS[first - 1]
            if out not in n.dynamic(c) or g not in n.dynamic(c)[out].columns:
                continue
            const = float(n.dynamic(c)[out].at[tp, g])
            u_prev = float(n.dynamic(c)["status"].at[tp, g]) if com else None
        else:
            tp = S[i - 1]
            if not act(c, g, tp):
                continue
            e[c, "p", g, tp] = -1.0
        if not com:
            if not math.isnan(ru):
                ee = dict(e)
                if ext:
                    ee[c, "nom", g] = -ru
                m.row(ee, -INF, const + (0 if ext else ru * nom), f"ramp_up:{c}:{g}:{t}")
            if not math.isnan(rd):
                ee = dict(e)
                if ext:
                    ee[c, "nom", g] = rd
                m.row(ee, const - (0 if ext else rd * nom), INF, f"ramp_down:{c}:{g}:{t}")
            continue
        u = (c, "status", g, t)
        pu = (c, "status", g, tp)
        ramp_nan_up, ramp_nan_down = math.isnan(ru), math.isnan(rd)
        if not (ramp_nan_up and rs == 1):
            ru = 1.0 if ramp_nan_up else ru
            ee = dict(e)
            ee[u] = ee.get(u, 0) - rs * nom
            hi = const
            if u_prev is None:
                ee[pu] = ee.get(pu, 0) + (rs - ru) * nom
            else:
                hi += (ru - rs) * nom * u_prev
            m.row(ee, -INF, hi, f"ramp_up:{c}:{g}:{t}")
        if not (ramp_nan_down and rq == 1):
            rd = 1.0 if ramp_nan_down else rd
            ee = dict(e)
            ee[u] = ee.get(u, 0) + (rd - rq) * nom
            lo = const
            if u_prev is None:
                ee[pu] = ee.get(pu, 0) + rq * nom
            else:
                lo -= rq * nom * u_prev
            m.row(ee, lo, INF, f"ramp_down:{c}:{g}:{t}")


# ---------------------------------------------------------------- global constraints
def global_terms(n, m, name):
    """(expr, constant moved to rhs, applicable) of one row of n.global_constraints."""
    gc = n.global_constraints
    typ, attr = gc.at[name, "type"], gc.at[name, "carrier_attribute"]
    period = gc.at[name, "investment_period"]
    period = None if math.isnan(period) else int(period)
    const = float(gc.at[name, "constant"])
    e = {}

    def add(k, v):
        if v:
            e[k] = e.get(k, 0.0) + v
    if period is not None and m.multi and period not in m.periods:
        return None
    S = [t for t in m.S if period is None or t[0] == period]
    if typ in ("primary_energy", "operational_limit"):
        em = {c: 1.0 for c in [attr]} if typ == "operational_limit" else {c: float(v) for c, v in n.carriers[attr].items() if v}
        for g in n.generators.index:
            car = n.generators.at[g, "carrier"]
            if car not in em:
                continue
            for t in S:
                if ("Generator", "p", g, t) in m.idx:
                    eff = val(n, "Generator", g, "efficiency", t) if typ == "primary_energy" else 1.0
                    add(("Generator", "p", g, t), em[car] / eff * m.W["generators"][t] * m.PY[m.per[t]])
        for c, lvl, cyc, ini in (("StorageUnit", "soc", "cyclic_state_of_charge", "state_of_charge_initial"), ("Store", "e", "e_cyclic", "e_initial")):
            st = n.static(c)
            for g in st.index:
                car = st.at[g, "carrier"]
                if car not in em or bool(st.at[g, cyc]):
                    continue
                last = [t for t in S if (c, lvl, g, t) in m.idx]
                const -= em[car] * float(st.at[g, ini])
                if last:
                    add((c, lvl, g, last[-1]), -em[car])
    elif typ in ("transmission_volume_expansion_limit", "transmission_expansion_cost_limit"):
        cars = [x.strip().strip("[]()") for x in attr.split(",")]
        for c in ("Line", "Link"):
            st = n.static(c)
            for g in st.index:
                if not m.ext[c, g] or st.at[g, "carrier"] not in cars:
                    continue
                ps = [p for p in (m.periods if period is None else [period]) if is_active(n, c, g, p)]
                if m.multi and not ps:
                    continue
                if typ == "transmission_volume_expansion_limit":
                    add((c, "nom", g), float(st.at[g, "length"]))
                else:
                    w = sum(m.PW[p] for p in ps) if (m.multi and period is None) else 1.0
                    add((c, "nom", g), float(st.at[g, "capital_cost"]) * w)
    elif typ == "tech_capacity_expansion_limit":
        bus = gc.at[name, "bus"] if "bus" in gc.columns else None
        bus = bus if isinstance(bus, str) and bus else None
        for c in NOM:
            st = n.static(c)
            if "carrier" not in st:
                continue
            for g in st.index:
                if not m.ext[c, g] or st.at[g, "carrier"] != attr:
                    continue
                if period is not None and not is_active(n, c, g, period):
                    continue
                b = st.at[g, "bus0" if "bus0" in st else "bus"]
                if bus is not None and b != bus:
                    continue
                add((c, "nom", g), 1.0)
    else:
        raise AssertionError(typ)
    return e, const


def global_constraints(n, m):
    gc = n.global_constraints
    for name in gc.index:
        r = global_terms(n, m, name)
        if r is None:
            continue
        e, const = r
        if not e:
            continue
        sense = gc.at[name, "sense"]
        m.row(e, const if sense in ("==", ">=") else -INF, const if sense in ("==", "<=") else INF, f"global:{name}")
    for col in n.buses.columns:
        if not (col.startswith("nom_min_") or col.startswith("nom_max_")):
            continue
        rem = col[8:]
        period = None
        if rem not in n.carriers.index:
            if not m.multi:
                continue
            rem, p = rem.rsplit("_", 1)
            period = int(p)
        for b in n.buses.index:
            v = n.buses.at[b, col]
            if v != v:
                continue
            e = {}
            for c in ("Generator", "StorageUnit", "Store"):
                st = n.static(c)
                for g in st.index:
                    if m.ext[c, g] and st.at[g, "carrier"] == rem and st.at[g, "bus"] == b and (period is None or is_active(n, c, g, period)):
                        e[c, "nom", g] = 1.0
            if e:
                m.row(e, v if col.startswith("nom_min_") else -INF, v if col.startswith("nom_max_") else INF, f"{col}:{b}")
    if m.multi:
        for car in n.carriers.index:
            mg, rel = float(n.carriers.at[car, "max_growth"]), max(0.0, float(n.carriers.at[car, "max_relative_growth"]))
            if math.isinf(mg):
                continue
            new = {p: {} for p in m.periods}
            for c in NOM:
                st = n.static(c)
                if "carrier" not in st:
                    continue
                for g in st.index:
                    if m.ext[c, g] and st.at[g, "carrier"] == car:
                        ps = [p for p in m.periods if is_active(n, c, g, p)]
                        if ps:
                            new[ps[0]][c, "nom", g] = 1.0
            for i, p in enumerate(m.periods):
                e = dict(new[p])
                if i and rel:
                    for k in new[m.periods[i - 1]]:
                        e[k] = e.get(k, 0.0) - rel
                if e:
                    m.row(e, -INF, mg, f"growth:{car}:{p}")


# ---------------------------------------------------------------- comparison with the implementation
def extract(n, m):
    """Reported value of every reference variable (nan if not reported)."""
    import numpy as np
    x = np.full(len(m.keys), np.nan)
    T = {"p": "p", "status": "status", "start_up": "start_up", "shut_down": "shut_down", "p_dispatch": "p_dispatch", "p_store": "p_store",
         "soc": "state_of_charge", "spill": "spill", "e": "e"}
    for i, k in enumerate(m.keys):
        c, kind, g = k[:3]
        st, dy = n.static(c), n.dynamic(c)
        if kind == "nom":
            x[i] = st.at[g, NOM[c] + "_opt"]
        elif kind == "n_mod":
            x[i] = st.at[g, NOM[c] + "_opt"] / st.at[g, NOM[c] + "_mod"]
        else:
            t = k[3]
            if c in ("Line", "Transformer"):
                p0, p1 = dy["p0"].at[t, g], dy["p1"].at[t, g]
                x[i] = (p0 - p1) / 2 if kind == "s" else p0 + p1
            else:
                col = "p0" if (c == "Link" and kind == "p") else T[kind]
                x[i] = dy[col].at[t, g] if col in dy and g in dy[col].columns else np.nan
    return x


def compare(n, r, status, prefix="", sns=None, multi=False, losses=0, model=None, tol=1e-4, objective=True, **kw):
    """Judge a solved network n (status as returned by optimize) against the reference; reports into Result r."""
    m = model if model is not None else build(n, sns=sns, multi=multi, losses=losses, **kw)
    r.traces += 1
    ok = status[0] == "ok" and status[1] == "optimal"
    if m.qcost:
        st, _, _ = m.solve(cost={})
        if st == "optimal" and not ok:
            r.bad(prefix + "status", f"feasible convex problem reported {status}")
            return None
        if st == "infeasible" and ok:
            r.bad(prefix + "status", f"infeasible problem reported {status}")
            return None
        if not ok:
            r.outcome(list(status))
            return None
        best = None
    else:
        st, best, xr = m.solve()
        if st not in ("optimal", "infeasible", "unbounded"):
            raise RuntimeError(f"reference solver: {st}")
        if (st == "optimal") != ok:
            r.bad(prefix + "status", f"reference problem is {st} ({best}), optimize returned {status}")
            return None
        if not ok:
            r.outcome(list(status))
            return None
    x = extract(n, m)
    bad = [m.keys[i] for i, v in enumerate(x) if v != v]
    if bad:
        r.bad(prefix + "missing", f"no value reported for {bad[:5]}")
        return None
    v = m.violations(x, tol)
    if v:
        r.bad(prefix + "infeasible:" + v[0][0].split(":")[0], f"reported solution violates {len(v)} documented conditions: " + "; ".join(b for _, b in v[:4]))
    mine = m.value(x)
    if m.qcost:
        g = m.gradient(x)
        st, lo, xl = m.solve(cost=g)
        lo -= m.const
        here = float(g @ x)
        if st != "optimal" or here - lo > 2e-3 * max(1.0, abs(here), abs(mine)):
            r.bad(prefix + "suboptimal", f"quadratic problem: linearised cost at the reported point {here}, minimum {lo} ({st})")
        best = mine
    elif abs(mine - best) > tol * max(1.0, abs(best)):
        r.bad(prefix + "suboptimal", f"cost of the reported solution {mine}, minimum {best}")
    if objective:
        tot = n.objective + getattr(n, "objective_constant", 0.0)
        t2 = 2e-3 if m.qcost else tol
        if abs(tot - best) > t2 * max(1.0, abs(best)):
            r.bad(prefix + "objective", f"objective + constant = {tot}, minimum of the documented total {best}")
    r.outcome([round(float(best), 3)])
    return m, x, best
