"""Independent power-flow reference: linear flows from scratch, admittances for the AC equations."""
import cmath
import math

ONE = ("Generator", "Load", "StorageUnit", "Store")
BR = ("Line", "Transformer")


def act(n, c, k):
    return bool(n.static(c).at[k, "active"])


def val(n, c, k, a, t):
    d = n.dynamic(c).get(a)
    return float(d.at[t, k] if d is not None and k in d.columns else n.static(c).at[k, a])


def ports(n):
    return [x[3:] for x in n.links.columns if x.startswith("bus") and x != "bus0"]


def islands(n):
    """[(buses in table order, [(component, name) of active branches])]"""
    buses = list(n.buses.index)
    par = {b: b for b in buses}

    def f(x):
        while par[x] != x:
            x = par[x]
        return x
    br = []
    for c in BR:
        s = n.static(c)
        for k in s.index:
            if act(n, c, k):
                br.append((c, k))
                par[f(s.at[k, "bus0"])] = f(s.at[k, "bus1"])
    out = {}
    for b in buses:
        out.setdefault(f(b), ([], []))[0].append(b)
    for c, k in br:
        out[f(n.static(c).at[k, "bus0"])][1].append((c, k))
    return list(out.values())


def slack(n, buses, controls):
    """(slack bus, slack generator) given the generators' control settings."""
    gens = [g for g in n.generators.index if n.generators.at[g, "bus"] in buses and act(n, "Generator", g)]
    if not gens:
        return buses[0], None
    g = next((g for g in gens if controls[g] == "Slack"), gens[0])
    return n.generators.at[g, "bus"], g


def br_z(n, c, k):
    """(r, x) per unit on 1 MVA, without tap, from the given (untyped) inputs."""
    s = n.static(c).loc[k]
    if c == "Line":
        v2 = float(n.buses.at[s["bus0"], "v_nom"]) ** 2
        return float(s["r"]) / v2, float(s["x"]) / v2
    return float(s["r"]) / float(s["s_nom"]), float(s["x"]) / float(s["s_nom"])


def lin_b(n, c, k):
    """Susceptance of the linear model and phase shift in rad."""
    s = n.static(c).loc[k]
    r, x = br_z(n, c, k)
    z = r if n.buses.at[s["bus0"], "carrier"] == "DC" else x
    if c == "Line":
        return 1.0 / z, 0.0
    return 1.0 / (z * float(s["tap_ratio"])), float(s["phase_shift"]) * math.pi / 180.0


def injections(n, t, exp, reactive=False):
    """Set-point injections per bus; fills exp with the expected one-port and link powers."""
    a = "q" if reactive else "p"
    inj = {b: 0.0 for b in n.buses.index}
    for c in ONE:
        s = n.static(c)
        for k in s.index:
            p = val(n, c, k, a + "_set", t) if act(n, c, k) else 0.0
            exp[c, a, k] = p
            if s.at[k, "bus"] in inj:
                inj[s.at[k, "bus"]] += float(s.at[k, "sign"]) * p
    if reactive:
        return inj
    for k in n.links.index:
        p0 = val(n, "Link", k, "p_set", t) if act(n, "Link", k) else 0.0
        exp["Link", "p0", k] = p0
        if n.links.at[k, "bus0"] in inj:
            inj[n.links.at[k, "bus0"]] -= p0
        for i in ports(n):
            b = n.links.at[k, "bus" + i]
            e = val(n, "Link", k, "efficiency" + ("" if i == "1" else i), t) if b else 0.0
            exp["Link", "p" + i, k] = -p0 * e if b else 0.0
            if b in inj:
                inj[b] += p0 * e
    return inj


def linear(n, t, controls):
    """Expected results of the linear power flow of snapshot t as {(component, attribute, name): value}."""
    import numpy as np
    exp = {}
    inj = injections(n, t, exp)
    for k in n.shunt_impedances.index:
        s = n.shunt_impedances.loc[k]
        p = float(s["g"]) * float(n.buses.at[s["bus"], "v_nom"]) ** 2 if s["active"] else 0.0
        exp["ShuntImpedance", "p", k] = p
        inj[s["bus"]] += float(s["sign"]) * p
    for c in BR:
        for k in n.static(c).index:
            exp[c, "p0", k] = exp[c, "p1", k] = 0.0
    for buses, br in islands(n):
        sb, sg = slack(n, buses, controls)
        ix = {b: i for i, b in enumerate(buses)}
        N = len(buses)
        A = np.zeros((N, N))
        rhs = np.array([inj[b] for b in buses])
        par = {}
        for c, k in br:
            s = n.static(c).loc[k]
            i, j = ix[s["bus0"]], ix[s["bus1"]]
            b, ph = lin_b(n, c, k)
            par[c, k] = i, j, b, ph
            A[i, i] += b
            A[j, j] += b
            A[i, j] -= b
            A[j, i] -= b
            rhs[i] += b * ph
            rhs[j] -= b * ph
        si = ix[sb]
        keep = [i for i in range(N) if i != si]
        th = np.zeros(N)
        if keep:
            th[keep] = np.linalg.solve(A[np.ix_(keep, keep)], rhs[keep])
        for (c, k), (i, j, b, ph) in par.items():
            f = b * (th[i] - th[j] - ph)
            exp[c, "p0", k], exp[c, "p1", k] = f, -f
        adj = -sum(inj[b] for b in buses)
        if sg is not None:
            exp["Generator", "p", sg] += adj * float(n.generators.at[sg, "sign"])
        dc = n.buses.at[buses[0], "carrier"] == "DC"
        for b in buses:
            exp["Bus", "p", b] = inj[b] + (adj if b == sb else 0.0)
            exp["Bus", "v_ang", b] = 0.0 if dc else th[ix[b]]
            exp["Bus", "v_mag_pu", b] = 1.0 + th[ix[b]] if dc else 1.0
    return exp


def observed(n, t, keys):
    out = {}
    for c, a, k in keys:
        d = n.dynamic(c)
        out[c, a, k] = float(d[a].at[t, k]) if a in d and k in d[a].columns else None
    return out


def admittance(n, c, k):
    """(y00, y01, y10, y11) of an active branch from its (untyped) inputs: line PI, transformer PI or T, tap on bus0 (tap_side 0) or bus1."""
    s = n.static(c).loc[k]
    r, x = br_z(n, c, k)
    z = complex(r, x)
    if c == "Line":
        v2 = float(n.buses.at[s["bus0"], "v_nom"]) ** 2
        y = complex(float(s["g"]), float(s["b"])) * v2
        t0 = t1 = 1.0
        sh = 1.0
    else:
        y = complex(float(s["g"]), float(s["b"])) * float(s["s_nom"])
        tap = float(s["tap_ratio"])
        t0, t1 = (tap, 1.0) if int(s["tap_side"]) == 0 else (1.0, tap)
        sh = cmath.exp(1j * float(s["phase_shift"]) * math.pi / 180.0)
    if c == "Transformer" and s["model"] == "t" and y != 0:
        # T: z/2 - shunt y - z/2; eliminate the middle node
        h = 2 / z
        d = 2 * h + y
        a00, a01 = h - h * h / d, -h * h / d
    else:
        a00, a01 = 1 / z + y / 2, -1 / z
    # the ideal transformer at bus0 has ratio t0 * sh : 1, at bus1 t1 : 1
    return a00 / t0 ** 2, a01 / (t0 * t1 * sh.conjugate()), a01 / (t0 * t1 * sh), a00 / t1 ** 2
