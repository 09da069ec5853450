"""C10: electrical parameters = documented formulas of types and nominal values."""
import csv
import itertools
import math
import os
from mc import core, nets

ID = "C10"
HS = [0]
TECHNIQUE = "exhaustive enumeration of all standard and custom types x lengths x parallel systems x tap positions x nominal voltages, and of all edit histories up to a depth with a recalculation after every prefix, on the real code against an independent evaluation of the documented formulas"
RULE = "after every step of a history each documented output parameter of each line, transformer and shunt equals the formula evaluated on the inputs of that moment; a repeated calculation changes nothing; an undefined type is refused"
ASSUMPTIONS = ["the standard type tables in pypsa/data are correct; they are read with an independent reader", "x_pu_eff of a transformer in the T model is the series reactance before the conversion to the PI model, times the tap ratio"]
LEN = [0.0, 0.001, 1.0, 12.5, 300.0]
PAR = [0.5, 1.0, 2.0, 3.75]
V = [0.4, 20.0, 380.0]
LOUT = ["x_pu", "r_pu", "b_pu", "g_pu", "x_pu_eff", "r_pu_eff"]


def BOUNDS(tier):
    return (f"all standard line types x {len(LEN)} lengths x {len(PAR)} parallel counts x {len(V)} voltages, all standard transformer types x tap positions -3..3 x {len(PAR)} parallel counts x both models, "
            "custom types (frequency, tap side 0/1, tap neutral, no-load current below the iron losses, phase shift), untyped components with all sign/zero patterns of r, x, g, b x tap ratio x side x model, shunts; "
            f"histories: all sequences of {2 if tier == 'quick' else 3} of {len(EDITS)} edits on a mixed network, recalculated by the direct call, power flows and the optimisation")


def table(kind):
    d = os.path.join(os.path.dirname(nets.pypsa.__file__), "data", "standard_types", kind + ".csv")
    with open(d, newline="") as f:
        return {row["name"]: row for row in csv.DictReader(f)}


def fl(x):
    return float(x) if x not in ("", None) else 0.0


def line(row, types, vnom):
    """row: inputs before the calculation."""
    r, x, b, g = row["r"], row["x"], row["b"], row["g"]
    if row["type"]:
        t = types[row["type"]]
        ln, k = row["length"], row["num_parallel"]
        r, x = (fl(t[a + "_per_length"]) * ln / k for a in "rx")
        b = 2 * math.pi * fl(t["f_nom"]) * fl(t["c_per_length"]) * 1e-9 * ln * k
    z = vnom * vnom
    return dict(r=r, x=x, b=b, g=g, x_pu=x / z, r_pu=r / z, b_pu=b * z, g_pu=g * z, x_pu_eff=x / z, r_pu_eff=r / z)


def trafo(row, types):
    r, x, b, g, s, tap, side, ph = (row[a] for a in ("r", "x", "b", "g", "s_nom", "tap_ratio", "tap_side", "phase_shift"))
    if row["type"]:
        t = {k: (v if k in ("name", "references") else fl(v)) for k, v in types[row["type"]].items()}
        k, s = row["num_parallel"], t["s_nom"]
        r = t["vscr"] / 100
        x = math.sqrt((t["vsc"] / 100) ** 2 - r * r) / k
        g = t["pfe"] / (1000 * s)
        b = -math.sqrt(max((t["i0"] / 100) ** 2 - g * g, 0.0)) * k
        g *= k
        r /= k
        tap, side, ph = 1 + (row["tap_position"] - t["tap_neutral"]) * t["tap_step"] / 100, int(t["tap_side"]), t["phase_shift"]
    o = dict(r=r, x=x, b=b, g=g, s_nom=s, tap_ratio=tap, tap_side=side, phase_shift=ph, x_pu_eff=x / s * tap, r_pu_eff=r / s * tap)
    z, y = complex(r, x) / s, complex(g, b) * s
    if row["model"] == "t" and y != 0:
        # two-port of half series, shunt, half series; read the PI off its chain matrix
        h = z / 2
        B = h + h + h * h * y  # = PI series impedance
        z, y = B, 2 * (h * y) / B  # chain parameter A = 1 + h y
    return dict(o, x_pu=z.imag, r_pu=z.real, g_pu=y.real, b_pu=y.imag)


LIN = ["type", "r", "x", "b", "g", "length", "num_parallel"]
TIN = ["type", "r", "x", "b", "g", "s_nom", "tap_ratio", "tap_side", "tap_position", "phase_shift", "num_parallel", "model"]


def inputs(n):
    d = {("Line", k): {a: n.lines.at[k, a] for a in LIN} | dict(v=float(n.buses.at[n.lines.at[k, "bus0"], "v_nom"])) for k in n.lines.index}
    d |= {("Transformer", k): {a: n.transformers.at[k, a] for a in TIN} for k in n.transformers.index}
    d |= {("ShuntImpedance", k): dict(g=n.shunt_impedances.at[k, "g"], b=n.shunt_impedances.at[k, "b"], v=float(n.buses.at[n.shunt_impedances.at[k, "bus"], "v_nom"])) for k in n.shunt_impedances.index}
    return d


def expected(inp, lt, tt):
    out = {}
    for (c, k), row in inp.items():
        if c == "Line":
            out[c, k] = line(row, lt, row["v"])
        elif c == "Transformer":
            out[c, k] = trafo(row, tt)
        else:
            out[c, k] = dict(g_pu=row["g"] * row["v"] ** 2, b_pu=row["b"] * row["v"] ** 2)
    return out


def close(a, b):
    return a == b or abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-14


def compare(r, n, exp, key, what):
    nb = 0
    for (c, k), d in exp.items():
        df = n.static(c)
        for a, v in d.items():
            got = df.at[k, a] if a in df.columns else None
            r.transitions += 1
            if got is None or not close(float(got), float(v)):
                nb += 1
                if nb <= 4:
                    r.bad(key, f"{what}: {c} {k} {a} = {got}, formula gives {v}")
    return nb


def types_of(n, custom):
    lt, tt = table("line_types"), table("transformer_types")
    for c, k, d in custom:
        (lt if c == "LineType" else tt)[k] = dict(f_nom=50.0) | d if c == "LineType" else dict({a: 0.0 for a in ("s_nom", "vsc", "vscr", "pfe", "i0", "phase_shift", "tap_side", "tap_neutral", "tap_step")}) | d
    return lt, tt


CUSTOM = [["LineType", "c50", dict(r_per_length=0.1, x_per_length=0.3, c_per_length=9.0)], ["LineType", "c60", dict(f_nom=60.0, r_per_length=0.2, x_per_length=0.25, c_per_length=11.0)], ["LineType", "c16", dict(f_nom=16.7, r_per_length=0.05, x_per_length=0.02, c_per_length=0.0)], ["LineType", "c00", dict(r_per_length=0.05, x_per_length=0.0, c_per_length=0.0)],
          ["TransformerType", "t0", dict(s_nom=40.0, v_nom_0=110.0, v_nom_1=20.0, vsc=12.0, vscr=0.5, pfe=20.0, i0=0.1, phase_shift=150.0, tap_side=1, tap_neutral=2, tap_step=1.5)],
          ["TransformerType", "t1", dict(s_nom=0.25, v_nom_0=20.0, v_nom_1=0.4, vsc=6.0, vscr=5.0, pfe=1.0, i0=0.01, phase_shift=-30.0, tap_side=0, tap_neutral=-1, tap_step=2.5)],
          ["TransformerType", "t3", dict(s_nom=0.25, v_nom_0=20.0, v_nom_1=0.4, vsc=6.0, vscr=6.0, pfe=1.0, i0=0.01, phase_shift=-30.0, tap_side=0, tap_neutral=-1, tap_step=2.5)],
          ["TransformerType", "t2", dict(s_nom=100.0, v_nom_0=380.0, v_nom_1=110.0, vsc=14.0, vscr=0.0, pfe=0.0, i0=0.0, phase_shift=0.0, tap_side=1, tap_neutral=0, tap_step=0.0)]]


def add_types(n, custom):
    for c, k, d in custom:
        n.add(c, k, **d)


def cases(tier):
    yield dict(k="missing")
    for v in range(len(V)):
        yield dict(k="lines", v=v)
    for model in "t", "pi":
        yield dict(k="trafos", model=model)
        yield dict(k="untyped", model=model)
    yield dict(k="plain")
    d = 2 if tier == "quick" else 3
    for i, e in enumerate(EDITS):
        for trig in range(len(TRIG)) if tier != "quick" else (i % len(TRIG),):
            yield dict(k="hist", first=e, depth=d, trig=trig)


EDITS = ["none", "length", "parallel", "tap", "v_nom", "type", "untype", "retype", "x", "g", "s_nom", "model", "typevalue", "remove", "add", "tapside", "bus0", "swap"]
TRIG = ["direct", "lpf", "pf", "direct2", "optimize"]


def base():
    n = nets.new(snapshots=[0])
    add_types(n, CUSTOM)
    A = "Al/St 240/40 2-bundle 220.0"
    return nets.bulk(n, [["Bus", "b0", dict(v_nom=20.0)], ["Bus", "b1", dict(v_nom=20.0)], ["Bus", "b2", dict(v_nom=0.4)], ["Bus", "b3", dict(v_nom=110.0)],
        ["Line", "l0", dict(bus0="b0", bus1="b1", type=A, length=10.0, s_nom=50.0)], ["Line", "l1", dict(bus0="b1", bus1="b0", x=0.5, r=0.1, b=1e-4, g=1e-6, s_nom=50.0)], ["Line", "l2", dict(bus0="b0", bus1="b1", type="c60", length=3.0, num_parallel=2.0, x=9.0, r=9.0, b=9.0, g=1e-5, s_nom=50.0)],
        ["Transformer", "t0", dict(bus0="b0", bus1="b2", type="0.4 MVA 20/0.4 kV", tap_position=1)], ["Transformer", "t1", dict(bus0="b3", bus1="b0", type="t0", tap_position=-1, num_parallel=2.0, model="pi")],
        ["Transformer", "t2", dict(bus0="b3", bus1="b0", x=0.1, r=0.01, g=0.002, b=-0.01, s_nom=40.0, tap_ratio=1.05, tap_side=1)], ["Transformer", "t3", dict(bus0="b3", bus1="b1", x=0.12, s_nom=30.0, model="pi", phase_shift=5.0, b=-0.02)],
        ["ShuntImpedance", "h", dict(bus="b0", g=1e-4, b=2e-4)], ["Generator", "g", dict(bus="b3", p_nom=100.0, marginal_cost=1.0)], ["Load", "d", dict(bus="b1", p_set=0.5, q_set=0.1)], ["Load", "d2", dict(bus="b2", p_set=0.01)]])


def edit(n, e, custom):
    L, X = n.lines, n.transformers
    has = lambda df, k: k in df.index
    if e == "length":
        L["length"] = L["length"] * 1.5 + 0.25
    elif e == "parallel":
        L.loc["l0", "num_parallel"] += 1.5
        X.loc["t0", "num_parallel"] = 3.0
    elif e == "tap":
        X.loc["t0", "tap_position"] -= 2
        X.loc["t1", "tap_position"] += 3
        if has(X, "t2"):
            X.loc["t2", "tap_ratio"] = 0.95
    elif e == "v_nom":
        n.buses["v_nom"] *= 1.25
    elif e == "type":
        L.loc["l1", "type"] = "c50"
        L.loc["l1", "length"] = 7.0
        if has(X, "t2"):
            X.loc["t2", "type"] = "t1"
    elif e == "untype":
        L.loc["l2", "type"] = ""
        X.loc["t1", "type"] = ""
        X.loc["t0", "type"] = ""
    elif e == "retype":
        L.loc["l0", "type"] = "c16" if L.at["l0", "type"] != "c16" else "c60"
        L.loc["l0", "x"] = 77.0
        X.loc["t0", "type"] = "t1"
        X.loc["t3", "type"] = "t2"
    elif e == "x":
        for df in (L, X):
            df["x"] = df["x"] * 1.1 + 0.01
            df["r"] = df["r"] * 0.7
    elif e == "g":
        for df in (L, X, n.shunt_impedances):
            df["g"] = df["g"] * 1.1 + 1e-5
            df["b"] = df["b"] * 0.5
    elif e == "s_nom":
        X["s_nom"] = X["s_nom"] * 2
        L["s_nom"] = L["s_nom"] * 2
    elif e == "model":
        X["model"] = ["pi" if m == "t" else "t" for m in X["model"]]
    elif e == "typevalue":
        for c, k, d in custom:
            for a in ("x_per_length", "c_per_length", "vsc", "pfe", "i0", "tap_step", "phase_shift"):
                if a in d:
                    d[a] = d[a] * 1.5 + 0.01
                    n.static(c).loc[k, a] = d[a]
    elif e == "remove":
        if has(X, "t2"):
            n.remove("Transformer", "t2")
            n.remove("ShuntImpedance", "h")
    elif e == "add":
        if not has(L, "l9"):
            n.add("Line", "l9", bus0="b0", bus1="b1", type="c50", length=2.0, s_nom=5.0)
            n.add("Transformer", "t9", bus0="b3", bus1="b1", type="t0", tap_position=2)
            n.add("ShuntImpedance", "h9", bus="b3", b=1e-5)
    elif e == "tapside":
        X["tap_side"] = 1 - X["tap_side"]
        X["phase_shift"] = X["phase_shift"] + 1.0
    elif e == "bus0":
        L.loc["l1", ["bus0", "bus1"]] = ["b0", "b1"]
        n.buses.loc["b0", "v_nom"] = 21.0
        n.buses.loc["b1", "v_nom"] = 22.0
    elif e == "swap":
        n.lines[["bus0", "bus1"]] = n.lines[["bus1", "bus0"]].values


def recalc(n, how):
    if how == "lpf":
        n.lpf()
    elif how == "pf":
        n.pf()
    elif how == "optimize":
        n.optimize(solver_name="highs", log_to_console=False)
    else:
        n.calculate_dependent_values()
        if how == "direct2":
            n.calculate_dependent_values()


def tag(case):
    return core.digest(case)


def run(case):
    r = core.Result()
    if case["k"] == "missing":
        for c, col in (("Line", "lines"), ("Transformer", "transformers")):
            for first in (0, 1):
                n = base()
                df = getattr(n, col)
                df.loc[df.index[first], "type"] = "no such type"
                try:
                    n.calculate_dependent_values()
                except Exception as ex:  # noqa: BLE001
                    r.outcome("refused")
                    if not isinstance(ex, ValueError) or "no such type" not in str(ex):
                        r.bad("missing", f"undefined type of {c}: {type(ex).__name__}: {ex}")
                else:
                    r.bad("missing", f"undefined type of {c} accepted")
                r.state((c, first))
        return r
    if case["k"] == "hist":
        for rest in itertools.product(EDITS, repeat=case["depth"] - 1):
            seq = (case["first"],) + rest
            how = TRIG[case["trig"]]
            if how == "optimize" and sum(map(EDITS.index, seq)) % (3 if case["depth"] == 2 else 12):
                how = "direct"
            n, custom = base(), [[c, k, dict(d)] for c, k, d in CUSTOM]
            r.traces += 1
            n.calculate_dependent_values()
            for i, e in enumerate(seq):
                edit(n, e, custom)
                exp = expected(inputs(n), *types_of(n, custom))
                last = i == len(seq) - 1
                recalc(n, how if last else "direct")
                if compare(r, n, exp, "history", f"after {seq[:i + 1]} ({how if last else 'direct'})"):
                    break
                r.state(core.digest({f"{k}": {a: round(float(v), 9) for a, v in d.items()} for k, d in exp.items()}))
            r.outcome(case["first"])
        return r
    n = nets.new(snapshots=[0])
    custom = CUSTOM if case["k"] != "plain" else []
    add_types(n, custom)
    lt, tt = types_of(n, custom)
    specs = []
    if case["k"] == "lines":
        v = V[case["v"]]
        specs += [["Bus", "b0", dict(v_nom=v)], ["Bus", "b1", dict(v_nom=v)]]
        for i, (t, ln, k) in enumerate(itertools.product(lt, LEN, PAR)):
            specs.append(["Line", f"e{i}", dict(bus0="b0", bus1="b1", type=t, length=ln, num_parallel=k, **(dict(r=1.0, x=2.0, b=3.0, g=1e-6) if i % 2 else {}))])
    elif case["k"] == "trafos":
        specs += [["Bus", "b0", dict(v_nom=110.0)], ["Bus", "b1", dict(v_nom=20.0)]]
        for i, (t, tap, k) in enumerate(itertools.product(tt, range(-3, 4), PAR)):
            specs.append(["Transformer", f"e{i}", dict(bus0="b0", bus1="b1", type=t, tap_position=tap, num_parallel=k, model=case["model"], **(dict(r=1.0, x=2.0, b=3.0, g=1.0, s_nom=7.0, tap_ratio=1.5, tap_side=1, phase_shift=9.0) if i % 2 else {}))])
    elif case["k"] == "untyped":
        specs += [["Bus", "b0", dict(v_nom=110.0)], ["Bus", "b1", dict(v_nom=20.0)]]
        for i, (rr, x, g, b) in enumerate(itertools.product((0.0, 0.02), (0.3, -0.1), (0.0, 0.004), (0.0, -0.05, 0.03))):
            specs.append(["Line", f"e{i}", dict(bus0="b0", bus1="b0", r=rr, x=x, g=g, b=b, num_parallel=4.0, length=9.0)])
            specs.append(["ShuntImpedance", f"h{i}", dict(bus=f"b{i % 2}", g=g, b=b)])
            for j, (s, tap, side) in enumerate(itertools.product((0.5, 1.0, 250.0), (0.9, 1.0, 1.1), (0, 1))):
                specs.append(["Transformer", f"t{i}_{j}", dict(bus0="b0", bus1="b1", r=rr, x=x, g=g, b=b, s_nom=s, tap_ratio=tap, tap_side=side, phase_shift=j * 1.0, model=case["model"], tap_position=j, num_parallel=2.0)])
    else:  # only one kind of component, or no types at all
        specs += [["Bus", "b0", dict(v_nom=110.0)], ["Bus", "b1", dict(v_nom=20.0)], ["Line", "e", dict(bus0="b0", bus1="b1", x=1.0, r=0.5)]]
    nets.bulk(n, specs)
    exp = expected(inputs(n), lt, tt)
    for k in range(2):
        n.calculate_dependent_values()
        compare(r, n, exp, case["k"], f"calculation {k + 1}")
    for k, d in exp.items():
        r.state(core.digest({a: round(float(v), 9) for a, v in d.items()}))
    r.traces += len(exp)
    r.outcome(case["k"])
    # the standard type tables themselves
    for c, tab, own in (("LineType", lt, table("line_types")), ("TransformerType", tt, table("transformer_types"))):
        df = n.static(c)
        for k, row in own.items():
            for a, v in row.items():
                if a in df.columns and a not in ("name", "references", "mounting") and (k not in df.index or not close(float(df.at[k, a]), fl(v))):
                    r.bad("table", f"{c} {k} {a}")
    return r
