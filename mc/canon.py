"""A complete, independent, hashable description of a network, and richly filled networks to describe."""
import math


def val(x):
    import numpy as np
    if x is None:
        return None
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return "nan" if math.isnan(x) else float(x)
    if isinstance(x, tuple):
        return tuple(val(y) for y in x)
    if isinstance(x, str):
        return x
    if hasattr(x, "wkt"):
        return "geom:" + x.wkt
    if hasattr(x, "isoformat"):
        return "t:" + x.isoformat() if x == x else "nat"
    return repr(x)


def struct(x):
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(val(k)), struct(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(struct(y) for y in x))
    return (type(x).__name__ if not isinstance(x, (int, float)) or isinstance(x, bool) else "number", val(x))


SKIP = {("SubNetwork", "obj")}


def canon(n, dtypes=True, skip=()):
    """{path: value} of everything a user can read from the network."""
    out = {}
    idx = lambda i: (tuple(val(x) for x in i), tuple(i.names))
    out["snapshots"] = idx(n.snapshots)
    out["periods"] = tuple(val(p) for p in n.investment_periods)
    for k in ("snapshot_weightings", "investment_period_weightings"):
        df = getattr(n, k)
        out[k, "index"] = tuple(val(x) for x in df.index)
        for c in df.columns:
            out[k, c] = tuple(val(x) for x in df[c].tolist())
    out["name"] = n.name
    out["meta"] = struct(n.meta)
    out["crs"] = n.crs.to_wkt() if n.crs is not None else None
    for a in ("objective", "objective_constant"):
        if a in n.__dict__:
            out[a] = val(n.__dict__[a])
    for cn in sorted(n.all_components):
        if cn in skip:
            continue
        st, dy = n.static(cn), n.dynamic(cn)
        out["names", cn] = tuple(val(x) for x in st.index)
        out["indexname", cn] = st.index.name
        out["columns", cn] = tuple(sorted(map(str, st.columns)))
        for col in st.columns:
            if (cn, col) in SKIP or not len(st):
                continue
            if dtypes:
                out["dtype", cn, col] = str(st[col].dtype)
            out["static", cn, col] = tuple(val(x) for x in st[col].tolist())
        for a, df in dy.items():
            if df.shape[1] == 0:
                out["dynindex", cn, a] = len(df.index)
                continue
            out["dynindex", cn, a] = tuple(val(x) for x in df.index)
            for c in df.columns:
                if dtypes:
                    out["dyndtype", cn, a, c] = str(df[c].dtype)
                out["dyn", cn, a, c] = tuple(val(x) for x in df[c].tolist())
    return out


def diff(a, b, limit=6):
    """Differences between two descriptions, as readable strings."""
    out = []
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k, "missing"), b.get(k, "missing")
        if x != y:
            out.append(f"{k}: {str(x)[:120]} != {str(y)[:120]}")
            if len(out) >= limit:
                break
    return out


COMPS = ["Carrier", "Bus", "LineType", "TransformerType", "Line", "Transformer", "Link", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "GlobalConstraint", "Shape"]
TIMES = {
    "default": (None, None),
    "int": ([0, 1, 2], None),
    "one": ([5], None),
    "names": (["a", "b", "1"], None),
    "dt": ("dt", None),
    "dtmin": ("dtmin", None),
    "mi": ([0, 1], [2020, 2030]),
    "midt": ("dt2", [2020, 2030]),
    "mione": ([0, 1], [2025]),
}
META = {"none": {}, "rich": {"a": 1, "b": {"c": [1, 2.5, "x"], "d": None}, "e": "text", "f": True, "g": {}, "h": []}}


def times(key):
    import pandas as pd
    sns, periods = TIMES[key]
    if sns == "dt":
        sns = pd.date_range("2030-01-01", periods=3, freq="h")
    elif sns == "dt2":
        sns = pd.date_range("2030-01-01", periods=2, freq="h")
    elif sns == "dtmin":
        sns = pd.DatetimeIndex(["2029-12-31 23:30", "2030-01-01 00:15", "2030-03-01 12:00:01"])
    return sns, periods


REF = {"bus": "Bus", "bus0": "Bus", "bus1": "Bus", "bus2": "Bus", "carrier": "Carrier"}


def value(cn, attr, typ, row, j, names):
    """A deterministic value different from the default."""
    import numpy as np
    if attr in REF:
        return names[REF[attr]][(row + j) % len(names[REF[attr]])]
    if attr == "type" and cn in ("Line", "Transformer"):
        return ""
    if typ is bool or typ == "boolean":
        return True if attr != "active" else bool(row % 2)
    if typ is int:
        return 1 + (row + j) % 5
    if typ is str:
        return f"{attr} {row}"
    return (0.1 + 0.37 * j + 0.011 * row) if (row + j) % 7 else (float(np.inf) if attr.endswith("_max") else 1e-7 * (1 + row))


def rich(time="int", comps=COMPS, n_each=2, static="full", series="some", custom=True, meta="rich", name="net", weights=True, outputs=True, names="plain", n=None):
    """A network in which (nearly) every attribute of every listed component type differs from its default."""
    import numpy as np
    import pandas as pd
    from mc import nets
    if n is None:
        n = nets.new()
    sns, periods = times(time)
    if sns is not None:
        n.set_snapshots(sns)
    if periods is not None:
        n.set_investment_periods(periods)
    T = len(n.snapshots)
    if weights:
        for j, c in enumerate(n.snapshot_weightings.columns):
            n.snapshot_weightings[c] = [0.5 + j + 0.25 * t for t in range(T)]
        for j, c in enumerate(n.investment_period_weightings.columns):
            n.investment_period_weightings[c] = [2.5 + j + t for t in range(len(n.investment_periods))]
    n.name = name
    n.meta = __import__("copy").deepcopy(META[meta])
    fmt = {"plain": lambda c, i: f"{c.lower()}{i}", "odd": lambda c, i: ["1", "ä b/c", "nan", "0.50"][i % 4] + ("" if i < 4 else str(i)), "same": lambda c, i: f"x{i}"}[names]
    nm = {c: [fmt(c, i) for i in range(n_each)] for c in COMPS}
    if "Bus" not in comps:
        nm["Bus"] = [""]
    if "Carrier" not in comps:
        nm["Carrier"] = ["AC"]
    for c in [c for c in COMPS if c in comps]:
        at = n.components[c].attrs
        rows = nm[c]
        kw = {}
        if c == "Link" and static == "full" and "Bus" in comps:
            kw["bus2"] = [nm["Bus"][0], ""][: len(rows)] + [""] * (len(rows) - 2)
            kw["efficiency2"] = [0.25 + 0.125 * i for i in range(len(rows))]
        for j, a in enumerate(at.index):
            if a == "name" or not at.at[a, "static"]:
                continue
            out = at.at[a, "status"].startswith("Output")
            if a in REF or (static == "full" and (outputs or not out)) or (static == "half" and j % 2 and not out):
                if a in ("sub_network", "geometry", "control", "generator", "slack_bus") and c != "Shape":
                    continue
                if a == "geometry":
                    from shapely.geometry import Point, Polygon
                    kw[a] = [Point(i, 2.5) if i % 2 else Polygon([(i, 0), (i + 1, 0), (i, 1.5)]) for i in range(len(rows))]
                    continue
                v = [value(c, a, at.at[a, "typ"], i, j, nm) for i in range(len(rows))]
                if static == "half":
                    v = [at.at[a, "default"]] + v[1:]
                kw[a] = v
        if custom:
            kw["my_float"] = [1.5 + i for i in range(len(rows))]
            kw["my_text"] = [f"t {i}" for i in range(len(rows))]
            kw["my_flag"] = [bool(i % 2) for i in range(len(rows))]
        n.add(c, rows, **kw)
        if series == "none":
            continue
        for j, a in enumerate(at.index[at.varying]):
            out = at.at[a, "status"].startswith("Output")
            if out and not outputs:
                continue
            if series == "some" and j % 3 == 2:
                continue
            cols = rows if series == "all" or out else rows[j % len(rows):][:1]
            n.dynamic(c)[a] = pd.DataFrame({r: [0.3 + 0.1 * j + 0.01 * i + 0.001 * t for t in range(T)] for i, r in enumerate(cols)}, index=n.snapshots).rename_axis(columns=c)
        if custom:
            n.dynamic(c)["my_series"] = pd.DataFrame({rows[-1]: [7.25 + t for t in range(T)]}, index=n.snapshots).rename_axis(columns=c)
    return n
