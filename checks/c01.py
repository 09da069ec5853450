"""C01: component tables follow every history of add, overwrite, remove, rename."""
import csv
import itertools
import math
import os
from mc import core, nets

ID = "C01"
HS = [0]
TECHNIQUE = "exhaustive exploration of all operation histories up to a depth over an alphabet of add/overwrite/remove/rename calls with colliding names, executed on the real network in lockstep with a record-keeping model and compared after every operation"
RULE = "after every operation every static value and every series value of every component equals the record-keeping model's, the index is unique, the column types are those documented, and an operation that fails changes nothing"
ASSUMPTIONS = ["the order of the rows of a table is not judged", "renaming onto a name that is already taken is not specified and not explored"]
T = 2
COMPS = ["Bus", "Carrier", "Generator", "Load", "Link", "Line", "StorageUnit", "LineType", "GlobalConstraint"]


def A(cls, name, suffix="", ow=False, **kw):
    return ["add", cls, name, suffix, ow, kw]


OPS = {
    "busx": A("Bus", "x", v_nom=20.0),
    "busxy": A("Bus", ["x", "y"], v_nom=["list", [110.0, 220.0]], carrier="heat"),
    "bus_int": A("Bus", [0, 1], suffix=" b", x=["ser", [1.5, 2.5]]),
    "bus_ow": A("Bus", ["y", "w"], ow=True, v_mag_pu_set=["np2", [[1.1, 1.2], [1.3, 1.4]]]),
    "gen_a": A("Generator", "a", bus="x", p_nom=5, committable=True),
    "gen_a_series": A("Generator", "a", bus="y", p_max_pu=["list", [0.2, 0.4]], marginal_cost=3.0),
    "gen_a_ser": A("Generator", "a", bus="y", p_max_pu=["ser", [0.3, 0.6]], p_min_pu=["np", [0.1, 0.15]], build_year=2030),
    "gen_ab": A("Generator", ["a", "b"], bus=["list", ["x", "y"]], p_nom=["np", [1.0, 2.0]], p_nom_extendable=["list", [True, False]]),
    "gen_bc_series": A("Generator", ["b", "c"], bus="x", p_max_pu=["np2", [[0.5, 0.6], [0.7, 0.8]]], marginal_cost=["df", [[1.0, 2.0], [3.0, 4.0]]], carrier="gas"),
    "gen_suffix": A("Generator", ["x", "y"], suffix=" g", bus=["list", ["x", "y"]], efficiency=["ser", [0.25, 0.5]], p_max_pu=["df", [[0.1, 0.2], [0.3, 0.4]]]),
    "gen_a_ow": A("Generator", "a", ow=True, bus="x", capital_cost=9.0),
    "gen_a_ow_series": A("Generator", "a", ow=True, bus="x", marginal_cost=["list", [7.0, 8.0]]),
    "gen_ad_ow": A("Generator", ["a", "d"], ow=True, bus="y", p_nom=["list", [11.0, 12.0]], p_max_pu=["np2", [[0.9, 0.8], [0.7, 0.6]]]),
    "gen_ab_ow": A("Generator", ["b", "a"], ow=True, bus="y", p_max_pu=0.55),
    "gen_ad": A("Generator", ["a", "d"], bus="y", p_nom=["list", [21.0, 22.0]], p_max_pu=["np2", [[0.91, 0.81], [0.71, 0.61]]], p=["np2", [[1.0, 2.0], [3.0, 4.0]]]),
    "gen_custom": A("Generator", "b", bus="x", tag="hello", value=4.5),
    "gen_custom2": A("Generator", ["b", "e"], bus="x", tag=["list", ["u", "v"]], own=["np2", [[1.0, 2.0], [3.0, 4.0]]]),
    "gen_custom_ow": A("Generator", "e", ow=True, bus="y", own=["list", [5.0, 6.0]]),
    "gen_custom3": A("Generator", "f", bus="y", own=["list", [15.0, 16.0]]),
    "gen_out": A("Generator", "c", bus="x", p=["list", [3.0, 4.0]], p_nom_opt=7.0),
    "gen_out_static": A("Generator", ["c", "f"], bus="x", status=["list", [0.0, 1.0]]),
    "gen_nan": A("Generator", "g", bus="x", p_nom=float("nan"), lifetime=float("nan"), carrier=None),
    "gen_one": A("Generator", ["a"], bus="x", p_nom=["list", [31.0]], p_max_pu=["np2", [[0.41], [0.42]]]),
    "load_a": A("Load", "a", bus="x", p_set=["list", [1.0, 2.0]]),
    "load_ab_ow": A("Load", ["a", "b"], ow=True, bus="y", q_set=0.5, p_set=["df", [[5.0, 6.0], [7.0, 8.0]]]),
    "load_b": A("Load", "b", bus="y", p_set=4.0, sign=1),
    "su": A("StorageUnit", "a", bus="y", max_hours=4, inflow=["list", [1.0, 0.0]], cyclic_state_of_charge=True),
    "link2": A("Link", "k", bus0="x", bus1="y", efficiency=0.9),
    "link3": A("Link", ["k", "l"], bus0="y", bus1="x", bus2=["list", ["x", ""]], efficiency2=["list", [0.3, 0.4]], efficiency=["np2", [[0.5, 0.6], [0.7, 0.8]]]),
    "link3s": A("Link", "m", bus0="x", bus1="y", bus2="x", bus3="y", efficiency2=["list", [0.25, 0.75]], efficiency3=0.1),
    "link_ow": A("Link", ["k", "l"], ow=True, bus0="x", bus1="y"),
    "line": A("Line", "a", bus0="x", bus1="y", x=0.5, type="own", s_max_pu=["list", [0.5, 0.6]]),
    "linetype": A("LineType", "own", x_per_length=0.3),
    "carrier": A("Carrier", ["gas", "heat"], co2_emissions=["list", [0.2, 0.0]]),
    "glc": A("GlobalConstraint", "a", type="primary_energy", constant=5.0, sense="<="),
    "rm_gen": ["remove", "Generator", "a", ""],
    "rm_gens": ["remove", "Generator", ["b", "c"], ""],
    "rm_suffix": ["remove", "Generator", ["x", "y"], " g"],
    "rm_missing": ["remove", "Generator", ["a", "nope"], ""],
    "rm_link": ["remove", "Link", "k", ""],
    "rm_load": ["remove", "Load", ["a"], ""],
    "rm_bus": ["remove", "Bus", "y", ""],
    "ren_bus": ["rename", "Bus", {"x": "q", "w": "v"}],
    "ren_swap": ["rename", "Bus", {"x": "y", "y": "x"}],
    "ren_gen": ["rename", "Generator", {"a": "z", "b": "a2"}],
    "ren_gen_swap": ["rename", "Generator", {"a": "b", "b": "a"}],
    "ren_carrier": ["rename", "Carrier", {"gas": "ch4", "heat": "warm"}],
    "ren_type": ["rename", "LineType", {"own": "mine"}],
    "ren_link": ["rename", "Link", {"k": "a"}],
    "ren_bad": ["rename", "Bus", {"x": 3}],
    "bad_len": A("Generator", "h", bus="x", p_max_pu=["list", [0.1, 0.2, 0.3]], _err="ValueError"),
    "bad_len_multi": A("Generator", ["a", "h"], bus="x", p_nom=["list", [1.0, 2.0, 3.0]], _err="ValueError"),
    "bad_shape": A("Generator", ["a", "h"], ow=True, bus="x", p_max_pu=["np2", [[0.1, 0.2]]], _err="ValueError"),
    "bad_align": A("Generator", ["a", "h"], bus="x", p_nom=["serbad", [0.1, 0.2]], _err="ValueError"),
    "bad_dup": A("Generator", ["h", "h"], bus="x", _err="ValueError"),
    "bad_dict": A("Generator", "h", bus="x", p_nom={"a": 1}, _err="NotImplementedError"),
    "bad_type": A("Generator", "h", ow=True, bus="x", p_nom="many", _err="ValueError"),
    "bad_class": A("Windmill", "h", bus="x", _err="*"),
}
CORE = ["gen_a_series", "gen_ab", "gen_bc_series", "gen_a_ow_series", "gen_ab_ow", "gen_ad", "gen_custom2", "gen_custom_ow", "link3", "link_ow", "rm_gen", "ren_gen_swap"]
NAMES = list(OPS)


def BOUNDS(tier):
    return (f"all histories of 2 of {len(OPS)} operations (flat time axis and two investment periods)" + (f", all histories of 3 of {len(CORE)} core operations" if tier == "quick" else f", all histories of 3 of {len(OPS)} operations, all histories of 4 of {len(CORE)} core operations") + "; 2 snapshots, 9 component types")


def cases(tier):
    for i, o in enumerate(NAMES):
        yield dict(k="pairs", first=o, p=0)
        if tier != "quick" or i % 3 == 0:
            yield dict(k="pairs", first=o, p=1)
    for o in CORE:
        yield dict(k="core", first=o, p=0, d=3 if tier == "quick" else 4)
    if tier != "quick":
        for o in NAMES:
            yield dict(k="all3", first=o, p=0)


# ------------------------------------------------------------------ the record-keeping model
_attrs = {}


def attrs(c):
    """attribute -> (kind, default) read from the documented attribute tables; kind in static, both, output (series only)."""
    if c not in _attrs:
        base = os.path.dirname(nets.pypsa.__file__)
        d = os.path.join(base, "data")
        with open(os.path.join(d, "components.csv"), newline="") as f:
            ln = {r["component"]: r["list_name"] for r in csv.DictReader(f)}[c]
        out = {}
        with open(os.path.join(d, "component_attrs", ln + ".csv"), newline="") as f:
            for r in csv.DictReader(f):
                if r["attribute"] == "name":
                    continue
                ty, df = r["type"].strip(), r["default"].strip()
                kind = "output" if ty == "series" else "both" if "series" in ty else "static"
                if ty == "boolean":
                    v = df == "True"
                elif ty == "int":
                    v = int(df) if df not in ("n/a", "") else 0
                elif ty == "string":
                    v = df if df not in ("n/a", "None") else ""
                elif ty == "geometry":
                    v = None
                else:
                    v = float(df) if df not in ("n/a", "") else math.nan
                out[r["attribute"]] = (kind, v, ty)
        _attrs[c] = out
    return _attrs[c]


class Model:
    def __init__(self):
        self.t = {c: {} for c in COMPS}
        self.ports = set()

    def attrs(self, c):
        a = attrs(c)
        if c == "Link" and self.ports:
            a = dict(a)
            for p in self.ports:
                a["bus" + p], a["efficiency" + p], a["p" + p] = ("static", "", "string"), ("both", 1.0, "static or series"), ("output", 0.0, "series")
        return a

    def apply(self, op, T):
        """Returns the name of the expected exception or None."""
        if op[0] == "remove":
            _, c, names, suffix = op
            names = [str(k) + suffix for k in (names if isinstance(names, list) else [names])]
            if any(k not in self.t[c] for k in names):
                return "KeyError"
            for k in names:
                del self.t[c][k]
            return None
        if op[0] == "rename":
            _, c, m = op
            if not all(isinstance(v, str) for v in m.values()):
                return "ValueError"
            self.t[c] = {m.get(k, k): v for k, v in self.t[c].items()}
            cols = lambda cc, a: (a.startswith("bus") and a[3:] in ("", "0", "1", *self.ports)) if c == "Bus" else a == "carrier" if c == "Carrier" else (a == "type" and cc == "Line") if c == "LineType" else False
            for cc, rows in self.t.items():
                if cc in ("Bus", "Carrier") and c == "Bus":
                    continue
                for row in rows.values():
                    for a in list(row[0]):
                        if cols(cc, a) and row[0][a] in m:
                            row[0][a] = m[row[0][a]]
            return None
        _, c, names, suffix, ow, kw = op
        kw = dict(kw)
        if "_err" in kw:
            return kw["_err"]
        single = not isinstance(names, list)
        names = [str(k) + suffix for k in ([names] if single else names)]
        if c == "Link":
            self.ports |= {k[3:] for k in kw if k.startswith("bus") and k[3:] not in ("0", "1")}
        A = self.attrs(c)
        for i, k in enumerate(names):
            if k in self.t[c] and not ow:
                continue
            st, se = {}, {}
            for a, v in kw.items():
                if isinstance(v, list) and v[0] in ("np2", "df"):
                    se[a] = [row[i] for row in v[1]]
                elif isinstance(v, list) and single:
                    se[a] = list(v[1])
                elif isinstance(v, list):
                    v = v[1][i] if len(v[1]) > 1 else v[1][0]
                    if A.get(a, ("static",))[0] == "output":
                        se[a] = [v] * T
                    else:
                        st[a] = v
                elif A.get(a, ("static",))[0] == "output":
                    se[a] = [v] * T
                else:
                    st[a] = A[a][1] if v is None or v != v else v
            self.t[c].pop(k, None)
            self.t[c][k] = (st, se)
        return None

    def clone(self):
        m = Model()
        m.t = {c: {k: (dict(s), {a: list(v) for a, v in d.items()}) for k, (s, d) in rows.items()} for c, rows in self.t.items()}
        m.ports = set(self.ports)
        return m


def real(v, names, n, single):
    import numpy as np
    import pandas as pd
    if not isinstance(v, list):
        return v
    k, x = v
    if k == "list":
        return list(x)
    if k == "np":
        return np.array(x)
    if k == "ser":
        return pd.Series(x, n.snapshots if single else names)
    if k == "serbad":
        return pd.Series(x, names[::-1])
    if k == "np2":
        return np.array(x)
    return pd.DataFrame(x, n.snapshots, names)


def execute(n, op):
    if op[0] == "remove":
        n.remove(op[1], op[2], suffix=op[3])
    elif op[0] == "rename":
        n.rename_component_names(op[1], **op[2])
    else:
        _, c, names, suffix, ow, kw = op
        n.add(c, names, suffix=suffix, overwrite=ow, **{a: real(v, names, n, not isinstance(names, list)) for a, v in kw.items() if a != "_err"})


DT = {"float": "f", "boolean": "b", "int": "i", "string": "O"}


def same(a, b):
    if isinstance(b, float) and b != b:
        return a is None or a != a
    if b is None:
        return a is None or a != a
    return a == b and (isinstance(a, str) == isinstance(b, str))


def compare(n, m, r, key, what, T, checkall=False):
    bad = 0

    def fail(msg):
        nonlocal bad
        bad += 1
        if bad <= 3:
            r.bad(key, f"{what}: {msg}")

    for c in COMPS:
        rows, A = m.t[c], m.attrs(c)
        df = n.static(c)
        std = n.components[c]["standard_types"].index if c == "LineType" else ()
        idx = [k for k in df.index if k not in std]
        if not df.index.is_unique or set(idx) != set(rows):
            fail(f"{c} index is {idx}, expected {list(rows)}")
            continue
        if df.index.name != c:
            fail(f"{c} index name {df.index.name!r}")
        custom = {a for st, _ in rows.values() for a in st if a not in A}
        if rows:
            cols = {a: df[a].tolist() if a in df.columns else None for a in list(A) + sorted(custom) if A.get(a, ("static",))[0] != "output"}
            pos = {k: i for i, k in enumerate(df.index)}
            for a, vals in cols.items():
                if vals is None:
                    fail(f"{c} has no column {a}")
                    continue
                kind, dflt, ty = A.get(a, ("static", math.nan, None))
                if ty in DT and not (df[a].dtype.kind == DT[ty] or ty == "string" and df[a].dtype.kind in "OT"):
                    fail(f"{c}.{a} has dtype {df[a].dtype}, documented {ty}")
                for k, (st, _) in rows.items():
                    if not same(vals[pos[k]], st.get(a, dflt)):
                        fail(f"{c} {k} {a} = {vals[pos[k]]!r}, expected {st.get(a, dflt)!r}")
            if df["build_year"].dtype.kind != "i" if "build_year" in df else False:
                fail(f"{c} build_year dtype {df['build_year'].dtype}")
        dyn = n.dynamic(c)
        series = {a for _, se in rows.values() for a in se}
        for a in set(dyn) | series:
            d = dyn[a] if a in dyn else None
            if d is None:
                fail(f"{c} has no series table {a}")
                continue
            if not d.index.equals(n.snapshots):
                fail(f"{c} {a} table index differs from the snapshots")
            have = list(d.columns)
            want = {k: se[a] for k, (_, se) in rows.items() if a in se}
            kind = A.get(a, ("own", math.nan))[0]
            if len(set(have)) != len(have) or any(k not in rows for k in have):
                fail(f"{c} {a} series of {have}, components are {list(rows)}")
                continue
            for k, v in want.items():
                if k not in have or not all(same(x, y) for x, y in zip(d[k].tolist(), v)) or len(d[k]) != len(v):
                    fail(f"{c} {k} series {a} is {d[k].tolist() if k in have else None}, expected {v}")
            for k in set(have) - set(want):
                if kind == "output" or kind == "own":
                    if not all(same(x, A.get(a, (0, math.nan))[1]) for x in d[k].tolist()):
                        fail(f"{c} {k} series {a} is {d[k].tolist()}, but nothing was given")
                else:
                    fail(f"{c} {k} has a series {a}: {d[k].tolist()}, but none was given")
    return bad


def valid(m, op):
    """renames onto taken names are left out"""
    if op[0] != "rename":
        return True
    left = [op[2].get(k, k) for k in m.t[op[1]]]
    return len(set(left)) == len(left)


def tag(case):
    return core.digest(case)


def double(op):
    """with two periods each series is given twice"""
    if op[0] != "add":
        return op
    single = not isinstance(op[2], list)
    kw = {a: ([v[0], list(v[1]) * 2] if isinstance(v, list) and (v[0] in ("np2", "df") or single) else v) for a, v in op[5].items()}
    return op[:5] + [kw]


def history(r, seq, periods, T):
    n = nets.new(snapshots=[0, 1], periods=[2020, 2030] if periods else None)
    m = Model()
    for i, name in enumerate(seq):
        op = OPS[name] if not periods else double(OPS[name])
        if not valid(m, op):
            return
        before = m.clone()
        want = m.apply(op, T)
        r.transitions += 1
        got = None
        try:
            execute(n, op)
        except Exception as ex:  # noqa: BLE001
            got = type(ex).__name__
            text = f"{got}: {ex}"
        if want is not None:
            m = before
            if got is None or want != "*" and got != want and not (want == "ValueError" and got == "TypeError"):
                r.bad("outcome:" + name, f"{seq[:i + 1]}: {name} {'succeeded' if got is None else text}, expected {want}")
                return
        elif got is not None:
            r.bad("outcome:" + name, f"{seq[:i + 1]}: {text}")
            return
        # earlier prefixes are compared by the case that ends there
        if i == len(seq) - 1:
            if compare(n, m, r, f"{name}", f"after {seq[:i + 1]}{' with periods' if periods else ''}", T):
                return
    r.state(core.digest(m.t))
    r.outcome(seq[-1])


def run(case):
    r = core.Result()
    p = case["p"]
    TT = T * (2 if p else 1)
    first = case["first"]
    if case["k"] == "pairs":
        seqs = [(first,)] + [(first, b) for b in NAMES]
    elif case["k"] == "core":
        seqs = [(first,) + s for s in itertools.product(CORE, repeat=case["d"] - 1)]
    else:
        seqs = [(first,) + s for s in itertools.product(NAMES, repeat=2)]
    for s in seqs:
        history(r, s, p, TT)
        r.traces += 1
    return r
