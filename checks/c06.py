"""C06: network equality detects every single difference."""
import itertools
import math
import pickle
from mc import canon, core, nets

ID = "C06"
HS = [0]
TECHNIQUE = "exhaustive enumeration of all single edits (every static cell, series cell, table column, component, snapshot, weighting, meta entry, network attribute) of richly filled networks and of all ordered pairs of a family of networks, comparing the real networks in both directions"
RULE = "unedited twins, copies and rebuilt networks are equal; every edited twin is unequal in both directions, strict mode raises, only the edited component table is unequal, and neither side is modified by comparing"
ASSUMPTIONS = ["values that Python itself calls equal (1, 1.0, True) and the order of dictionary entries are not differences"]
NETS = {
    "int": dict(time="int"), "dt": dict(time="dt"), "mi": dict(time="mi", series="all"), "half": dict(time="int", static="half", series="none", custom=False, meta="none", name=""),
    "names": dict(time="names", n_each=3, names="odd", series="all"), "midt": dict(time="midt"), "one": dict(time="one", n_each=1),
}
COMP = ["SubNetwork"] + canon.COMPS


def BOUNDS(tier):
    return f"every single edit of {3 if tier == 'quick' else len(NETS)} networks with 14 component types (2-3 rows each), all ordered pairs of {len(META)} meta values and of a family of 16 networks"


def cases(tier):
    for k in (["int", "mi", "half"] if tier == "quick" else NETS):
        yield dict(k="whole", net=k)
        if tier == "quick":
            if k == "int":
                for c in COMP:
                    for half in (0, 1):
                        yield dict(k="comp", net=k, c=c, every=False, half=half)
        else:
            for c in COMP:
                for half in (0, 1):
                    yield dict(k="comp", net=k, c=c, every=True, half=half)
    yield dict(k="meta")
    yield dict(k="pairs")
    yield dict(k="process")


META = [1, 2, 1.5, "1", "", "a", None, True, [], [1], [1, 2], [2, 1], {}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 1}, {"a": None}, {"a": []}, {"a": {}}, {"a": {"a": 1}}, [[1]], [{"a": 1}], ["a"], [None], float("nan"), float("inf"), -1]


def build(key, c=None):
    """The network; for edits of one component type only with that type and what it refers to."""
    return canon.rich(**NETS[key], **({} if c is None else dict(comps=["Bus", "Carrier", c])))


def eq(r, key, a, b, expected, what, strict=True):
    """Compare both directions and the strict mode."""
    for x, y, d in ((a, b, ""), (b, a, " (reversed)")):
        try:
            got = x == y
        except Exception as e:
            r.bad(key, f"{what}{d}: comparing raised {type(e).__name__}: {str(e)[:200]}")
            continue
        r.transitions += 1
        if got is not expected:
            r.bad(key, f"{what}{d}: == gave {got}")
        if d and not strict:
            continue
        try:
            s = x.equals(y, log_mode="strict")
        except ValueError:
            s = False
        except Exception as e:
            r.bad(key, f"{what}{d}: strict comparison raised {type(e).__name__}: {str(e)[:200]}")
            continue
        if s is not expected:
            r.bad(key, f"{what}{d}: strict comparison gave {s}")


def other(v):
    """Values that differ from v."""
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if isinstance(v, (int, np.integer)):
        return [int(v) + 1, -int(v) - 1]
    if isinstance(v, (float, np.floating)):
        if math.isnan(v):
            return [0.0]
        if math.isinf(v):
            return [-v, 1.0]
        return [v + 1.0, v * (1 + 1e-9) + 1e-13, float("nan"), -v - 0.5]
    if isinstance(v, str):
        return [v + "x", "" if v else "nan", v.upper() + " "]
    if hasattr(v, "wkt"):
        from shapely.geometry import Point
        return [Point(77, 1)]
    return []


def edits(n, c, every):
    """(name, function) for every single edit of component c."""
    st, dy = n.static(c), n.dynamic(c)
    for col in st.columns:
        for i, row in enumerate(st.index):
            vs = other(st[col].iloc[i])
            if not every:
                vs = vs[:2] if i == 0 else vs[2:3] or vs[:1]
            for v in vs:
                def f(m, col=col, row=row, v=v):
                    s = m.static(c)[col]
                    if s.dtype.kind in "iu" and isinstance(v, int) or s.dtype.kind == "b" or s.dtype == object or s.dtype.kind == "f" or c == "Shape":
                        m.static(c).loc[row, col] = v
                    else:
                        m.static(c)[col] = s.astype(object).where(s.index != row, v)
                yield f"{c}.{col}[{row}] = {v!r}", f
    for a, df in dy.items():
        for col in df.columns:
            for t in range(len(df)):
                v0 = df[col].iloc[t]
                for v in other(v0)[:3] if every else other(v0)[t % 3:][:1]:
                    def f(m, a=a, col=col, t=t, v=v):
                        m.dynamic(c)[a].iloc[t, m.dynamic(c)[a].columns.get_loc(col)] = v
                    yield f"{c}_t.{a}[{col}][{t}] = {v!r}", f
            yield f"drop {c}_t.{a}[{col}]", lambda m, a=a, col=col: m.dynamic(c).__setitem__(a, m.dynamic(c)[a].drop(columns=col))
        for row in st.index.difference(df.columns, sort=False):
            def f(m, a=a, row=row):
                m.dynamic(c)[a][row] = 0.0
            yield f"new {c}_t.{a}[{row}]", f
    if len(st):
        yield f"new column of {c}", lambda m: m.static(c).__setitem__("fresh", 1.0)
        yield f"new series table of {c}", lambda m: m.dynamic(c).__setitem__("fresh", __import__("pandas").DataFrame({m.static(c).index[0]: 1.0}, index=m.snapshots))
        if "my_text" in st.columns:
            yield f"drop column of {c}", lambda m: m.static(c).__delitem__("my_text")
            if "my_series" in dy:
                yield f"drop series table of {c}", lambda m: m.dynamic(c).__delitem__("my_series")
        for row in st.index:
            yield f"remove {c} {row}", lambda m, row=row: m.remove(c, row)
            if c != "SubNetwork":
                yield f"rename {c} {row}", lambda m, row=row: m.components[c].rename_component_names(**{row: "renamed"})
    if c not in ("SubNetwork", "Shape"):
        yield f"add {c}", lambda m: m.add(c, "added")


def whole(n):
    import numpy as np
    import pandas as pd
    for col in n.snapshot_weightings.columns:
        for t in range(len(n.snapshots)):
            for v in other(n.snapshot_weightings[col].iloc[t])[:3]:
                def f(m, col=col, t=t, v=v):
                    w = m.snapshot_weightings.astype(float)
                    w.iloc[t, w.columns.get_loc(col)] = v
                    m.snapshot_weightings = w
                yield f"weighting {col}[{t}] = {v}", f
    for col in n.investment_period_weightings.columns:
        for t in range(len(n.investment_periods)):
            def f(m, col=col, t=t):
                m.investment_period_weightings.iloc[t, m.investment_period_weightings.columns.get_loc(col)] += 1e-9
            yield f"period weighting {col}[{t}]", f
    yield "name", lambda m: setattr(m, "name", m.name + "x")
    yield "meta new", lambda m: m.meta.__setitem__("new", 1)
    yield "meta empty", lambda m: setattr(m, "meta", {} if m.meta else {"a": {}})
    for path in ([["a"], ["b", "c", 1], ["b", "d"], ["e"], ["f"], ["g"], ["h"]] if n.meta else []):
        def f(m, path=path):
            o = m.meta
            for p in path[:-1]:
                o = o[p]
            o[path[-1]] = "changed"
        yield f"meta {path}", f
        if path[-1] != 1:
            def f(m, path=path):
                o = m.meta
                for p in path[:-1]:
                    o = o[p]
                del o[path[-1]]
            yield f"del meta {path}", f
    if len(n.snapshots) > 1:
        yield "fewer snapshots", lambda m: m.set_snapshots(m.snapshots[:-1])
        yield "other order of snapshots", lambda m: m.set_snapshots(m.snapshots[::-1])
    if not n.has_periods:
        yield "more snapshots", lambda m: m.set_snapshots(list(m.snapshots) + [99] if not isinstance(m.snapshots, pd.DatetimeIndex) else m.snapshots.append(pd.DatetimeIndex(["2050-01-01"])))
        yield "periods", lambda m: m.set_investment_periods([2050])
        yield "other labels", lambda m: m.set_snapshots(list("vwxyz")[:len(m.snapshots)])
    else:
        yield "fewer periods", lambda m: m.set_snapshots(m.snapshots[m.snapshots.get_level_values(0) == m.investment_periods[0]][:1])
    yield "crs", lambda m: m.to_crs(3035)
    yield "objective", lambda m: setattr(m, "objective", 5.0)
    yield "extra attribute", lambda m: setattr(m, "something", 5)


def run(case):
    import pandas as pd
    # PyPSA formats the differing tables even in silent mode
    with pd.option_context("display.max_columns", 2, "display.max_rows", 2):
        return run_(case)


def run_(case):
    r = core.Result()
    if case["k"] == "pairs":
        return pairs(r)
    if case["k"] == "meta":
        return metas(r)
    if case["k"] == "process":
        return process(r)
    base = build(case["net"], case.get("c"))
    if case["net"] == "int":
        base.add("SubNetwork", ["0", "1"], carrier="AC", slack_bus="x")
    d0 = canon.canon(base)
    p0 = pickle.dumps(base)
    comps = [case["c"]] if case["k"] == "comp" else []
    if case["k"] == "whole":
        twin = build(case["net"])
        if case["net"] == "int":
            twin.add("SubNetwork", ["0", "1"], carrier="AC", slack_bus="x")
        for what, m in (("rebuilt", twin), ("copy", base.copy()), ("pickled", pickle.loads(p0)), ("itself", base)):
            eq(r, "twin", base, m, True, what)
        for x in (None, 3, "n", {}, base.components):
            if base.equals(x) or base == x:
                r.bad("foreign", f"network equals {type(x).__name__}")
    m = pickle.loads(p0)
    gen = list(edits(base, case["c"], case["every"]) if case["k"] == "comp" else whole(base))
    for name, f in gen if case["k"] == "whole" else gen[case["half"]::2]:
        m = pickle.loads(p0)
        f(m)
        dm = canon.canon(m)
        if dm == d0 and name not in ("extra attribute",):
            raise core.HarnessError(f"edit {name} has no effect") if hasattr(core, "HarnessError") else RuntimeError(f"edit {name} has no effect")
        key = name.split("[")[0].split(" = ")[0]
        eq(r, key, base, m, False, f"{case['net']}: {name}", case["k"] == "whole")
        if case["k"] == "comp" and not name.startswith("rename"):
            i = COMP.index(case["c"])
            for c in (case["c"], COMP[i - 1], COMP[(i + 1) % len(COMP)]):
                same = c != case["c"]
                for x, y in ((base, m), (m, base))[r.traces % 2:][:1]:
                    try:
                        got = x.components[c] == y.components[c]
                    except Exception as e:
                        got = f"{type(e).__name__}: {e}"
                    if got is not same:
                        r.bad(f"component {key}", f"{case['net']}: {name}: {c} components equal: {got}, expected {same}")
        if r.traces % 5 == 0 and canon.diff(canon.canon(m), dm):
            r.bad("modified", f"{name}: comparing changed the edited network")
        r.traces += 1
        r.state(core.digest([case["net"], name]))
        r.outcome(key.split(" ")[0])
    if canon.diff(canon.canon(base), d0):
        r.bad("modified", f"comparing changed the network: {canon.diff(canon.canon(base), d0)}")
    return r


def metas(r):
    a, b = nets.pypsa.Network(ignore_standard_types=True), nets.pypsa.Network(ignore_standard_types=True)
    for i, x in enumerate(META):
        for j, y in enumerate(META):
            for wrap in (lambda v: {"k": v}, lambda v: {"k": {"l": [v]}}):
                a.meta, b.meta = wrap(x), wrap(y)
                if i != j and x == 1 and y == 1:
                    # Python calls them equal: either answer, but the same in both directions
                    if (a == b) is not (b == a):
                        r.bad("meta symmetry", f"meta {a.meta} and {b.meta}: {a == b} but reversed {b == a}")
                    continue
                eq(r, "meta value", a, b, i == j, f"meta {a.meta} and {b.meta}")
                r.traces += 1
                r.state(core.digest([i, j]))
    return r


def pairs(r):
    fam = {}
    for k in NETS:
        fam[k] = build(k)
    fam["empty"] = nets.new()
    fam["empty named"] = nets.new()
    fam["empty named"].name = "x"
    n = nets.new(snapshots=[0, 1])
    nets.bulk(n, [["Bus", "a", {}], ["Bus", "b", {}], ["Line", "l", dict(bus0="a", bus1="b", x=0.1, s_nom=100)], ["Generator", "g", dict(bus="a", p_nom=10, marginal_cost=1)], ["Load", "d", dict(bus="b", p_set=[1.0, 2.0])]])
    fam["unsolved"] = n
    m = pickle.loads(pickle.dumps(n))
    m.determine_network_topology()
    fam["topology"] = m
    m = pickle.loads(pickle.dumps(n))
    m.lpf()
    fam["lpf"] = m
    m = pickle.loads(pickle.dumps(n))
    m.pf()
    fam["pf"] = m
    m = pickle.loads(pickle.dumps(n))
    m.generators["p_nom"] = 0.0
    fam["zero"] = m
    m = pickle.loads(pickle.dumps(n))
    nets.optimize(m)
    fam["optimised"] = m
    fam["with objective"] = pickle.loads(pickle.dumps(n))
    fam["with objective"].objective = 4.0
    with_types = nets.pypsa.Network(ignore_standard_types=True)
    fam["no types"] = with_types
    for what, f in (("optimised", lambda m: nets.optimize(m)), ("lpf", lambda m: m.lpf()), ("topology", lambda m: m.determine_network_topology())):
        m = pickle.loads(pickle.dumps(n))
        f(m)
        eq(r, "same calls", fam[what], m, True, f"two networks after {what}")
    desc = {k: canon.canon(v) for k, v in fam.items()}
    for a, b in itertools.product(fam, fam):
        same = a == b
        if not same and canon.diff(desc[a], desc[b]) == []:
            raise RuntimeError(f"{a} and {b} are the same")
        eq(r, "pair", fam[a], fam[b], same, f"{a} and {b}")
        r.traces += 1
        r.state(core.digest([a, b]))
        r.outcome(same)
    for k, v in fam.items():
        if canon.diff(canon.canon(v), desc[k]):
            r.bad("modified", f"{k}: comparing changed the network")
    return r


def process(r):
    """The same calls give equal networks whatever else was built in between in the same process."""
    P = nets.pypsa

    def make():
        n = P.Network(snapshots=[0, 1])
        n.add("Bus", ["a", "b", "c"])
        n.add("Link", "k", bus0="a", bus1="b", efficiency=0.5)
        n.add("Generator", "g", bus="a", p_nom=1.0, tag="x")
        return n

    def multi(i):
        n = P.Network()
        n.add("Bus", ["a", "b", "c"])
        n.add("Link", "k", bus0="a", bus1="b", **{f"bus{i}": "c", f"efficiency{i}": 0.5})
        return n

    n1 = make()
    between = [lambda: multi(2), lambda: multi(3), lambda: n1.copy().add("Link", "z", bus0="a", bus1="b", bus4="c"), lambda: n1.copy(snapshots=[0]).add("Link", "z", bus0="a", bus1="b", bus5="c"), lambda: n1[["a", "b"]].add("Link", "z", bus0="a", bus1="b", bus6="b"), lambda: make().lpf(), lambda: setattr(make(), "name", "x")]
    for i, f in enumerate(between):
        f()
        eq(r, "process", n1, make(), True, f"rebuilt after step {i}")
        n3 = make()
        n3.links["efficiency"] = 0.6
        eq(r, "process", n1, n3, False, f"edited after step {i}")
        r.traces += 1
        r.state(core.digest(i))
    return r
