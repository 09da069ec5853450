"""Construction helpers; imports PyPSA lazily so that enumerating cases never needs it."""
import functools, itertools, pickle


class Lazy:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        import importlib
        return getattr(importlib.import_module(self.__dict__["_n"]), a)


pypsa = Lazy("pypsa")
_template = None


def new(snapshots=None, periods=None, weightings=None, period_weightings=None):
    """A fresh Network (unpickled pristine template: cheaper than the constructor, same object)."""
    global _template
    import pandas as pd
    if _template is None:
        _template = pickle.dumps(pypsa.Network())
    n = pickle.loads(_template)
    if snapshots is not None:
        n.set_snapshots(snapshots)
    if periods is not None:
        n.set_investment_periods(periods)
    if weightings is not None:
        for k, v in (weightings.items() if isinstance(weightings, dict) else [(c, weightings) for c in ("objective", "stores", "generators")]):
            n.snapshot_weightings[k] = [float(x) for x in v]
    if period_weightings is not None:
        for k, v in period_weightings.items():
            n.investment_period_weightings[k] = [float(x) for x in v]
    return n


QUIET = dict(log_to_console=False)


def optimize(n, *args, **kw):
    kw.setdefault("solver_name", "highs")
    so = dict(kw.pop("solver_options", {}))
    so.setdefault("log_to_console", False)
    so.setdefault("threads", 1)
    so.setdefault("mip_rel_gap", 0.0)
    so.setdefault("mip_abs_gap", 1e-9)
    return n.optimize(*args, solver_options=so, **kw)


# ---------------------------------------------------------------- graphs
def multigraphs(nb, m):
    """All loopless multigraphs with nb labelled nodes and m edges up to isomorphism (canonical representative)."""
    pairs = list(itertools.combinations(range(nb), 2))
    seen = set()
    for combo in itertools.combinations_with_replacement(pairs, m):
        canon = min(tuple(sorted(tuple(sorted((p[a], p[b]))) for a, b in combo)) for p in itertools.permutations(range(nb)))
        if canon not in seen:
            seen.add(canon)
            yield [list(e) for e in combo]


def components(nb, edges):
    """Connected components (list of frozensets), plain union-find."""
    par = list(range(nb))

    def f(x):
        while par[x] != x:
            x = par[x]
        return x
    for a, b in edges:
        par[f(a)] = f(b)
    d = {}
    for i in range(nb):
        d.setdefault(f(i), set()).add(i)
    return sorted((frozenset(s) for s in d.values()), key=min)


def is_bridge(nb, edges, k):
    return len(components(nb, edges[:k] + edges[k + 1:])) != len(components(nb, edges))


# ---------------------------------------------------------------- bulk construction
ORDER = ["Carrier", "Bus", "LineType", "TransformerType", "Line", "Transformer", "Link", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "GlobalConstraint"]


def bulk(n, specs):
    """Add components given as [class, name, attrs]; list values are time series.  One n.add per class, then the series."""
    import pandas as pd
    by = {}
    for c, name, a in specs:
        by.setdefault(c, []).append((name, a))
    for c in sorted(by, key=ORDER.index):
        rows = by[c]
        cols = []
        for _, a in rows:
            for k, v in a.items():
                if not isinstance(v, list) and k not in cols:
                    cols.append(k)
        defaults = n.components[c].attrs.default
        kw = {}
        for k in cols:
            base = k
            if base in defaults.index:
                d = defaults[base]
            elif c == "Link" and k.startswith("bus"):
                d = ""
            elif c == "Link" and k.startswith("efficiency"):
                d = 1.0
            else:
                d = float("nan") if not any(isinstance(a.get(k), str) for _, a in rows) else ""
            kw[k] = [a.get(k, d) if not isinstance(a.get(k), list) else d for _, a in rows]
        n.add(c, [x for x, _ in rows], **kw)
        ser = {}
        for name, a in rows:
            for k, v in a.items():
                if isinstance(v, list):
                    ser.setdefault(k, {})[name] = [float("nan") if x is None else float(x) for x in v]
        for k, d in ser.items():
            df = pd.DataFrame(d, index=n.snapshots)
            old = n.dynamic(c).get(k)
            if old is not None and len(old.columns):
                df = pd.concat([old, df], axis=1)
            df.columns.name = c
            n.dynamic(c)[k] = df
    return n


REFS = ("bus", "bus0", "bus1", "bus2", "bus3", "bus4")


def prefixed(specs, p, also=()):
    out = []
    for c, name, a in specs:
        b = {}
        for k, v in a.items():
            if (k in REFS or k in also) and isinstance(v, str) and v:
                v = p + v
            b[k] = v
        out.append([c, name if c == "Carrier" and "carrier" not in also else p + name, b])
    return out
