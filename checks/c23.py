"""C23: a constant series equals the static value; a series takes precedence over the static value."""
import itertools, math
from mc import core, nets, world

ID = "C23"
HS = [0]
TECHNIQUE = "exhaustive enumeration of static/series representations of every time-varying input attribute of every class x all analyses, against the static form"
RULE = ("every representation of the same values - static, constant series for one, for the last or for all components, series over arbitrary other static values - "
        "gives the same dense view, optimisation, power flow and statistics")
ASSUMPTIONS = ["the base networks have unique optima", "set points of generators, links, stores and storage units fix the optimal operation only when given as series (documented), so they are enumerated for power flow only"]
NUM = 0.6789


def BOUNDS(tier):
    return dict(tier=tier, forms=FORMS, kinds=list(KINDS))


# attributes worth enumerating per kind; None = all
KINDS = {"pf": {"p_set", "q_set", "v_mag_pu_set", "efficiency", "efficiency2", "p_max_pu", "marginal_cost"}, "lp": None,
         "milp": {"stand_by_cost", "ramp_limit_up", "ramp_limit_down", "p_min_pu", "p_max_pu", "marginal_cost", "efficiency"},
         "qp": {"marginal_cost_quadratic", "marginal_cost"}, "invest": {"p_max_pu", "p_min_pu", "e_max_pu", "s_max_pu", "marginal_cost", "efficiency", "inflow", "p_set"}}
FORMS = ["first", "last", "all", "over", "over-first"]
CLS = ("Bus", "Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link", "ShuntImpedance")
ATTRS = {"Bus": ["v_mag_pu_set"],
         "Generator": ["p_min_pu", "p_max_pu", "p_set", "q_set", "marginal_cost", "marginal_cost_quadratic", "efficiency", "stand_by_cost", "ramp_limit_up", "ramp_limit_down"],
         "Load": ["p_set", "q_set"],
         "StorageUnit": ["p_min_pu", "p_max_pu", "p_set", "q_set", "spill_cost", "marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "state_of_charge_set",
                         "efficiency_store", "efficiency_dispatch", "standing_loss", "inflow"],
         "Store": ["e_min_pu", "e_max_pu", "p_set", "q_set", "marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "standing_loss"],
         "Line": ["s_max_pu"], "Transformer": ["s_max_pu"],
         "Link": ["efficiency", "efficiency2", "p_set", "p_min_pu", "p_max_pu", "marginal_cost", "marginal_cost_quadratic", "stand_by_cost", "ramp_limit_up", "ramp_limit_down"]}


def cases(tier):
    full = tier == "thorough"
    for kind, only in KINDS.items():
        for c, attrs in ATTRS.items():
            for a in attrs:
                if only is not None and a not in only and not full:
                    continue
                if kind != "pf" and a in ("p_set", "q_set", "state_of_charge_set") and c != "Load":
                    continue
                for f in FORMS:
                    if not full and f in ("last", "over-first"):
                        continue
                    if not full and kind != "pf" and f == "all":
                        continue
                    if not full and kind in ("milp", "invest") and f == "first" and a in ("marginal_cost", "efficiency", "inflow"):
                        continue
                    yield dict(kind=kind, c=c, attr=a, form=f)
    if full:
        for kind in ("lp", "pf"):
            flat = [(c, a) for c, at in ATTRS.items() for a in at if (KINDS[kind] is None or a in KINDS[kind]) and (kind == "pf" or a not in ("p_set", "q_set", "state_of_charge_set") or c == "Load")]
            for (c, a), (d, b) in itertools.combinations(flat, 2):
                yield dict(kind=kind, c=c, attr=a, form="over", also=[d, b])


def cost(case):
    return 1 if case["kind"] == "pf" else 2


def tag(case):
    return f"{case['kind']}:{case['c']}.{case['attr']}"


_base = {}


def base(kind):
    if kind not in _base:
        n = world.build(world.specs(kind), kind)
        dense = {}
        for c, attrs in ATTRS.items():
            for a in attrs:
                if a in n.static(c):
                    dense[c, a] = view(n, c, a)
        _base[kind] = dense, world.analyse(n, kind)
    return _base[kind]


def view(n, c, a, **kw):
    df = n.get_switchable_as_dense(c, a, **kw)
    return {(i, t): v for i in df.columns for t, v in zip(range(len(df)), df[i].tolist())}


def same(a, b):
    return set(a) == set(b) and all((x != x and b[k] != b[k]) or x == b[k] for k, x in a.items())


def represent(n, c, a, form):
    import pandas as pd
    st = n.static(c)
    if a not in st or not len(st):
        return False
    dense = n.get_switchable_as_dense(c, a)
    if form in ("first", "over-first"):
        cols = list(st.index[:1])
    elif form == "last":
        cols = list(st.index[-1:])
    else:
        cols = list(st.index)
    keep = [x for x in n.dynamic(c)[a].columns if x not in cols] if a in n.dynamic(c) else []
    new = dense[keep + cols].copy()
    new.columns.name = c
    n.dynamic(c)[a] = new
    if form.startswith("over"):
        n.static(c).loc[cols, a] = NUM
    return True


def run(case):
    r = core.Result()
    kind, c, a = case["kind"], case["c"], case["attr"]
    dense, want = base(kind)
    n = world.build(world.specs(kind), kind)
    if not represent(n, c, a, case["form"]):
        return r
    if case.get("also") and not represent(n, *case["also"], "over"):
        return r
    r.state([kind, c, a, case["form"], case.get("also")])
    for sns, inds in ((None, None), (n.snapshots[1:], None), (None, n.static(c).index[::-1]), (n.snapshots[:1], n.static(c).index[:1])):
        kw = {}
        if sns is not None:
            kw["snapshots"] = sns
        if inds is not None:
            kw["inds"] = inds
        got = view(n, c, a, **kw)
        off = 0 if sns is None else list(n.snapshots).index(sns[0])
        k = len(n.snapshots) if sns is None else len(sns)
        ii = list(n.static(c).index) if inds is None else list(inds)
        exp = {(i, t): dense[c, a][i, t + off] for i in ii for t in range(k)}
        r.transitions += 1
        if not same(got, exp):
            r.bad(f"view:{c}.{a}", f"{kind}: dense view of {c} {a} for {kw} with series form {case['form']}: {got}, expected {exp}")
    got = world.analyse(n, kind)
    r.transitions += 1
    r.traces += 1
    d = world.differ(got, want)
    r.outcome([kind, c, a, case["form"], len(got)])
    if d:
        r.bad(f"{kind}:{c}.{a}", f"{kind}: {c} {a} given as series ({case['form']}) changes results: {d} (static form second)")
    return r
