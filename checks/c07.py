"""C07: topology = connected components / cycle space of the active passive branches."""
import itertools
from mc.core import Result, deviations
from mc.nets import new, multigraphs, components

ID = "C07"
HS = [0]
RULE = ("all loopless multigraphs up to isomorphism within the bound x branch kind/activity/orientation choices x way of "
        "deactivation (flag, build year+period, flag flipped after a first determination) x carrier mix x extra link; non-trivial = at least one branch")
ASSUMPTIONS = ["isomorphic bus relabelling is explored separately (C28)", "branch kinds limited to lines and transformers (the only passive branches)"]
# bus names chosen so that insertion order differs from lexicographic order and from numeric order
NAMES = ["z", "10", "9", "b", "a b"]


def BOUNDS(tier):
    return ("multigraphs: 1..4 buses with 0..3 branches, full product of kind x activity x (orientation <=1 flip); 4 branches with <=2 (quick) / full kind x activity (thorough) "
            "deviations" + ("; 5 buses with 4..5 branches, <=2 deviations" if tier == "thorough" else ""))


def _g(nb, edges, kinds, act, flips, mode="flag", carriers="AC", link=0, hs=None):
    return dict(nb=nb, e=[[a, b, k, x, f] for (a, b), k, x, f in zip(edges, kinds, act, flips)], mode=mode, car=carriers, link=link, **({"hs": hs} if hs else {}))


def cases(tier):
    for nb in (1, 2, 3, 4):
        for m in range(0, 4):
            if nb == 1 and m:
                continue
            for edges in multigraphs(nb, m):
                for kinds in itertools.product("LT", repeat=m):
                    hs = [0, 1] if "T" in kinds and "L" in kinds else None
                    lean = tier == "quick" and (m == 3 or nb == 4)
                    for act in itertools.product((1, 0), repeat=m):
                        if lean:  # quick: rotate the secondary choices over the full kind x activity product
                            par = (sum(act) + kinds.count("T")) % 2
                            yield _g(nb, edges, kinds, act, [par, 0, 1 - par][:m] + [0] * (m - 3), carriers=["AC", "mix"][par], link=par, hs=hs)
                            if 0 in act and sum(act) and list(kinds) == sorted(kinds):
                                yield _g(nb, edges, kinds, act, [0] * m, mode="period" if sum(act) % 2 else "re")
                            continue
                        for fl in range(-1, m):
                            flips = [int(i == fl) for i in range(m)]
                            yield _g(nb, edges, kinds, act, flips, hs=hs)
                        fl = [0] * m
                        if 0 in act:
                            yield _g(nb, edges, kinds, act, fl, mode="period", hs=hs)
                            yield _g(nb, edges, kinds, act, fl, mode="re", hs=hs)
                        yield _g(nb, edges, kinds, act, [1] * m, carriers="mix", link=1, hs=hs)
    for nb in (3, 4):
        for edges in multigraphs(nb, 4):
            slots = {}
            for i in range(4):
                slots[f"k{i}"] = ["L", "T"]
                slots[f"a{i}"] = [1, 0]
            for d in deviations(slots, 8 if tier == "thorough" else 2):
                kinds = [d[f"k{i}"] for i in range(4)]
                act = [d[f"a{i}"] for i in range(4)]
                yield _g(nb, edges, kinds, act, [0, 1, 0, 1], link=1, hs=[0, 1] if len(set(kinds)) > 1 else None)
    if tier == "thorough":
        for m in (4, 5, 6):
            for edges in multigraphs(5, m):
                slots = {}
                for i in range(m):
                    slots[f"k{i}"] = ["L", "T"]
                    slots[f"a{i}"] = [1, 0]
                for d in deviations(slots, 2):
                    kinds = [d[f"k{i}"] for i in range(m)]
                    yield _g(5, edges, kinds, [d[f"a{i}"] for i in range(m)], [i % 2 for i in range(m)], hs=[0, 1] if len(set(kinds)) > 1 else None)


def run(case):
    import numpy as np
    r = Result()
    nb, E = case["nb"], case["e"]
    names = NAMES[:nb]
    period = 2020 if case["mode"] == "period" else None
    n = new(periods=[2020, 2030]) if period else new()
    full = components(nb, [(a, b) for a, b, *_ in E])
    car = {i: "AC" for i in range(nb)}
    if case["car"] == "mix":
        for k, s in enumerate(full):
            for i in s:
                car[i] = ["AC", "DC", "heat"][k % 3] if len(s) == 1 else ["AC", "DC"][k % 2]
    n.add("Bus", names, carrier=[car[i] for i in range(nb)])
    br, bulk = [], {}
    for k, (a, b, kind, act, fl) in enumerate(E):
        if fl:
            a, b = b, a
        nm = f"{'yx'[k % 2]}{k}"
        cls = "Line" if kind == "L" else "Transformer"
        kw = dict(x=0.1 + 0.1 * k, r=0.01, s_nom=10)
        if case["mode"] == "period":
            kw["build_year"] = 2000 if act else 2030
            kw["lifetime"] = 25
        elif case["mode"] == "flag":
            kw["active"] = bool(act)
        bulk.setdefault(cls, []).append(dict(name=nm, bus0=names[a], bus1=names[b], **kw))
        br.append((cls, nm, a, b, act))
    for cls, rows in bulk.items():
        n.add(cls, [d.pop("name") for d in rows], **{k: [d[k] for d in rows] for k in rows[0] if k != "name"})
    if case["link"] and nb > 1:
        n.add("Link", "lk", bus0=names[0], bus1=names[-1], p_nom=5)
    r.transitions += 1
    if case["mode"] == "re":
        n.determine_network_topology()
        for cls, nm, a, b, act in br:
            n.static(cls).loc[nm, "active"] = bool(act)
    n.determine_network_topology(**({"investment_period": period} if period else {}))
    r.transitions += 1
    r.traces += 1
    r.state(dict(case, hs=None))
    act_e = [(a, b) for cls, nm, a, b, act in br if act]
    want = components(nb, act_e)
    tag = f"{case['mode']}:" + ("mixedkinds" if len({k for _, _, k, _, _ in E}) > 1 else "".join(sorted({k for _, _, k, _, _ in E})))
    got = {}
    for i, nm in enumerate(names):
        got.setdefault(str(n.buses.at[nm, "sub_network"]), set()).add(i)
    gotp = sorted((frozenset(s) for s in got.values()), key=min)
    r.outcome([sorted(map(sorted, gotp)), len(act_e)])
    if gotp != want:
        r.bad(f"partition:{tag}", f"partition {gotp} expected {want} for {case}")
        return r
    if set(n.sub_networks.index.astype(str)) != set(got):
        r.bad(f"subnetworks:{tag}", f"{list(n.sub_networks.index)} vs {set(got)} for {case}")
        return r
    covered = []
    for sn, buses in got.items():
        obj = n.sub_networks.at[sn, "obj"]
        if n.sub_networks.at[sn, "carrier"] != car[min(buses)]:
            r.bad(f"carrier:{tag}", f"{sn} has carrier {n.sub_networks.at[sn,'carrier']}, buses {car[min(buses)]}: {case}")
        if set(obj.buses_i()) != {names[i] for i in buses}:
            r.bad(f"sub_buses:{tag}", f"{list(obj.buses_i())} vs {buses} for {case}")
        inside = {(c, x) for c, x, a, b, act in br if act and a in buses}
        B = obj.branches()
        actual = {i for i in B.index if any(i == (c, x) and act for c, x, a, b, act in br)}
        covered += list(actual)
        if actual != inside:
            r.bad(f"sub_branches:{tag}", f"{actual} vs {inside} for {case}")
        ai = set(obj.branches_i(active_only=True)) if case["mode"] != "period" else inside
        if ai != inside:
            r.bad(f"sub_branches_active:{tag}", f"{ai} vs {inside} for {case}")
        # cycles: basis of the cycle space of active branches
        C = np.asarray(obj.C.todense(), dtype=float)
        if not len(B):
            C = np.zeros((0, 0))
        need = len(inside) - len(buses) + 1
        K = np.zeros((nb, len(B)))
        for j, bi in enumerate(B.index):
            for c, x, a, b, act in br:
                if (c, x) == tuple(bi):
                    K[a, j] += 1
                    K[b, j] -= 1
                    if not act and C.shape[1] and np.abs(C[j]).max() > 0:
                        r.bad(f"cycle_uses_inactive:{tag}", f"cycle through inactive branch {bi}: {case}")
        if C.shape[1] and np.abs(K @ C).max() > 1e-9:
            r.bad(f"cycle_not_closed:{tag}", f"K C != 0 : {C} for {case}")
        rank = np.linalg.matrix_rank(C) if C.size else 0
        if rank != need or C.shape[1] != need:
            r.bad(f"cycle_basis:{tag}", f"cycles {C.shape[1]} rank {rank}, need {need}: {case}")
        # matrices of the sub-network (order of buses = buses_i)
        order = list(obj.buses_i())
        if period is None and len(buses) > 1:
            _matrices(r, obj, order, [(names[a], names[b]) for c, x, a, b, act in br if act and a in buses], f"sub:{tag}", case)
    if len(covered) != len(set(covered)) or len(covered) != len(act_e):
        r.bad(f"branch_cover:{tag}", f"{covered} for {case}")
    for cls, nm, a, b, act in br:
        if act and str(n.static(cls).at[nm, "sub_network"]) != str(n.buses.at[names[a], "sub_network"]):
            r.bad(f"branch_sub:{tag}", f"{nm}: {case}")
    if period is None and case["mode"] == "flag":
        _matrices(r, n, names, [(names[a], names[b]) for c, x, a, b, act in br if act], f"net:{tag}", case, comps=("Line", "Transformer"))
        extra = [(names[0], names[-1])] if case["link"] and nb > 1 else []
        _matrices(r, n, names, [(names[a], names[b]) for c, x, a, b, act in br if act] + extra, f"netall:{tag}", case)
        g = n.graph(branch_components=["Line", "Transformer"], include_inactive=False)
        if sorted(g.nodes()) != sorted(names) or sorted(tuple(sorted(e[:2])) for e in g.edges()) != sorted(tuple(sorted((names[a], names[b]))) for a, b in act_e):
            r.bad(f"graph:{tag}", f"graph {list(g.edges())} for {case}")
    r.sample = case
    return r


def _matrices(r, obj, order, ends, tag, case, comps=None):
    import numpy as np
    kw = {"branch_components": list(comps)} if comps else {}
    A = np.asarray(obj.adjacency_matrix(**kw).todense(), dtype=float)
    W = np.zeros((len(order), len(order)))
    for a, b in ends:
        W[order.index(a), order.index(b)] += 1
    r.transitions += 2
    if A.shape != W.shape or np.abs(A - W).max(initial=0) > 1e-9:
        r.bad(f"adjacency:{tag}", f"{A.tolist()} expected {W.tolist()} for {case}")
    if not ends and not any(1 for _ in case["e"]):
        return
    K = np.asarray(obj.incidence_matrix(**kw).todense(), dtype=float)
    got = sorted((order[int(np.argmax(c))], order[int(np.argmin(c))]) for c in K.T if np.count_nonzero(c) == 2 and c.max() == 1 and c.min() == -1)
    if K.shape != (len(order), len(ends)) or got != sorted(ends):
        r.bad(f"incidence:{tag}", f"{K.tolist()} expected ends {ends} for {case}")
