"""C14: unit commitment."""
import itertools
from mc import core, nets, optrun, refopt

ID = "C14"
HS = [0]
TECHNIQUE = "explicit enumeration of unit-commitment problems (all demand patterns up to a length times all commitment parameters and initial states), each schedule of the real optimiser judged against the documented rules and the exact minimum of an independent reference MILP; linear relaxations compared with the exact minimum"
RULE = ("All demand patterns over {low, high} of length 5 are combined with all minimum up/down times 0..3 and all initial states; ramping, part-load, "
        "cost and history parameters are enumerated with at most k deviations over several patterns, for generators and links.")
ASSUMPTIONS = ["HiGHS as called by scipy (gap 0) solves the small reference MILPs exactly",
               "a unit counts as running before the first snapshot iff up_time_before > 0 (both *_time_before positive is ambiguous and not enumerated)"]

T = 5
LOW, HIGH = 1.0, 9.0
PAT = [list(p) for p in itertools.product((LOW, HIGH), repeat=T)]


def BOUNDS(tier):
    k = 2 if tier == "quick" else 3
    return f"5 snapshots; 32 demand patterns x min up/down times 0..3 x 6 initial states; <= {k} deviations of 14 parameters x {'4' if tier=='quick' else '8'} patterns; histories of length 1..3 before the window"


def unit(c, a, load, series=None):
    """One committable unit g next to an expensive flexible one; c: Generator or Link."""
    g = dict(p_nom=10.0, committable=True, p_min_pu=0.4, marginal_cost=1.0, start_up_cost=2.0, shut_down_cost=1.0)
    g.update(a)
    if series:
        g.update(series)
    sp = [["Bus", "b", {}], ["Load", "l", dict(bus="b", p_set=load)],
          ["Generator", "x", dict(bus="b", p_nom=20.0, marginal_cost=5.0, **({"p": [0.0] * len(load)} if series else {}))],
          ["Generator", "dump", dict(bus="b", p_nom=20.0, p_min_pu=-1.0, p_max_pu=0.0, marginal_cost=-3.0, **({"p": [0.0] * len(load)} if series else {}))]]
    if c == "Generator":
        sp.append(["Generator", "g", dict(bus="b", **g)])
    else:
        if "p" in g:
            g["p0"] = g.pop("p")
        sp += [["Bus", "o", {}], ["Link", "g", dict(bus0="o", bus1="b", efficiency=0.9, **g)],
               ["Generator", "s", dict(bus="o", p_nom=50.0, **({"p": [0.0] * len(load)} if series else {}))]]
    return sp


INIT = [dict(up_time_before=u, down_time_before=0) for u in (1, 2, 3)] + [dict(up_time_before=0, down_time_before=d) for d in (0, 1, 2)]
SLOTS = dict(
    min_up_time=[0, 2, 3], min_down_time=[0, 2, 3], init=[INIT[0], INIT[3], INIT[5], INIT[1]], start_up_cost=[2.0, 0.0, 30.0], shut_down_cost=[1.0, 0.0, 25.0],
    stand_by_cost=[0.0, 4.0, [0.0, 12.0, 1.0, 9.0, 0.0]], ramp_limit_up=[None, 0.3, 0.6, [0.2, 0.5, 0.3, 1.0, 0.2]], ramp_limit_down=[None, 0.3, 0.5, [0.3, 0.2, 0.6, 0.3, 1.0]], ramp_limit_start_up=[1.0, 0.5, 0.7],
    ramp_limit_shut_down=[1.0, 0.45, 0.6], p_min_pu=[0.4, 0.0, [0.2, 0.5, 0.3, 0.4, 0.1]], p_max_pu=[1.0, [1.0, 0.6, 0.8, 0.5, 1.0]], p_set=[None, [None, None, 6.0, None, None], [None, 0.0, None, None, 5.0]], marginal_cost=[1.0, [1.0, 7.0, 2.0, 8.0, 1.0]])
PSEL = [[LOW, HIGH, LOW, HIGH, HIGH], [HIGH, HIGH, LOW, LOW, HIGH], [HIGH, LOW, LOW, 5.0, HIGH], [LOW, LOW, HIGH, LOW, LOW]]
PSEL2 = PSEL + [[HIGH, 4.0, 8.0, LOW, HIGH], [LOW, HIGH, HIGH, HIGH, LOW], [HIGH, LOW, HIGH, LOW, HIGH], [5.0, LOW, 5.0, HIGH, LOW]]


def params(d):
    a = {k: v for k, v in d.items() if v is not None and k != "init"}
    a.update(d["init"])
    return a


def cases(tier):
    k = 2 if tier == "quick" else 3
    sc = []
    for c in ("Generator", "Link"):
        for ut, dt in itertools.product(range(4), repeat=2):
            for ini in INIT:
                for i, p in enumerate(PAT):
                    if tier == "quick" and c == "Link" and (i + ut + dt) % 4:
                        continue
                    sc.append(dict(c=c, a=dict(min_up_time=ut, min_down_time=dt, **ini), load=p))
    out = [dict(conf=dict(T=T), scen=b) for b in optrun.batches(sc, 48)]
    dv = []
    for c in ("Generator", "Link"):
        for d in core.deviations(SLOTS, k):
            for j, p in enumerate(PSEL if tier == "quick" else PSEL2):
                if tier == "quick" and c == "Link" and j % 2:
                    continue
                dv.append(dict(c=c, a=params(d), load=p))
    # units with only start-up/shut-down limits must not depend on others in the network having ramp limits
    solo = [s for s in dv if set(x for x in s["a"] if x.startswith("ramp") and s["a"][x] != 1.0) and set(x for x in s["a"] if x.startswith("ramp_limit_up") or x.startswith("ramp_limit_down")) == set()]
    unr = [s for s in solo]
    out += [dict(conf=dict(T=T), scen=b) for b in optrun.batches(dv, 40)]
    out += [dict(conf=dict(T=T), scen=b) for b in optrun.batches(unr, 40)]
    # windows that start in the middle: the state is what the previous statuses and dispatch say
    win = []
    for first in (1, 2, 3):
        for hist in itertools.product((0, 1), repeat=first):
            for ut, dt in ((0, 0), (2, 0), (3, 0), (0, 2), (0, 3), (3, 2), (4, 4)):
                for ini in (INIT[0], INIT[2], INIT[5]):
                    for tail in ([LOW] * 5, [HIGH] * 5, [LOW, HIGH, LOW, HIGH, HIGH], [HIGH, LOW, HIGH, LOW, LOW]):
                        h = [float(x) for x in hist] + [0.0] * (T - first)
                        win.append(dict(first=first, c="Generator" if (sum(hist) + ut) % 2 else "Link", a=dict(min_up_time=ut, min_down_time=dt, **ini),
                                        load=tail[:T], series=dict(status=h, p=[6.0 * x for x in h])))
        for hist in ([1], [0], [0, 1], [1, 0], [1, 1, 1])[: 5 if first == 3 else 4]:
            if len(hist) != first:
                continue
            for ru, rd, rs, rq in itertools.product((None, 0.3), (None, 0.2), (1.0, 0.5), (1.0, 0.6)):
                for tail in ([LOW] * 5, [HIGH] * 5, [5.0, HIGH, LOW, HIGH, HIGH]):
                    a = dict(ramp_limit_start_up=rs, ramp_limit_shut_down=rq)
                    if ru:
                        a["ramp_limit_up"] = ru
                    if rd:
                        a["ramp_limit_down"] = rd
                    h = [float(x) for x in hist] + [0.0] * (T - first)
                    for c in ("Generator", "Link"):
                        win.append(dict(first=first, c=c, a=a, load=tail, series=dict(status=h, p=[6.0 * x for x in h])))
    for first in (1, 2, 3):
        for b in optrun.batches([w for w in win if w["first"] == first], 48):
            out.append(dict(conf=dict(T=T, sns=list(range(first, T))), scen=b))
    # relaxations
    rel = [s for s in sc[::7] + dv if "p_set" not in s["a"]]
    rel = [dict(s, a=dict(s["a"], shut_down_cost=s["a"].get("start_up_cost", 2.0))) if (i // 40) % 4 != 3 or i % 2 else s for i, s in enumerate(rel)]
    if tier == "quick":
        rel = rel[::3]
    out += [dict(conf=dict(T=T), scen=b, relaxed=1) for b in optrun.batches(rel, 40)]
    return out


def tag(case):
    return core.digest(case)


def judge(r, tagp):
    def f(n, m, sub, p, spec, xs, best):
        x = dict(zip(sub.keys, xs))
        for k in sub.keys:
            if k[1] != "status":
                continue
            c, _, g, t = k
            u, v, w = x[k], x[c, "start_up", g, t], x[c, "shut_down", g, t]
            i = m.S.index(t)
            if i == 0:
                continue
            d = u - x[c, "status", g, m.S[i - 1]]
            st = n.static(c)
            if (st.at[g, "start_up_cost"] > 0 and abs(v - max(d, 0)) > 1e-4) or (st.at[g, "shut_down_cost"] > 0 and abs(w - max(-d, 0)) > 1e-4):
                r.bad(f"transition:{tagp(p)}", f"status change {d} but start_up={v} shut_down={w} at {t} in {spec}")
    return f


def relaxed(r, case, parts, names):
    """The linearised problem is a relaxation: never more expensive than the exact minimum of each part, and feasible if it is."""
    good = []
    n = optrun.network(case["conf"], parts)
    m = refopt.build(n)
    subs = optrun.split(m, [p for p, _ in parts])
    best = {}
    for p, s in parts:
        st, v, _ = subs[p].solve()
        if st == "optimal":
            best[p] = v
            good.append((p, s))

    def go(ps):
        n = optrun.network(case["conf"], ps)
        st = nets.optimize(n, linearized_unit_commitment=True)
        r.transitions += 1
        tot = sum(best[p] for p, _ in ps)
        if tuple(st) != ("ok", "optimal"):
            if len(ps) > 1:
                for q in ps:
                    go([q])
            else:
                r.bad(f"relaxed-status:{names[ps[0][0]]}", f"relaxation of a feasible problem reported {st}: {ps[0][1]}")
            return
        got = {}
        # attribute the cost part by part
        x = refopt.extract(n, refopt.build(n, relaxed_uc=True))
        mm = refopt.build(n, relaxed_uc=True)
        ss = optrun.split(mm, [p for p, _ in ps])
        for p, sp in ps:
            r.traces += 1
            xs = [x[mm.idx[k]] for k in ss[p].keys]
            mine = ss[p].value(xs)
            r.outcome([round(mine, 2)])
            if mine > best[p] + 1e-4 * max(1.0, abs(best[p])):
                r.bad(f"relaxed:{names[p]}", f"linearised unit commitment costs {mine}, more than the exact minimum {best[p]}: {sp}")
        if n.objective + n.objective_constant > tot + 1e-4 * max(1.0, abs(tot)):
            r.bad(f"relaxed-objective:{core.digest(case)}", f"linearised objective {n.objective} above the exact minimum {tot}")
    if good:
        go(good)


def run(case):
    r = core.Result()
    parts, names = [], {}
    for i, sc in enumerate(case["scen"]):
        p = f"s{i}~"
        parts.append((p, unit(sc["c"], sc["a"], sc["load"], sc.get("series"))))
        names[p] = core.digest([case["conf"], sc, case.get("relaxed")])
        r.state([case["conf"], sc])
    if case.get("relaxed"):
        relaxed(r, case, parts, names)
    else:
        optrun.solve_parts(r, case["conf"], parts, lambda p: names[p], judge=judge(r, lambda p: names[p]))
    r.sample = case["scen"][0]
    return r
