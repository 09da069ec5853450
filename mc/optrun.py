"""Batched optimisation scenarios: many independent small systems as disjoint parts of one network, solved by one call of
the implementation and judged part by part against the reference problem (which decomposes into the same parts)."""
from . import core, nets, refopt


class View:
    """The part of a reference problem whose variables carry a name prefix."""

    def __init__(self, m, keys, rows):
        self.m, self.keys, self.rows = m, keys, rows

    def sub(self):
        r = refopt.Ref()
        for k in self.keys:
            i = self.m.idx[k]
            r.var(k, self.m.lb[i], self.m.ub[i], bool(self.m.int[i]))
            if k in self.m.cost:
                r.cost[k] = self.m.cost[k]
            if k in self.m.qcost:
                r.qcost[k] = self.m.qcost[k]
        r.rows = self.rows
        return r


def split(m, prefixes):
    """prefix -> reference sub-problem; rows without variables are attributed through their tag."""
    def pre(name):
        return name.split("~", 1)[0] + "~" if "~" in str(name) else ""
    keys = {p: [] for p in prefixes}
    for k in m.keys:
        keys[pre(k[2])].append(k)
    rows = {p: [] for p in prefixes}
    for e, l, h, t in m.rows:
        ps = {pre(k[2]) for k in e}
        if len(ps) > 1:
            raise AssertionError(f"scenarios not independent: {t}")
        if ps:
            rows[ps.pop()].append((e, l, h, t))
        else:
            for p in prefixes:
                if p in t:
                    rows[p].append((e, l, h, t))
    return {p: View(m, keys[p], rows[p]).sub() for p in prefixes}


def network(conf, parts, also=()):
    n = nets.new(snapshots=conf.get("snapshots", list(range(conf.get("T", 3)))), periods=conf.get("periods"),
                 weightings=conf.get("weightings"), period_weightings=conf.get("period_weightings"))
    specs = []
    seen = set()
    for p, sp in parts:
        for s in nets.prefixed(sp, p, also):
            if s[0] == "Carrier":
                if s[1] in seen:
                    continue
                seen.add(s[1])
            specs.append(s)
    return nets.bulk(n, specs)


def solve_parts(r, conf, parts, tag, also=(), hook=None, judge=None, tol=1e-4, extra=None, solve=None, **kw):
    """parts: list of (prefix, specs).  Judges every part; returns nothing, reports into r."""
    n = network(conf, parts, also)
    multi = bool(conf.get("periods"))
    losses = conf.get("losses", 0)
    sns = conf.get("sns")
    S = None if sns is None else n.snapshots[sns]
    if hook:
        hook(n)
    m = refopt.build(n, sns=S, multi=multi, losses=losses)
    if extra:            # further rows of the reference problem
        extra(n, m)
    subs = split(m, [p for p, _ in parts])
    res = {}
    for p, sub in subs.items():
        if sub.qcost:
            res[p] = sub.solve(cost={})
        else:
            res[p] = sub.solve()
        if res[p][0] not in ("optimal", "infeasible", "unbounded"):
            raise RuntimeError(f"reference: {res[p]}")
    good = [(p, s) for p, s in parts if res[p][0] == "optimal"]
    rest = [(p, s) for p, s in parts if res[p][0] != "optimal"]
    if rest and len(parts) > 1:
        # infeasible or unbounded systems one by one, the feasible ones together
        for q in rest:
            solve_parts(r, conf, [q], tag, also, hook, judge, tol, extra, solve, **kw)
        if good:
            solve_parts(r, conf, good, tag, also, hook, judge, tol, extra, solve, **kw)
        return
    args = dict(kw)
    if multi:
        args["multi_investment_periods"] = True
    if losses:
        args["transmission_losses"] = losses
    if S is not None:
        args["snapshots"] = S
    try:
        st = solve(n, args) if solve else nets.optimize(n, **args)
    except Exception as e:
        if len(parts) > 1:
            n0 = len(r.violations)
            for q in parts:
                if len(r.violations) - n0 >= 3:
                    break
                solve_parts(r, conf, [q], tag, also, hook, judge, tol, extra, solve, **kw)
            return
        if rest and "Empty LHS" in str(e):   # documented refusal of a trivially infeasible bus
            r.transitions += 1
            r.traces += 1
            return
        r.bad(f"exception:{type(e).__name__}:{tag(parts[0][0])}", f"optimize raised {type(e).__name__}: {e} for {parts[0][1]}"[:1500])
        return
    r.transitions += 1
    r.traces += len(parts)
    ok = tuple(st) == ("ok", "optimal")
    if rest:
        p = rest[0][0]
        if ok:
            r.bad(f"status:{tag(p)}", f"{res[p][0]} problem reported {st}: {rest[0][1]}")
        r.outcome([tag(p), st[1]])
        return
    if not ok:
        if len(parts) > 1:
            n0 = len(r.violations)
            for q in parts:
                if len(r.violations) - n0 >= 3:
                    break
                solve_parts(r, conf, [q], tag, also, hook, judge, tol, extra, solve, **kw)
            return
        r.bad(f"status:{tag(parts[0][0])}", f"feasible problem (minimum {res[parts[0][0]][1]}) reported {st}: {parts[0][1]}"[:1500])
        return
    x = refopt.extract(n, m)
    tot = 0.0
    spec = dict(parts)
    quad = False
    for p, sub in subs.items():
        xs = [x[m.idx[k]] for k in sub.keys]
        miss = [k for k, v in zip(sub.keys, xs) if v != v]
        if miss:
            r.bad(f"missing:{tag(p)}", f"no value reported for {miss[:5]}: {spec[p]}")
            continue
        import numpy as np
        xs = np.array(xs)
        v = sub.violations(xs, tol)
        if v:
            r.bad(f"infeasible:{v[0][0].split(':')[0]}:{tag(p)}", f"reported solution violates {len(v)} documented conditions: " + "; ".join(b for _, b in v[:4]) + f" in {spec[p]}")
        mine = sub.value(xs)
        if sub.qcost:
            quad = True
            g = sub.gradient(xs)
            s2, lo, _ = sub.solve(cost=g)
            here = float(g @ xs)
            if s2 != "optimal" or here - lo > 2e-3 * max(1.0, abs(here), abs(mine)):
                r.bad(f"suboptimal:{tag(p)}", f"quadratic problem: linearised cost {here} at the reported point, minimum {lo} ({s2}) in {spec[p]}")
            best = mine
        else:
            best = res[p][1]
            if abs(mine - best) > tol * max(1.0, abs(best)):
                r.bad(f"suboptimal:{tag(p)}", f"cost of the reported solution {mine}, minimum {best} in {spec[p]}")
        tot += best
        r.outcome([round(float(best), 2)])
        if judge:
            judge(n, m, sub, p, spec[p], xs, best)
    got = n.objective + n.objective_constant
    if abs(got - tot) > (2e-3 if quad else tol) * max(1.0, abs(tot)):
        if len(parts) > 1:
            n0 = len(r.violations)
            for q in parts:
                if len(r.violations) - n0 >= 3:
                    break
                solve_parts(r, conf, [q], tag, also, hook, judge, tol, extra, solve, **kw)
        else:
            r.bad(f"objective:{tag(parts[0][0])}", f"objective + constant = {got}, minimum of the documented total {tot}: {parts[0][1]}"[:1500])
    return n


def batches(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]
