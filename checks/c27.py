"""C27: options changed in a scope are always restored."""
import itertools
from mc import core, nets

ID = "C27"
HS = [0]
TECHNIQUE = "exhaustive exploration of all histories up to a depth of set/read/reset/enter/leave/raise operations on the real option tree, in lockstep with a stack model, reading every option after every operation"
RULE = "after every operation every option reads as the stack model says, through attribute access, item paths and the statistics defaults; leaving a scope normally, by an exception or by a generator being closed restores the values from before it"
ASSUMPTIONS = ["scopes are properly nested, as with-statements are"]
R, N, D, W = "params.statistics.round", "params.statistics.nice_names", "params.statistics.drop_zero", "warnings.components_store_iter"
DEFAULT = {R: 5, N: True, D: True, W: True}
OPS = {
    "set_r": ["set", R, 3], "set_n": ["attr", N, False], "set_r_none": ["attr", R, None], "set_w": ["set", W, 0],
    "ctx_r": ["enter", [[R, 2]]], "ctx_rn": ["enter", [[R, 7], [N, False]]], "ctx_twice": ["enter", [[R, 8], [R, 9]]], "ctx_none": ["enter", []], "ctx_same": ["enter", [[N, True], [D, None]]],
    "ctx_bad": ["enterbad", [[R, 4], ["params.statistics.nope", 1]]], "ctx_bad2": ["enterbad", [["nope", 1], [R, 4]]], "ctx_odd": ["enterodd", [R]], "ctx_cat": ["enterbad", [[N, False], ["params.statistics", 1]]],
    "leave": ["leave"], "raise": ["raise"],
    "reset": ["reset"], "reset_sub": ["resetsub"],
    "bad_path": ["bad", "set", "params.nope.round"], "bad_attr": ["bad", "attr", "params.statistics.nope"], "bad_cat": ["bad", "attr", "params.statistics"], "bad_get": ["bad", "get", "params.statistics"], "bad_leaf": ["bad", "set", "params.statistics.round.x"],
}
NAMES = list(OPS)


def BOUNDS(tier):
    return f"all histories of up to {4 if tier == 'quick' else 5} of {len(OPS)} operations with every open scope closed at the end by leaving and by raising, and all nestings of up to {3 if tier == 'quick' else 4} scopes around a statistics call"


def cases(tier):
    for a in NAMES:
        if tier == "quick":
            yield dict(k="hist", first=[a], d=4)
        else:
            for b in NAMES:
                yield dict(k="hist", first=[a, b], d=5)
    yield dict(k="stats", d=3 if tier == "quick" else 4)


def read(o):
    out = {}
    for p in DEFAULT:
        v = o.get_option(p)
        node = o
        for part in p.split("."):
            node = getattr(node, part)
        out[p] = v if v is node or v == node else ("differs", v, node)
    return out


def attr(o, path, v):
    *h, leaf = path.split(".")
    for x in h:
        o = getattr(o, x)
    setattr(o, leaf, v)


def history(r, o, ctx, seq):
    o.reset_all()
    cur, stack = dict(DEFAULT), []
    ok = True

    def check(what):
        nonlocal ok
        got = read(o)
        r.transitions += 1
        if got != cur:
            r.bad(what, f"{seq}: after {what} options are { {k: v for k, v in got.items() if cur[k] != v} }, expected { {k: v for k, v in cur.items() if got[k] != v} }")
            ok = False

    for name in seq:
        op = OPS[name]
        if op[0] == "set":
            o.set_option(op[1], op[2])
            cur[op[1]] = op[2]
        elif op[0] == "attr":
            attr(o, op[1], op[2])
            cur[op[1]] = op[2]
        elif op[0] == "enter":
            cm = ctx(*[x for p in op[1] for x in p])
            before = dict(cur)
            cm.__enter__()
            # a scope restores the options it names
            stack.append((cm, (before, [p for p, _ in op[1]])))
            for p, v in op[1]:
                cur[p] = v
        elif op[0] in ("enterbad", "enterodd"):
            try:
                with ctx(*([x for p in op[1] for x in p] if op[0] == "enterbad" else op[1])):
                    r.bad(name, f"{seq}: invalid scope {op[1]} accepted")
            except (AttributeError, ValueError):
                pass
        elif op[0] in ("leave", "raise"):
            if not stack:
                return
            cm, (before, named) = stack.pop()
            if op[0] == "leave":
                cm.__exit__(None, None, None)
            else:
                e = RuntimeError("inside")
                try:
                    if cm.__exit__(RuntimeError, e, None):
                        r.bad("swallow", f"{seq}: the scope swallowed an exception")
                except RuntimeError:
                    pass
            for p in named:
                cur[p] = before[p]
        elif op[0] == "reset":
            o.reset_all()
            cur = dict(DEFAULT)
        elif op[0] == "resetsub":
            o.params.statistics.reset_all()
            cur.update({k: v for k, v in DEFAULT.items() if k.startswith("params.statistics")})
        elif op[0] == "bad":
            try:
                if op[1] == "set":
                    o.set_option(op[2], 1)
                elif op[1] == "attr":
                    attr(o, op[2], 1)
                else:
                    o.get_option(op[2])
                r.bad(name, f"{seq}: {op[2]} accepted")
            except AttributeError:
                pass
        check(name)
        if not ok:
            break
    while stack and ok:
        cm, (before, named) = stack.pop()
        cm.__exit__(None, None, None)
        for p in named:
            cur[p] = before[p]
        check("the end")
    o.reset_all()
    r.state(core.digest([cur, len(stack), seq[-1]]))


def run(case):
    r = core.Result()
    o, ctx = nets.pypsa.options, nets.pypsa.option_context
    try:
        if read(o) != DEFAULT:
            r.bad("default", f"defaults are {read(o)}, documented {DEFAULT}")
        if case["k"] == "hist":
            f = tuple(case["first"])
            for d in range(case["d"] - len(f) + 1):
                for rest in itertools.product(NAMES, repeat=d):
                    history(r, o, ctx, f + rest)
                    r.traces += 1
            r.outcome(f[0])
            return r
        # what the options are for: defaults of the statistics
        n = nets.new(snapshots=[0])
        n.add("Carrier", ["gas", "zero"], nice_name=["Gas!", "Zero!"])
        n.add("Bus", "b")
        n.add("Generator", "g", bus="b", carrier="gas", p_nom=1.23456789)
        n.add("Generator", "z", bus="b", carrier="zero", p_nom=0.0)

        def observe():
            s = n.statistics.installed_capacity()
            return sorted((str(k[-1]), float(v)) for k, v in s.items())

        def predict(cur):
            rows = [("gas", 1.23456789), ("zero", 0.0)]
            if cur[D]:
                rows = rows[:1]
            return sorted((({"gas": "Gas!", "zero": "Zero!"}[k] if cur[N] else k), round(v, cur[R])) for k, v in rows)

        scopes = [[], [R, 2], [N, False], [D, False], [R, 3, N, False], [D, False, R, 0], [N, True, D, True]]
        for seq in itertools.product(scopes, repeat=case["d"]):
            o.reset_all()
            cur, stack = dict(DEFAULT), []
            for s in seq:
                cm = ctx(*s)
                cm.__enter__()
                stack.append((cm, dict(cur)))
                cur.update(dict(zip(s[::2], s[1::2])))
                if observe() != predict(cur):
                    r.bad("statistics", f"{seq}: statistics {observe()}, expected {predict(cur)}")
                r.transitions += 1
            while stack:
                cm, before = stack.pop()
                cm.__exit__(None, None, None)
                cur = before
                if not stack and observe() != predict(cur):
                    r.bad("statistics", f"{seq}: after leaving {observe()}, expected {predict(cur)}")
            r.traces += 1
            r.state(core.digest(seq))
        return r
    finally:
        o.reset_all()
