"""C28: results do not depend on names, insertion order, branch direction or hash order."""
import itertools, json, os, subprocess, sys
from mc import core, nets, world

ID = "C28"
HS = [0]
TECHNIQUE = "exhaustive enumeration of renamings, insertion orders, branch orientations and hash seeds of networks with every component type x all analyses, results mapped back and compared"
RULE = ("topology, power flow, transfer and outage factors, optimisation and statistics of the renamed / reordered / reoriented network, mapped back, are those of the "
        "original; separate interpreters with different hash seeds give the same results")
ASSUMPTIONS = ["the base networks have unique optima and explicit slack generators", "transformers are reversed together with their tap side and phase shift"]
KINDS = ["pf", "lp", "milp", "qp", "invest"]
SEEDS = [0, 1, 2, 3, 5, 7, 11, 13]


def BOUNDS(tier):
    return dict(tier=tier, seeds=SEEDS, namings=list(NAMINGS), orders="adjacent transpositions and rotations per class, reversal; all permutations per class (thorough)", orientations="all subsets of branches")


NAMINGS = ["reverse", "numbers", "same", "odd", "case"]


def rename(kind, how):
    """(class, name) -> new name, for all classes except carriers' empty names."""
    sp = world.specs(kind)
    m = {}
    cls = sorted({c for c, _, _ in sp})
    for c in cls:
        ns = sorted(i for d, i, _ in sp if d == c and i != "AC")       # AC is not just a name
        for k, i in enumerate(ns):
            m[c, i] = {"reverse": f"{c[:1]}{len(ns) - k:03d}", "numbers": str(len(ns) * 3 - k * 2), "same": f"x{(k * 7) % len(ns) + (0 if len(ns) % 7 else k)}",
                       "odd": f"ü {k} {i}%-{c}.", "case": ("A" if k % 2 else "a") + str((k + 1) // 2 if k % 2 else k // 2)}[how]
        if len({m[c, i] for i in ns}) != len(ns):
            raise AssertionError((how, c))
    return m


def cases(tier):
    full = tier == "thorough"
    for kind in KINDS:
        main = kind in ("pf", "lp")
        for how in NAMINGS:
            if main or full or how in ("reverse", "same"):
                yield dict(kind=kind, naming=how)
        sp = world.specs(kind)
        cnt = {}
        for c, _, _ in sp:
            cnt[c] = cnt.get(c, 0) + 1
        yield dict(kind=kind, order=["*", "reverse"])
        for c, k in cnt.items():
            if k < 2:
                continue
            perms = [list(range(k))[::-1]]
            if main or full:
                perms += [list(range(j, k)) + list(range(j)) for j in range(1, k)]
            if kind == "pf" or full:
                for j in range(k - 1):
                    p = list(range(k))
                    p[j], p[j + 1] = p[j + 1], p[j]
                    perms.append(p)
            if full and kind == "pf" and k <= 5:
                perms = [list(p) for p in itertools.permutations(range(k))]
            if not full and kind == "lp":
                perms = perms[:2] if k > 2 else perms[:1]
            for p in perms:
                yield dict(kind=kind, order=[c, p])
        br = [i for c, i, _ in sp if c in ("Line", "Transformer")]
        subsets = [list(s) for k in range(1, len(br) + 1) for s in itertools.combinations(br, k)]
        for s in subsets:
            if full or len(s) == len(br) or len(s) == 1 and kind == "pf" or kind == "pf" and len(s) == 2:
                yield dict(kind=kind, swap=s)
        for s in SEEDS if full else SEEDS[:6] if kind == "pf" else SEEDS[:4] if main else SEEDS[1:3]:
            yield dict(kind=kind, seed=s)
        for how, sw in (("reverse", True), ("same", True), ("numbers", True)):
            yield dict(kind=kind, naming=how, swap=br, order=["*", "reverse"])


def cost(case):
    return 1 if case["kind"] == "pf" else 2


def tag(case):
    return case["kind"] + ":" + ",".join(k for k in ("naming", "order", "swap", "seed") if k in case)


REFS = {"bus": "Bus", "bus0": "Bus", "bus1": "Bus", "bus2": "Bus", "type": None, "carrier": "Carrier"}


def variant(case):
    """Specs of the variant network and the function mapping its result keys/values back."""
    kind = case["kind"]
    sp = world.specs(kind)
    m = rename(kind, case["naming"]) if "naming" in case else {}
    swap = set(case.get("swap", ()))
    out = []
    for c, i, a in sp:
        a = dict(a)
        if c in ("Line", "Transformer") and i in swap:
            a["bus0"], a["bus1"] = a["bus1"], a["bus0"]
            if c == "Transformer":
                a["tap_side"] = 1 - a.get("tap_side", 0)
                a["phase_shift"] = -a.get("phase_shift", 0.0)
        for k, d in REFS.items():
            if k == "type":
                if c == "Line" and a.get("type"):
                    a["type"] = m.get(("LineType", a["type"]), a["type"])
            elif k in a and a[k] != "":
                a[k] = m.get((d, a[k]), a[k])
        if c == "GlobalConstraint" and a["carrier_attribute"] != "co2_emissions":
            a["carrier_attribute"] = m.get(("Carrier", a["carrier_attribute"]), a["carrier_attribute"])
        out.append((c, m.get((c, i), i), a))
    if "order" in case:
        c, p = case["order"]
        if c == "*":
            out = out[::-1]
        else:
            mine = [s for s in out if s[0] == c]
            rest = [s for s in out if s[0] != c]
            out = rest + [mine[j] for j in p]
    back = {(c, v): i for (c, i), v in m.items()}
    SW = {"p0": "p1", "p1": "p0", "q0": "q1", "q1": "q0", "mu_lower": "mu_upper", "mu_upper": "mu_lower"}

    def nm(c, i):
        return back.get((c, i), i)

    def restore(res):
        r = {}
        for k, v in res.items():
            if k[0] == "topo":
                if k[1] == "parts":
                    v = sorted(sorted(nm("Bus", b) for b in p) for p in v)
                else:
                    k = (k[0], k[1], nm(k[1], k[2]))
                    v = sorted(nm("Bus", b) for b in v)
            elif k[0] == "ptdf":
                i = nm(k[1], k[2])
                v = [-x if i in swap else x for x in v]
                k = (k[0], k[1], i, nm("Bus", k[3]))
            elif k[0] == "bodf":
                i, j = nm(k[1], k[2]), nm(k[3], k[4])
                v = [-x if (i in swap) != (j in swap) else x for x in v]
                k = (k[0], k[1], i, k[3], j)
            elif k[0] == "stats":
                # (stat, component, bus[, carrier])
                # columns of statistics are carried along
                kk = list(k)
                kk[3] = nm("Bus", kk[3])
                if len(kk) > 4 and k[1] != "revenue":
                    kk[4] = nm("Carrier", kk[4])
                k = tuple(kk)
            elif len(k) > 2:
                i = nm(k[1], k[3])
                a = k[2]
                if i in swap and k[1] in ("Line", "Transformer"):
                    a = SW.get(a, a)
                    if a.startswith("mu_"):
                        v = [-x for x in v]
                k = (k[0], k[1], a, i)
            r[k] = r[k] + v if k in r else v
        return r
    return out, restore


_base = {}


def base(kind):
    if kind not in _base:
        _base[kind] = world.analyse(world.build(world.specs(kind), kind), kind, bodf=True)
    return _base[kind]


def skip_for(case):
    swap = set(case.get("swap", ()))

    def skip(k):
        # which end a branch's capacity and costs are reported at follows its direction
        if swap and k[0] == "stats" and k[2] in ("Line", "Transformer"):
            return k[1] in ("optimal_capacity", "capex", "opex")
        return False
    return skip


def run(case):
    r = core.Result()
    kind = case["kind"]
    want = base(kind)
    r.state([kind, {k: v for k, v in case.items() if k != "kind"}])
    if "seed" in case:
        env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c",
                            "import sys,os,json,logging;logging.disable(50);fd=os.dup(1);os.dup2(os.open(os.devnull,os.O_WRONLY),1)\n"
                            "from mc import world\n"
                            f"r=world.analyse(world.build(world.specs({kind!r}),{kind!r}),{kind!r},bodf=True)\n"
                            "os.write(fd,json.dumps([[list(k),v] for k,v in r.items()]).encode()) if 0 else os.fdopen(fd,'w').write(json.dumps([[list(k),v] for k,v in r.items()],default=float))"],
                           env=env, capture_output=True, text=True, timeout=250)
        if p.returncode:
            raise AssertionError("interpreter with hash seed failed: " + p.stderr[-800:])
        got = {tuple(k): v for k, v in json.loads(p.stdout)}
    else:
        specs, restore = variant(case)
        got = restore(world.analyse(world.build(specs, kind), kind, bodf=True))
    r.transitions += 1
    r.traces += 1
    d = world.differ(got, want, skip=skip_for(case))
    r.outcome([kind, tag(case), d is None])
    if d:
        what = {k: v for k, v in case.items() if k != "kind"}
        r.bad(f"{kind}:{tag(case)}:{d.split(':')[0]}", f"{kind}: {what}: {d} (original second)")
    return r
