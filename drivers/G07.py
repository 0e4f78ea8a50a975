"""G07 - maximum flows of both algorithms against MaxFlow.tla / UGraphOps.tla."""
from vf.gen import attempt, name_table, rng
from vf.graphs import build, min_cut, shapes, warm
from vf.lpio import lattice

TRACE_MODULE = "TraceFlow"
RULE = "capacitated digraphs up to 12 nodes (random, opposite pairs, layered, arcs into the source and out of the sink), several runs of both algorithms per graph with edits between"
ASSUMPTIONS = ["capacities are nonnegative multiples of 1/s, s in {1, 2, 10, 100, 3}, up to 1000000/s", "minimum cuts are enumerated up to 7 nodes; above, the check exhibits a cut of the returned value"]
BAD = -99999999


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nCaps = %s\nMaxArcs = %d\nINVARIANTS Safe Residual\nPROPERTIES Ends Progress\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCMaxFlow", cfg % (3, "{0, 1, 2}", 6))
    ctx.tlc("MCMaxFlow", cfg % ((4, "{1}", 6) if ctx.quick else (4, "{1}", 12)))
    if not ctx.quick:
        ctx.tlc("MCMaxFlow", cfg % (4, "{1, 2}", 6), timeout=1500, heap="10g")


def capacities(r):
    return r.choice([[1], [0, 1, 2], [0, 1, 1, 2, 3, 5, 8], [1, 10, 100, 1000], list(range(0, 30)), [999999, 1000000, 1, 3]])


def network(r):
    n = r.choice([2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 10, 12])
    pool = capacities(r)
    z = r.random()
    if z < .6:
        pairs = shapes(r, n, 1, r.choice([.3, .5, .5, .8]) if r.random() < .7 else None)
    elif z < .8:                                     # layered from 1 to n
        mid = list(range(2, n))
        k = max(1, len(mid) // 2)
        L, R = mid[:k], mid[k:]
        pairs = [[1, x] for x in L] + [[x, y] for x in L for y in R if r.random() < .7] + [[y, n] for y in R] + [[x, n] for x in L if not R]
    else:                                            # every pair both ways with gaps
        pairs = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b and r.random() < .6]
    have = {tuple(x) for x in pairs}
    if r.random() < .4:
        for a, b in list(have):
            if r.random() < .5:
                have.add((b, a))
    pairs = sorted(have)
    r.shuffle(pairs)
    return n, [[a, b, r.choice(pool)] for a, b in pairs]


def endpoints(r, n, z=.8):
    a, b = (1, n) if r.random() < .5 else (r.randint(1, n), r.randint(1, n))
    if a == b and r.random() < .85:
        b = a % n + 1
    if r.random() < .04:
        a, b = r.choice([(a, n + 1), (n + 1, b)])
    return a, b


def cases(ctx):
    r = rng(ctx, "flows")
    out = []
    for _ in range(ctx.pick(900, 9000)):
        n, arcs = network(r)
        names = name_table(r, n + 1)
        if r.random() < .5:
            r.shuffle(names)
        runs = []
        for _ in range(r.choice([2, 2, 3, 4])):
            a, b = endpoints(r, n)
            edits = []
            if runs and arcs and r.random() < .5:
                e = r.choice(arcs)
                edits = [[e[0], e[1], r.choice(capacities(r))]]
            runs.append({"f": r.choice(["ford_fulkerson", "preflow_push"]), "a": a, "b": b, "edits": edits})
        if r.random() < .5:
            runs.append(dict(runs[0], f="preflow_push" if runs[0]["f"] == "ford_fulkerson" else "ford_fulkerson"))
        out.append(warm(r, {"dir": 1, "n": n, "s": r.choice([1, 1, 2, 10, 100, 3, 1024, 65536, 10 ** 5]), "arcs": arcs, "names": names, "how": r.randrange(3), "extra": r.randint(0, 3), "runs": runs}, .3))
    return out


def snapshot(g, ids, s):
    return sorted([ids.get(a, 0), ids.get(b, 0), lattice(w, s)] for (a, b), w in g._arcs.items()) if isinstance(getattr(g, "_arcs", None), dict) \
        else sorted([ids.get(a, 0), ids.get(b, 0), None] for a, b in g.arcs)


def execute(case):
    names, s = case["names"], case["s"]
    ids = {x: k + 1 for k, x in enumerate(names)}
    g = build(case, names, lambda g: [attempt(getattr(g, x["f"]), names[x["a"] - 1], names[x["b"] - 1]) for x in case["runs"]])
    got = []
    for run in case["runs"]:
        for a, b, w in run["edits"]:
            g.set_arc_weight((names[a - 1], names[b - 1]), w // s if w % s == 0 else w / s)
        before, nodes = snapshot(g, ids, s), sorted(g.nodes)
        k, v = attempt(getattr(g, run["f"]), names[run["a"] - 1], names[run["b"] - 1])
        o = {"k": k, "v": 0, "out": [], "same": int(before == snapshot(g, ids, s) and nodes == sorted(g.nodes))}
        if k == "ok":
            val, flow = v
            x = lattice(val, s)
            o["v"] = BAD if x is None else x
            for (a, b), w in flow.items():
                x = lattice(w, s)
                o["out"].append([ids.get(a, 0), ids.get(b, 0), BAD if x is None else x])
        got.append(o)
    return {"runs": got}


def record(case, obs):
    arcs = [list(x) for x in case["arcs"]]
    recs = []
    for k, run in enumerate(case["runs"]):
        for a, b, w in run["edits"]:
            arcs = [[x, y, w if (x, y) == (a, b) else z] for x, y, z in arcs]
        o = obs["runs"][k] if "crash" not in obs else {"k": obs["crash"], "v": 0, "out": [], "same": 1}
        valid = 1 <= run["a"] <= case["n"] and 1 <= run["b"] <= case["n"] and run["a"] != run["b"]
        cut = min_cut(dict(case, arcs=arcs), run["a"], run["b"]) if valid and case["n"] > 7 else []
        recs.append({"n": case["n"], "arcs": arcs, "f": run["f"], "a": run["a"], "b": run["b"], "in": [], "cut": cut, **o})
    return recs


def canaries():
    arcs = [[1, 2, 3], [2, 3, 2], [3, 2, 1], [1, 3, 1]]

    def rec(out, v, a=1, b=3, k="ok", same=1, f="ford_fulkerson", n=4):
        return {"n": n, "arcs": arcs, "f": f, "a": a, "b": b, "in": [], "cut": [1, 2], "k": k, "v": v, "same": same,
                "out": [[x[0], x[1], w] for x, w in zip(arcs, out)]}
    return [(rec([2, 2, 0, 0], 2), "maximum"), (rec([2, 2, 0, 1], 2), "value"), (rec([3, 2, 0, 1], 4), "conserved"), (rec([3, 3, 0, 1], 4), "capacity"),
            (rec([2, 2, 0], 2), "arcs"), (rec([], 0, k="exc"), "outcome-exc"), (rec([0, 0, 0, 0], 0, b=1), "rejected"), (rec([2, 2, 0, 1], 3, same=0), "graph"),
            (rec([2, 2, 0, 0], 2, n=8), "maximum"), (rec([2, 3, 1, 1], 3), "capacity"), (rec([-1, 0, 1, 1], 0), "capacity")]
