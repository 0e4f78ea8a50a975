"""G08 - residual graphs against UGraphOps!ResidualCap."""
from vf.gen import attempt, name_table, rng
from vf.graphs import build, warm
from vf.lpio import lattice
from drivers.G07 import BAD, network, snapshot

TRACE_MODULE = "TraceFlow"
RULE = "capacitated digraphs up to 12 nodes x arbitrary arc flows (not only conserved ones): partial, zero, saturating, exceeding, negative, on unknown arcs; negative capacities; chains of residuals on one graph"
ASSUMPTIONS = ["capacities and flows are multiples of 1/s, s in {1, 2, 10, 100, 4096, 100000}", "capacities up to 1000000/s", "weights of the result are read from its dictionary of arcs (no public getter exists); its node set is not claimed"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nCaps = %s\nMaxArcs = %d\nINVARIANTS Safe Residual\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCMaxFlow", cfg % (3, "{0, 1, 2}", 6))
    if not ctx.quick:
        ctx.tlc("MCMaxFlow", cfg % (4, "{1, 3}", 5), timeout=1500, heap="8g")


def cases(ctx):
    r = rng(ctx, "residual")
    out = []
    for _ in range(ctx.pick(1200, 12000)):
        n, arcs = network(r)
        if r.random() < .3:                          # large capacities, nearly saturated or nearly unused
            arcs = [[a, b, r.choice([10 ** 6, 999983, 500000, 10 ** 4, 4097, c])] for a, b, c in arcs]
        if r.random() < .06 and arcs:
            arcs[r.randrange(len(arcs))][2] = -r.randint(1, 3)
        names = name_table(r, n + 1)
        if r.random() < .5:
            r.shuffle(names)
        flows = []
        for _ in range(r.randint(1, 4)):
            f = []
            for a, b, c in arcs:
                if r.random() < .8:
                    f.append([a, b, r.choice([0, max(c, 0), max(c, 0), max(c - 1, 0), min(1, max(c, 0)), r.randint(0, max(c, 0)), r.randint(0, max(c, 0))])])
            z = r.random()
            if z < .06 and f:
                f[r.randrange(len(f))][2] = -r.randint(1, 2)
            elif z < .12 and f:
                k = r.randrange(len(f))
                f[k][2] = [c for a, b, c in arcs if [a, b] == f[k][:2]][0] + 1
            elif z < .18:
                have = {(a, b) for a, b, _ in arcs}
                miss = [(a, b) for a in range(1, n + 2) for b in range(1, n + 2) if a != b and (a, b) not in have]
                if miss:
                    f.append([*r.choice(miss), r.choice([0, 1])])
            flows.append(f)
        out.append(warm(r, {"dir": 1, "n": n, "s": r.choice([1, 1, 2, 10, 100, 4096, 100000]), "arcs": arcs, "names": names, "how": 0 if any(c < 0 for _, _, c in arcs) else r.randrange(3), "extra": 2, "flows": flows}, 0 if any(c < 0 for _, _, c in arcs) else .3))
    return out


def execute(case):
    names, s = case["names"], case["s"]
    ids = {x: k + 1 for k, x in enumerate(names)}
    def ask(g):
        for f in case["flows"]:
            attempt(g.create_residual, {(names[a - 1], names[b - 1]): (w // s if w % s == 0 else w / s) for a, b, w in f})
            attempt(g.create_residual, {})
    g = build(case, names, ask)
    got = []
    for f in case["flows"]:
        flow = {(names[a - 1], names[b - 1]): (w // s if w % s == 0 else w / s) for a, b, w in f}
        given = dict(flow)
        before, nodes = snapshot(g, ids, s), sorted(g.nodes)
        k, v = attempt(g.create_residual, flow)
        o = {"k": k, "v": 0, "out": [], "same": int(before == snapshot(g, ids, s) and nodes == sorted(g.nodes) and flow == given)}
        if k == "ok":
            for (a, b), w in v._arcs.items():
                x = lattice(w, s)
                o["out"].append([ids.get(a, 0), ids.get(b, 0), BAD if x is None else x])
            if sorted(v._arcs) != sorted(v.arcs) or v is g:
                o["out"].append([0, 0, 0])
        got.append(o)
    return {"runs": got}


def record(case, obs):
    recs = []
    for k, f in enumerate(case["flows"]):
        o = obs["runs"][k] if "crash" not in obs else {"k": obs["crash"], "v": 0, "out": [], "same": 1}
        recs.append({"n": case["n"], "arcs": case["arcs"], "f": "residual", "a": 0, "b": 0, "in": f, "cut": [], **o})
    return recs


def canaries():
    arcs = [[1, 2, 3], [2, 3, 2], [3, 2, 1], [1, 3, 1]]

    def rec(f, out, k="ok", same=1):
        return {"n": 4, "arcs": arcs, "f": "residual", "a": 0, "b": 0, "in": [list(x) for x in f], "cut": [], "k": k, "v": 0, "same": same, "out": [list(x) for x in out]}
    f = [(1, 2, 2), (2, 3, 2), (3, 2, 1)]
    good = [(1, 2, 1), (2, 1, 2), (2, 3, 1), (3, 2, 2), (1, 3, 1)]
    return [(rec(f, good[:-1]), "residual"), (rec(f, good[:2] + [(2, 3, 2)] + good[3:]), "residual"), (rec(f, good + [(3, 1, 0)]), "residual"),
            (rec([(1, 2, 4)], []), "rejected"), (rec([(1, 2, -1)], []), "rejected"), (rec([(2, 1, 0)], []), "rejected"), (rec(f, [], k="exc"), "outcome-exc"),
            (rec(f, good, same=0), "graph"), (rec([], good), "residual")]
