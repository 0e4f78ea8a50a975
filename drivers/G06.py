"""G06 - directed graphs: edit histories against DGraph.tla."""
from vf.gen import attempt, behaviours, name_table, rng
from drivers.G01 import BAD, milli, weight

TRACE_MODULE = "TraceDGraph"
RULE = "edit/query histories: TLC behaviours of MCDGraph and seeded random histories, up to 15 nodes"
ASSUMPTIONS = ["weights and demands are multiples of 1/1000; they are read from the object's dictionaries (no public getter exists), names from the public lists"]
W = [0, 1000, 2000, 500, 3250, 10000, -1000, 1000000]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n W = {0, 1000}\n Depth = 1\n Random = FALSE\n Record = FALSE\nVIEW View\nINVARIANT WellFormed\nPROPERTIES Refusals RemovalExact\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCDGraph", cfg % 2)
    if not ctx.quick:
        ctx.tlc("MCDGraph", cfg.replace("W = {0, 1000}", "W = {0}") % 3)


def cmd(op, u=0, v=0, w=0, dk="none", d1=0, d2=0, adj=(), arcs=(), nodes=()):
    return {"op": op, "u": u, "v": v, "w": w, "dk": dk, "d1": d1, "d2": d2, "adj": [list(x) for x in adj], "arcs": [list(x) for x in arcs], "nodes": [list(x) for x in nodes]}


def random_new(r, n):
    adj, arcs, nodes = [], [], []
    if r.random() < .4:
        for x in r.sample(range(1, n + 1), r.randint(0, n)):
            pool = [y for y in range(1, n + 1) if y != x or r.random() < .02]
            adj.append([x, r.sample(pool, r.randint(0, min(3, len(pool))))])
    if r.random() < .7:
        seen = set()
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.randint(1, n), r.randint(1, n)
            if (a, b) in seen or (a == b and r.random() > .03):
                continue
            seen.add((a, b))
            arcs.append([a, b, r.choice(W)])
    if r.random() < .5:
        nodes = [[x, r.choice(W)] for x in r.sample(range(1, n + 1), r.randint(0, n))]
    return cmd("new", adj=adj, arcs=arcs, nodes=nodes)


def refused(c):
    return any(x in ys for x, ys in c["adj"]) or any(e[0] == e[1] for e in c["arcs"])


def cases(ctx):
    out = []
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n W = {0, 1000, 500}\n Depth = %d\n Random = TRUE\n Record = TRUE\nINVARIANT WellFormed\nCHECK_DEADLOCK FALSE\n"
    for n, d, num in ((3, 12, ctx.pick(250, 2500)), (5, 25, ctx.pick(200, 2000))):
        for h in behaviours(ctx, "MCDGraph", cfg % (n, d), num, d + 3, salt=n):
            out.append({"n": n, "ops": [cmd("new")] + h})
    r = rng(ctx, "hist")
    ops = ["addarc"] * 6 + ["rmarc"] * 5 + ["setarc"] * 2 + ["addnode", "addnode", "setnode", "hasarc", "hasnode", "conns", "scribble"]
    for _ in range(ctx.pick(600, 6000)):
        n = r.choice([2, 3, 4, 5, 7, 9] * 4 + [12, 15])
        hs = [random_new(r, n)]
        if refused(hs[0]):
            hs.append(cmd("new"))
        for _ in range(r.randint(3, 30)):
            o = r.choice(ops)
            u, v = r.randint(1, n), r.randint(1, n)
            if o in ("rmarc", "setarc") and r.random() < .7:
                prev = [(c["u"], c["v"]) for c in hs if c["op"] == "addarc"] + [(a, b) for c in hs for a, b, _ in c["arcs"]]
                if prev:
                    u, v = r.choice(prev)
                    if r.random() < .15:
                        u, v = v, u
            if o == "addarc":
                dk = r.choice(["none", "none", "one", "pair", "pair", "short"])
                hs.append(cmd(o, u, v, r.choice(W), dk, r.choice(W[1:]), r.choice(W)))
            elif o == "rmarc":
                hs.append(cmd(o, u, v, r.choice([0, 1, 1])))
            else:
                hs.append(cmd(o, u, v if o in ("setarc", "hasarc") else 0, r.choice(W)))
        out.append({"n": n, "ops": hs})
    for k, c in enumerate(out):
        c["names"] = name_table(rng(ctx, k), c["n"])
    return out


def project(g, ids):
    a, n = getattr(g, "_arcs", None), getattr(g, "_nodes", None)
    w = isinstance(a, dict) and isinstance(n, dict)
    return {"nodes": [ids.get(x, 0) for x in g.nodes], "arcs": [[ids.get(x, 0), ids.get(y, 0)] for x, y in g.arcs],
            "weights": int(w),
            "n": [[ids.get(x, 0), milli(v)] for x, v in n.items()] if w else [],
            "a": [[ids.get(x, 0), ids.get(y, 0), milli(v)] for (x, y), v in a.items()] if w else []}


def execute(case):
    from pytimize.graphs import DirectedGraph
    names = case["names"]
    ids = {n: k + 1 for k, n in enumerate(names)}
    nm = lambda k: names[k - 1]
    g, ev = None, []
    for c in case["ops"]:
        o = c["op"]
        if o == "new":
            kw = {}
            if c["adj"]:
                kw["graph"] = {nm(x): {nm(y) for y in ys} for x, ys in c["adj"]}
            if c["arcs"]:
                kw["arcs"] = {(nm(a), nm(b)): weight(w) for a, b, w in c["arcs"]}
            if c["nodes"]:
                kw["nodes"] = {nm(x): weight(w) for x, w in c["nodes"]}
            k, v = attempt(DirectedGraph, **kw)
            if k == "ok":
                g, v = v, 0
                for d in kw.values():
                    for s in d.values():
                        if isinstance(s, set):
                            s.clear()
                    d.clear()
        elif o == "addarc":
            kw = {}
            if c["dk"] == "one":
                kw["demands"] = weight(c["d1"])
            elif c["dk"] == "pair":
                kw["demands"] = (weight(c["d1"]), weight(c["d2"]))
            elif c["dk"] == "short":
                nodes = set(g.nodes)
                # a 1-tuple is malformed only when both endpoints are new; elsewhere use the number itself
                kw["demands"] = (weight(c["d1"]),) if nm(c["u"]) not in nodes and nm(c["v"]) not in nodes else weight(c["d1"])
            k, v = attempt(g.add_arc, (nm(c["u"]), nm(c["v"])), weight(c["w"]), **kw)
        elif o == "addnode":
            k, v = attempt(g.add_node, nm(c["u"]), weight(c["w"]))
        elif o == "rmarc":
            k, v = attempt(g.remove_arc, (nm(c["u"]), nm(c["v"])), *([True] if c["w"] == 1 else []))
        elif o == "setarc":
            k, v = attempt(g.set_arc_weight, (nm(c["u"]), nm(c["v"])), weight(c["w"]))
        elif o == "setnode":
            k, v = attempt(g.set_node_weight, nm(c["u"]), weight(c["w"]))
        elif o == "hasarc":
            k, v = attempt(g.has_arc, (nm(c["u"]), nm(c["v"])))
            v = int(v is True) if v in (True, False) else BAD
        elif o == "hasnode":
            k, v = attempt(g.has_node, nm(c["u"]))
            v = int(v is True) if v in (True, False) else BAD
        elif o == "conns":
            k, v = attempt(g.connections, nm(c["u"]))
        else:
            g.arcs.clear()
            g.nodes.clear()
            k, v = "ok", 0
        ev.append({"ret": {"k": k, "v": v if k == "ok" and isinstance(v, int) else 0}, "live": int(g is not None),
                   "post": project(g, ids) if g is not None else {"nodes": [], "arcs": [], "weights": 0, "n": [], "a": []}})
    return {"ev": ev}


def record(case, obs):
    if "crash" in obs:
        return {"ev": [{"c": cmd("new"), "ret": {"k": obs["crash"], "v": 0}, "live": 0, "post": {}}]}
    return {"ev": [dict(e, c=c) for c, e in zip(case["ops"], obs["ev"])]}


def canaries():
    def post(n, a):
        return {"nodes": [x for x, _ in n], "arcs": [[x, y] for x, y, _ in a], "weights": 1, "n": [list(x) for x in n], "a": [list(x) for x in a]}

    def e(c, p, k="ok", v=0):
        return {"c": c, "ret": {"k": k, "v": v}, "live": 1, "post": p}
    first = e(cmd("new", arcs=[[1, 2, 1000], [2, 1, 3000]]), post([(1, 0), (2, 0)], [(1, 2, 1000), (2, 1, 3000)]))
    return [
        ({"ev": [first, e(cmd("rmarc", 1, 2, 1), post([], []))]}, "state-after-rmarc"),
        ({"ev": [first, e(cmd("rmarc", 1, 2, 1), post([(1, 0), (2, 0)], [(2, 1, 1000)]))]}, "state-after-rmarc"),
        ({"ev": [first, e(cmd("addarc", 1, 3, 0, "one", 4000), post([(1, 0), (2, 0), (3, 0)], [(1, 2, 1000), (2, 1, 3000), (1, 3, 0)]))]}, "state-after-addarc"),
        ({"ev": [first, e(cmd("addarc", 3, 4, 0, "one", 4000), post([(1, 0), (2, 0)], [(1, 2, 1000), (2, 1, 3000)]))]}, "result-of-addarc"),
        ({"ev": [first, e(cmd("conns", 1), post([(1, 0), (2, 0)], [(1, 2, 1000), (2, 1, 3000)]), v=1)]}, "result-of-conns"),
    ]
