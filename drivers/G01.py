"""G01 - undirected graphs: edit histories against UGraph.tla."""
from vf.gen import attempt, behaviours, name_table, rng

TRACE_MODULE = "TraceUGraph"
RULE = "edit/query/copy histories: TLC behaviours of MCUGraph and seeded random histories, up to 15 vertices and 4 live graphs"
ASSUMPTIONS = ["weights are multiples of 1/1000; weight setters are given nonnegative weights only"]
W = [0, 1000, 2000, 500, 3250, 10000, 125, 1000000]


def design(ctx):
    n, h, w, depth = ctx.pick((3, 1, "{0, 1000}", 1), (4, 1, "{0, 1000}", 1))
    ctx.tlc("MCUGraph", "SPECIFICATION Spec\nCONSTANTS N = %d\n H = %d\n W = %s\n Depth = %d\n Random = FALSE\n Record = FALSE\nVIEW View\nINVARIANT WellFormed\nPROPERTIES Refusals OnlyReceiver Queries\nCHECK_DEADLOCK FALSE\n" % (n, h, w, depth))
    ctx.tlc("MCUGraph", "SPECIFICATION Spec\nCONSTANTS N = 2\n H = 3\n W = {0, 1000}\n Depth = 1\n Random = FALSE\n Record = FALSE\nVIEW View\nINVARIANT WellFormed\nPROPERTIES Refusals OnlyReceiver Queries\nCHECK_DEADLOCK FALSE\n")


def new(h, adj=(), edges=(), verts=()):
    return {"op": "new", "h": h, "a": 0, "b": 0, "w": 0, "adj": [list(x) for x in adj], "edges": [list(x) for x in edges], "verts": [list(x) for x in verts]}


def cmd(op, h, a=0, b=0, w=0):
    return {"op": op, "h": h, "a": a, "b": b, "w": w, "adj": [], "edges": [], "verts": []}


def random_new(r, h, n, loops=True):
    adj = []
    if r.random() < .5:
        for x in r.sample(range(1, n + 1), r.randint(0, n)):
            pool = [y for y in range(1, n + 1) if y != x or (loops and r.random() < .02)]
            adj.append([x, r.sample(pool, r.randint(0, min(3, len(pool))))])
    edges = []
    if r.random() < .7:
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.randint(1, n), r.randint(1, n)
            if a == b and not (loops and r.random() < .03):
                continue
            edges.append([a, b, r.choice(W)])
        seen, uniq = set(), []
        for e in edges:                      # dictionary keys are unique
            if (e[0], e[1]) not in seen:
                seen.add((e[0], e[1]))
                uniq.append(e)
        edges = uniq
    verts = [[x, r.choice(W)] for x in r.sample(range(1, n + 1), r.randint(0, n))] if r.random() < .5 else []
    return new(h, adj, edges, verts)


def cases(ctx):
    out = []
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n H = 3\n W = {0, 1000, 500}\n Depth = %d\n Random = TRUE\n Record = TRUE\nINVARIANT WellFormed\nCHECK_DEADLOCK FALSE\n"
    for n, d, num in ((3, 12, ctx.pick(200, 2000)), (5, 25, ctx.pick(150, 1500))):
        for h in behaviours(ctx, "MCUGraph", cfg % (n, d), num, d + 3, salt=n):
            out.append({"n": n, "ops": [new(1)] + h})
    r = rng(ctx, "hist")
    ops = ["addedge"] * 5 + ["rmedge"] * 4 + ["addvert"] * 2 + ["setedge"] * 2 + ["setvert", "getedge", "getvert", "hasedge", "hasvert",
           "isempty", "text", "text", "scribble", "scribble", "copy", "copy", "equal", "equal"]
    for _ in range(ctx.pick(500, 6000)):
        n = r.choice([2, 3, 4, 5, 7, 9] * 4 + [12, 15])
        live = [1]
        hs = [random_new(r, 1, n)]
        for _ in range(r.randint(3, 30)):
            o = r.choice(ops)
            h = r.choice(live)
            if o == "copy":
                k = r.randint(1, 4)
                hs.append(cmd("copy", h, b=k))
                if k not in live:
                    live.append(k)
                continue
            if o == "equal":
                hs.append(cmd(o, h, b=r.choice(live)))
                continue
            if r.random() < .06:
                k = r.randint(1, 4)
                c = random_new(r, k, n)
                hs.append(c)
                ok = not any(x in ys for x, ys in c["adj"]) and not any(e[0] == e[1] for e in c["edges"])
                if ok and k not in live:
                    live.append(k)
                continue
            w = r.choice(W)
            if o in ("addedge", "addvert") and r.random() < .1:
                w = -r.choice(W[1:])
            a, b = r.randint(1, n), r.randint(1, n)
            if o in ("rmedge", "setedge") and r.random() < .6:      # aim at an edge that was added before
                prev = [c for c in hs if c["op"] == "addedge"]
                if prev:
                    c = r.choice(prev)
                    a, b = (c["a"], c["b"]) if r.random() < .5 else (c["b"], c["a"])
            hs.append(cmd(o, h, a, b, w))
        # the first construction may be refused (self-loop): then start from an empty graph
        c = hs[0]
        if any(x in ys for x, ys in c["adj"]) or any(e[0] == e[1] for e in c["edges"]):
            hs.insert(1, new(1))
        out.append({"n": n, "ops": hs})
    for k, c in enumerate(out):
        c["names"] = name_table(rng(ctx, k), c["n"])
    return out


BAD = -77777777


def milli(w):
    if isinstance(w, bool) or not isinstance(w, (int, float)):
        return BAD
    v = w * 1000
    if v != v or abs(v) > 2e9 or v != round(v):
        return BAD
    return int(round(v))


def project(h, g, ids):
    return {"h": h,
            "v": [[ids.get(x, 0), milli(w)] for x, w in g.vertices.items()],
            "e": [[ids.get(e[0], 0), ids.get(e[1], 0), milli(w)] for e, w in g.edges.items()],
            "g": [[ids.get(x, 0), sorted(ids.get(y, 0) for y in ys)] for x, ys in g.graph.items()]}


def weight(w):
    return w // 1000 if w % 1000 == 0 else w / 1000


def execute(case):
    from pytimize.graphs import UndirectedGraph
    names = case["names"]
    ids = {n: k + 1 for k, n in enumerate(names)}
    nm = lambda k: names[k - 1]
    store, ev = {}, []
    for c in case["ops"]:
        o = c["op"]
        g = store.get(c["h"])
        if o == "new":
            kw = {}
            if c["adj"]:
                d = {}
                for x, ys in c["adj"]:
                    d[nm(x)] = {nm(y) for y in ys}
                kw["graph"] = d
            if c["edges"]:
                kw["edges"] = {(nm(a), nm(b)): weight(w) for a, b, w in c["edges"]}
            if c["verts"]:
                kw["vertices"] = {nm(x): weight(w) for x, w in c["verts"]}
            k, v = attempt(UndirectedGraph, **kw)
            if k == "ok":
                store[c["h"]] = v
                v = 0
                for d in kw.values():          # the caller keeps using its own dictionaries
                    for s in d.values():
                        if isinstance(s, set):
                            s.clear()
                    d.clear()
        elif o == "addedge":
            k, v = attempt(g.add_edge, (nm(c["a"]), nm(c["b"])), weight(c["w"]))
        elif o == "rmedge":
            k, v = attempt(g.remove_edge, (nm(c["a"]), nm(c["b"])))
        elif o == "addvert":
            k, v = attempt(g.add_vertex, nm(c["a"]), weight(c["w"]))
        elif o == "setedge":
            k, v = attempt(g.set_edge_weight, (nm(c["a"]), nm(c["b"])), weight(c["w"]))
        elif o == "setvert":
            k, v = attempt(g.set_vertex_weight, nm(c["a"]), weight(c["w"]))
        elif o == "getedge":
            k, v = attempt(g.get_edge_weight, (nm(c["a"]), nm(c["b"])))
            v = milli(v) if k == "ok" else 0
        elif o == "getvert":
            k, v = attempt(g.get_vertex_weight, nm(c["a"]))
            v = milli(v) if k == "ok" else 0
        elif o == "hasedge":
            k, v = attempt(g.has_edge, (nm(c["a"]), nm(c["b"])))
            v = int(v is True) if v in (True, False) else BAD
        elif o == "hasvert":
            k, v = attempt(g.has_vertex, nm(c["a"]))
            v = int(v is True) if v in (True, False) else BAD
        elif o == "isempty":
            k, v = attempt(g.is_empty)
            v = int(v is True) if v in (True, False) else BAD
        elif o == "copy":
            k, v = attempt(g.copy)
            if k == "ok":
                store[c["b"]] = v
        elif o == "equal":
            k, v = attempt(lambda: g == store[c["b"]])
            v = int(v is True) if v in (True, False) else BAD
        elif o == "text":
            k, v = attempt(repr, g)
            lines = v.split("\n") if k == "ok" and v else []
            v = 0
        elif o == "scribble":
            for d in (g.graph, g.edges, g.vertices):
                for key, s in list(d.items()):
                    if isinstance(s, set):
                        s.add(names[0])
                        s.discard(names[-1])
                    else:
                        d[key] = 99
                d.clear()
            k, v = "ok", 0
        if o == "text":
            ev.append({"t": lines})
        else:
            ev.append({})
        ev[-1].update({"ret": {"k": k, "v": v if k == "ok" and isinstance(v, int) else 0},
                       "post": [project(h, store[h], ids) for h in sorted(store)]})
    return {"ev": ev}


def record(case, obs):
    if "crash" in obs:
        return {"ev": [{"c": cmd("isempty", 1), "ret": {"k": obs["crash"], "v": 0}, "post": []}]} if False else crash(obs)
    return {"names": case["names"], "ev": [dict(e, c=c) for c, e in zip(case["ops"], obs["ev"])]}


def crash(obs):
    return {"names": [], "ev": [{"c": new(1), "ret": {"k": obs["crash"], "v": 0}, "post": []}]}


def canaries():
    g = {"h": 1, "v": [[1, 0], [2, 0]], "e": [[1, 2, 1000]], "g": [[1, [2]], [2, [1]]]}
    first = {"c": new(1, edges=[[1, 2, 1000]]), "ret": {"k": "ok", "v": 0}, "post": [g]}

    def then(*e):
        return {"names": ["a", "b"], "ev": [first, *e]}
    rm = cmd("rmedge", 1, 2, 1)
    tx = {"c": cmd("text", 1), "ret": {"k": "ok", "v": 0}, "post": [g]}
    return [
        (then({"c": rm, "ret": {"k": "ok", "v": 0}, "post": [g]}), "state-after-rmedge"),
        (then(dict(tx, t=["a: b"])), "result-of-text"), (then(dict(tx, t=["a: b", "b: "])), "result-of-text"), (then(dict(tx, t=["a: b", "b: a", "b: a"])), "result-of-text"),
        (then({"c": rm, "ret": {"k": "exc", "v": 0}, "post": [g]}), "result-of-rmedge"),
        (then({"c": cmd("getedge", 1, 2, 1), "ret": {"k": "ok", "v": 0}, "post": [g]}), "result-of-getedge"),
        (then({"c": cmd("scribble", 1), "ret": {"k": "ok", "v": 0}, "post": [dict(g, g=[[1, []], [2, [1]]])]}), "state-after-scribble"),
        (then({"c": cmd("copy", 1, b=2), "ret": {"k": "ok", "v": 0}, "post": [g, dict(g, h=2, e=[])]}), "state-after-copy"),
    ]
