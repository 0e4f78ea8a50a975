"""G03 - traversals and structural predicates: recorded walks replayed step by step on Traversal.tla."""
from vf.gen import attempt, name_table, rng
from vf.graphs import build, shapes, warm

TRACE_MODULE = "TraceTraversal"
RULE = "graphs up to 17 vertices (forests, cycles, clusters, random) built in four ways x bfs/dfs/rng walks from every kind of start with lexical, injective and tied orders, predicates and partition, all in one history per graph"
ASSUMPTIONS = ["order keys are total functions of the vertex name; equal keys may come in any order"]
ASKS = ["is_connected", "has_spanning_tree", "is_cyclic", "is_tree", "is_empty"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nRanks = %s\nINVARIANT Safe\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCTraversal", cfg % (4, "FALSE"))
    ctx.tlc("MCTraversal", cfg % (3, "TRUE"))
    if not ctx.quick:
        ctx.tlc("MCTraversal", cfg % (5, "FALSE"), timeout=1500, heap="8g")


def cases(ctx):
    r = rng(ctx, "traversal")
    out = []
    for _ in range(ctx.pick(1500, 15000)):
        n = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 9] * 3 + [12, 14, 17])
        arcs = [[a, b, r.choice([0, 1, 2, 5])] for a, b in (shapes(r, n, 0) if n else [])]
        names = name_table(r, n + 1)
        if r.random() < .5:
            r.shuffle(names)
        ops = []
        for _ in range(r.randint(3, 7)):
            z = r.random()
            if z < .6:
                m = r.choice(["bfs", "bfs", "dfs", "dfs", "rng", "BFS", "DFS"])
                rank = None
                if m in ("bfs", "dfs") and r.random() < .5:
                    rank = [r.randint(1, r.choice([2, 4, 50])) for _ in range(n + 1)]
                ops.append({"op": "walk", "m": m, "s": r.randint(1, n) if n and r.random() < .95 else n + 1, "rank": rank})
            elif z < .85:
                ops.append({"op": "ask", "m": r.choice(ASKS)})
            else:
                ops.append({"op": "parts"})
        for f in ASKS[:4]:
            ops.append({"op": "ask", "m": f})
        ops.append({"op": "parts"})
        out.append(warm(r, {"dir": 0, "n": n, "arcs": arcs, "vw": [r.choice([0, 0, 1, 3]) for _ in range(n)], "names": names,
                    "how": r.choice([0, 2, 3]), "extra": r.randint(0, 3), "ops": ops}))
    return out


def _whole(w):
    return int(w) if w == int(w) else -1


def execute(case):
    names = case["names"]
    ids = {x: k + 1 for k, x in enumerate(names)}
    lex = {x: k + 1 for k, x in enumerate(sorted(names))}
    def ask(g):
        for f in ASKS + ["partition"]:
            attempt(getattr(g, f))
        for x in names[:3]:
            attempt(g.bfs, x), attempt(g.dfs, x)
    g = build(case, names, ask)
    ev = []

    def snap():
        return sorted([sorted((ids.get(a, 0), ids.get(b, 0))) + [_whole(w)] for (a, b), w in g.edges.items()])
    first = snap()
    for o in case["ops"]:
        if o["op"] == "walk":
            rank = o["rank"]
            s = names[o["s"] - 1]
            if o["m"] in ("BFS", "DFS"):
                k, v = attempt(lambda: list(getattr(g, o["m"].lower())(s)))
            elif rank is None:
                k, v = attempt(lambda: list(g.traverse(s, o["m"])))
            else:
                k, v = attempt(lambda: list(g.traverse(s, o["m"], order=lambda x: rank[ids[x] - 1])))
            ev.append({"op": "begin", "m": o["m"].lower(), "s": o["s"], "rank": rank or [lex[x] for x in names]})
            if k == "ok":
                ev += [{"op": "visit", "v": ids.get(x, 0)} for x in v] + [{"op": "end"}]
            else:
                ev.append({"op": "raise"})
        elif o["op"] == "ask":
            k, v = attempt(getattr(g, o["m"]))
            if k == "ok" and not isinstance(v, (bool, int)):
                k, v = "odd", 0
            ev.append({"op": "ask", "m": o["m"], "k": k, "v": int(bool(v)) if k == "ok" else 0})
        else:
            k, v = attempt(g.partition)
            p = []
            if k == "ok":
                for h in v:
                    p.append({"v": [[ids.get(x, 0), _whole(w)] for x, w in h.vertices.items()],
                              "e": [[ids.get(a, 0), ids.get(b, 0), _whole(w)] for (a, b), w in h.edges.items()],
                              "g": [[ids.get(x, 0), [ids.get(y, 0) for y in ys]] for x, ys in h.graph.items()]})
            ev.append({"op": "parts", "m": "", "k": k, "p": p})
        ev.append({"op": "same", "m": o["op"], "k": "ok" if snap() == first else "changed"})
    return {"ev": ev}


def record(case, obs):
    base = {"n": case["n"], "arcs": case["arcs"], "vw": case["vw"]}
    if "crash" in obs:
        return dict(base, ev=[{"op": "crash", "m": obs["crash"]}])
    return dict(base, ev=obs["ev"])


def canaries():
    def rec(*ev):
        return {"n": 5, "arcs": [[1, 2, 1], [1, 3, 1], [2, 4, 2], [3, 4, 1]], "vw": [0, 0, 0, 0, 1], "ev": list(ev)}

    def walk(m, vs, s=1, rank=(1, 2, 3, 4, 5), end="end"):
        return [{"op": "begin", "m": m, "s": s, "rank": list(rank)}] + [{"op": "visit", "v": v} for v in vs] + [{"op": end}]

    def ask(m, v):
        return {"op": "ask", "m": m, "k": "ok", "v": v}
    whole = {"v": [[1, 0], [2, 0], [3, 0], [4, 0]], "e": [[1, 2, 1], [1, 3, 1], [2, 4, 2], [3, 4, 1]],
             "g": [[1, [2, 3]], [2, [1, 4]], [3, [1, 4]], [4, [3, 2]]]}
    five = {"v": [[5, 1]], "e": [], "g": [[5, []]]}
    return [(rec(*walk("bfs", [1, 3, 2, 4])), "visit-bfs"), (rec(*walk("bfs", [1, 2, 4, 3])), "visit-bfs"),
            (rec(*walk("dfs", [1, 2, 3, 4])), "visit-dfs"), (rec(*walk("dfs", [1, 2, 4])), "end-dfs"),
            (rec(*walk("bfs", [1, 2, 3, 4, 4])), "visit-bfs"), (rec(*walk("rng", [1, 2, 3, 4])), "end-rng"),
            (rec(*walk("bfs", [], s=1, end="raise")), "raise-bfs"), (rec(*walk("dfs", [], s=6)), "end-dfs"),
            (rec(*walk("bfs", [1, 2, 3, 4], rank=(1, 3, 2, 1, 1))), "visit-bfs"),
            (rec(ask("is_cyclic", 0)), "ask-is_cyclic"), (rec(ask("is_connected", 1)), "ask-is_connected"), (rec(ask("is_tree", 1)), "ask-is_tree"),
            (rec({"op": "parts", "m": "", "k": "ok", "p": [whole]}), "parts-"),
            (rec({"op": "parts", "m": "", "k": "ok", "p": [dict(whole, e=[[1, 2, 1], [1, 3, 1], [2, 4, 1], [3, 4, 1]]), five]}), "parts-")]
