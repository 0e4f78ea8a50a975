"""Random graphs (as id data) and their construction in the real library."""
from vf.gen import attempt


def shapes(r, n, dir_, dens=None):
    """Arc list (pairs of ids 1..n) of a structured random graph."""
    pairs = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if a != b and (dir_ or a < b)]
    k = r.random()
    if n > 4 and dens is None and r.random() < .12:  # pieces of different kinds and sizes
        cuts = sorted(r.sample(range(1, n), r.choice([1, 1, 2]))) + [n]
        out, lo = [], 0
        for hi in cuts:
            p = list(range(lo + 1, hi + 1))
            z = r.choice(["tree", "path", "cycle", "cycle", "all", "none"])
            if z == "tree":
                out += [(r.choice(p[:q]), p[q]) for q in range(1, len(p))]
            elif z in ("path", "cycle"):
                out += list(zip(p, p[1:])) + ([(p[-1], p[0])] if z == "cycle" and len(p) > 2 else [])
            elif z == "all":
                out += [(a, b) for a in p for b in p if a < b]
            lo = hi
    elif k < .5:
        p = dens if dens is not None else r.choice([0, .15, .3, .5, .8, 1])
        out = [x for x in pairs if r.random() < p]
    elif k < .65:                                   # forest
        out = [(r.randint(1, v - 1), v) for v in range(2, n + 1) if r.random() < .85]
    elif k < .75:                                   # cycle(s)
        cut = r.randint(1, n)
        out = []
        for grp in (range(1, cut + 1), range(cut + 1, n + 1)):
            grp = list(grp)
            if len(grp) >= 3:
                out += [(grp[i], grp[(i + 1) % len(grp)]) for i in range(len(grp))]
    elif k < .85:                                   # two clusters
        cut = r.randint(1, n)
        out = [(a, b) for a, b in pairs if (a <= cut) == (b <= cut) and r.random() < .7]
    elif k < .9:                                     # as many edges as a spanning tree, connected or not
        r.shuffle(pairs)
        out = pairs[:n - 1 + r.choice([-1, 0, 0, 0, 1])] if n else []
    else:                                           # star / path
        perm = list(range(1, n + 1))
        r.shuffle(perm)
        out = [(perm[0], x) for x in perm[1:]] if r.random() < .5 else list(zip(perm, perm[1:]))
    ren = list(range(1, n + 1))
    r.shuffle(ren)
    out = [(ren[a - 1], ren[b - 1]) for a, b in out]
    if not dir_:
        out = [(a, b) if r.random() < .5 else (b, a) for a, b in out]
    else:
        out = [(a, b) if r.random() < .7 else (b, a) for a, b in out]
    seen, res = set(), []
    for a, b in out:
        key = (a, b) if dir_ else (min(a, b), max(a, b))
        if key not in seen:
            seen.add(key)
            res.append([a, b])
    r.shuffle(res)
    return res


def num(w, s):
    return w // s if w % s == 0 else w / s


def warm(r, case, p=.35):
    """Gives a case (with probability p) another graph to be built and asked first, and then edited into the case's graph."""
    if r.random() >= p or case["n"] < 2:
        return case
    D, n = case["dir"], case["n"]
    key = (lambda a, b: (a, b)) if D else (lambda a, b: (min(a, b), max(a, b)))
    arcs = {key(a[0], a[1]): (a[2] if len(a) > 2 else 0) for a in case["arcs"]}
    vw = list(case.get("vw") or [0] * n)
    gone = []
    for _ in range(r.choice([1, 1, 2, 3])):
        have = sorted(arcs)
        free = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if a != b and (D or a < b) and (a, b) not in arcs and a not in gone and b not in gone]
        k = r.choice(["swap", "swap", "drop", "add", "flip", "weights", "trade", "vweights", "vertex"])
        if k == "swap" and have and free:
            w = arcs.pop(r.choice(have))
            arcs[r.choice(free)] = w
        elif k == "drop" and have:
            del arcs[r.choice(have)]
        elif k == "add" and free:
            arcs[r.choice(free)] = r.choice([0, 1, 2, 5])
        elif k == "flip" and D and have:
            a, b = r.choice(have)
            if (b, a) not in arcs:
                arcs[(b, a)] = arcs.pop((a, b))
        elif k == "weights" and have:
            for x in have:
                if r.random() < .5:
                    arcs[x] = r.choice([0, 1, 2, 5, 9])
        elif k == "trade" and len(have) > 1:            # the same weights on other edges: all sums are kept
            ws = [arcs[x] for x in have]
            ws = ws[1:] + ws[:1]
            arcs.update(zip(have, ws))
        elif k == "vweights":
            r.shuffle(vw) if r.random() < .5 else vw.__setitem__(r.randrange(n), r.choice([0, 1, 2, 4]))
        elif k == "vertex" and len(gone) < n - 1:
            v = r.choice([x for x in range(1, n + 1) if x not in gone])
            gone.append(v)
            for x in have:
                if v in x:
                    del arcs[x]
    return dict(case, warm={"arcs": [[a, b, w] for (a, b), w in sorted(arcs.items())], "vw": vw, "gone": gone,
                            "order": r.randrange(1000), "again": int(r.random() < .3), "how": r.choice([0, 2])})


def warmed(case, names, ask):
    """The case's graph, edited out of the case's other graph after that one has been asked."""
    import random
    wm, D, n, s = case["warm"], bool(case["dir"]), case["n"], case.get("s", 1)
    nm = lambda k: names[k - 1]
    gone = set(wm["gone"])
    from pytimize.graphs import DirectedGraph, UndirectedGraph
    g = (DirectedGraph if D else UndirectedGraph)(**{"arcs" if D else "edges": {(nm(a), nm(b)): num(w, s) for a, b, w in wm["arcs"]},
                                                     "nodes" if D else "vertices": {nm(k): num(wm["vw"][k - 1], s) for k in range(1, n + 1) if k not in gone}}) \
        if wm["how"] == 0 else build(dict(case, how=2, arcs=wm["arcs"], vw=wm["vw"], warm=None, gone=gone), names)
    ask(g)
    key = (lambda a, b: (a, b)) if D else (lambda a, b: (min(a, b), max(a, b)))
    have = {key(a, b): (a, b, w) for a, b, w in wm["arcs"]}
    want = {key(a[0], a[1]): (a[0], a[1], a[2] if len(a) > 2 else 0) for a in case["arcs"]}
    vw = case.get("vw") or [0] * n
    ops = [("rm",) + have[x] for x in have if x not in want] + [("add",) + want[x] for x in want if x not in have] + \
          [("set",) + want[x] for x in want if x in have and have[x][2] != want[x][2]]
    random.Random(wm["order"]).shuffle(ops)
    ops += [("new", v) for v in sorted(gone)] + [("vw", v) for v in range(1, n + 1) if v in gone or wm["vw"][v - 1] != vw[v - 1]]
    for k, o in enumerate(ops):
        if o[0] == "rm":
            (g.remove_arc if D else g.remove_edge)((nm(o[1]), nm(o[2])))
        elif o[0] == "add":
            (g.add_arc if D else g.add_edge)((nm(o[1]), nm(o[2])), num(o[3], s))
        elif o[0] == "set":
            (g.set_arc_weight if D else g.set_edge_weight)((nm(o[1]), nm(o[2])), num(o[3], s))
        elif o[0] == "new":
            if not (g.has_node if D else g.has_vertex)(nm(o[1])):
                (g.add_node if D else g.add_vertex)(nm(o[1]))
        else:
            (g.set_node_weight if D else g.set_vertex_weight)(nm(o[1]), num(vw[o[1] - 1], s))
        if wm["again"] and k + 1 < len(ops):
            ask(g)
    return g


def build(case, names, ask=None):
    """Builds case = {dir, n, arcs: [[a,b(,w)]], s, vw (optional vertex weights), how} in the library."""
    if case.get("warm"):
        return warmed(case, names, ask)
    gone = case.get("gone", ())
    from pytimize.graphs import DirectedGraph, UndirectedGraph
    nm = lambda k: names[k - 1]
    s = case.get("s", 1)
    vw = case.get("vw") or [0] * case["n"]
    arcs = [(a[0], a[1], num(a[2], s) if len(a) > 2 else 0) for a in case["arcs"]]
    how = case.get("how", 0)
    D = bool(case["dir"])
    cls = DirectedGraph if D else UndirectedGraph
    verts = {nm(k + 1): num(w, s) for k, w in enumerate(vw)}
    if how == 0:
        kw = {"arcs" if D else "edges": {(nm(a), nm(b)): w for a, b, w in arcs}, "nodes" if D else "vertices": verts}
        return cls(**kw)
    if how == 1:
        adj = {nm(k): set() for k in range(1, case["n"] + 1)}
        for a, b, _ in arcs:
            adj[nm(a)].add(nm(b))
        g = cls(graph=adj)
        for a, b, w in arcs:
            (g.set_arc_weight if D else g.set_edge_weight)((nm(a), nm(b)), w)
    else:
        # edits, including elements that are removed again
        g = cls()
        have = {(a, b) if D else frozenset((a, b)) for a, b, _ in arcs}
        extra = []
        for t in range(1, case["n"]):
            key = (t, t + 1) if D else frozenset((t, t + 1))
            if key not in have:
                extra.append((t, t + 1))
        extra = [x for x in extra if x[0] not in gone and x[1] not in gone][:case.get("extra", 2)]
        for a, b in extra:
            (g.add_arc if D else g.add_edge)((nm(a), nm(b)), 3)
        for a, b, w in arcs:
            (g.add_arc if D else g.add_edge)((nm(a), nm(b)), w)
        for a, b in extra:
            (g.remove_arc if D else g.remove_edge)((nm(b), nm(a)) if not D and how == 3 else (nm(a), nm(b)))
        for k in range(1, case["n"] + 1):
            if k not in gone and not (g.has_node(nm(k)) if D else g.has_vertex(nm(k))):
                (g.add_node if D else g.add_vertex)(nm(k))
    for k in range(1, case["n"] + 1):
        if k in gone:
            continue
        (g.set_node_weight if D else g.set_vertex_weight)(nm(k), verts[nm(k)])
    return g


def arcs_of(g, ids, D):
    return [[ids.get(a, 0), ids.get(b, 0)] for a, b in (g.arcs if D else g.edges)]


__all__ = ["shapes", "num", "build", "arcs_of", "attempt", "warm"]


def min_cut(case, a, b):
    """One side of a minimum a-b cut (a witness; the specification recomputes its capacity)."""
    n = case["n"]
    res = [[0] * (n + 1) for _ in range(n + 1)]
    for u, v, w in case["arcs"]:
        res[u][v] += w
    while True:
        par, todo = {a: 0}, [a]
        while todo and b not in par:
            u = todo.pop(0)
            for v in range(1, n + 1):
                if v not in par and res[u][v] > 0:
                    par[v] = u
                    todo.append(v)
        if b not in par:
            return sorted(par)
        d, v = None, b
        while par[v]:
            d = res[par[v]][v] if d is None else min(d, res[par[v]][v])
            v = par[v]
        v = b
        while par[v]:
            res[par[v]][v] -= d
            res[v][par[v]] += d
            v = par[v]
