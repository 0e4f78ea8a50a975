"""G04 - shortest paths and their LP formulation, against the distances of UGraphOps.tla."""
from vf import exactlp, lpio
from vf.gen import attempt, name_table, rng
from vf.graphs import build, shapes, warm

TRACE_MODULE = "TracePath"
RULE = "weighted graphs up to 15 vertices (formulation up to 6), zero, tied and decimal weights, connected and not, every kind of endpoint pair"
ASSUMPTIONS = ["weights are nonnegative multiples of 1/s, s in {1, 2, 10, 2^20} (formulation: s up to 10)", "formulation: distinct endpoints, up to 6 vertices (it has 2^(n-2) rows)"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nW = %d\nINVARIANT Safe\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCShortestPath", cfg % (3, 3))
    ctx.tlc("MCShortestPath", cfg % (4, ctx.pick(2, 4)), timeout=1500, heap="8g")


def distance(n, arcs, a, b):
    d = {a: 0}
    for _ in range(n):
        for u, v, w in arcs:
            for x, y in ((u, v), (v, u)):
                if x in d and d[x] + w < d.get(y, 10 ** 9):
                    d[y] = d[x] + w
    return d.get(b)


def cases(ctx):
    r = rng(ctx, "paths")
    out = []
    for _ in range(ctx.pick(1500, 15000)):
        n = r.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9] * 2 + [12, 15])
        s = r.choice([1, 1, 2, 10] * 2 + [2 ** 20])
        pool = r.choice([[0, 1, 2], [1], [0, 1, 1, 3, 7, 12], list(range(0, 20)), [1, 5, 100, 1000], [4, 5, 6, 7]])
        arcs = [[a, b, r.choice(pool)] for a, b in shapes(r, n, 0)]
        if r.random() < .3:                          # lengths close to the differences of a position: many paths nearly tie
            n = max(n, 4)
            pos = [r.choice([0, 10, 20, 40, 70, 100, 150]) for _ in range(n)]
            arcs = [[a, b, max(0, abs(pos[a - 1] - pos[b - 1]) + r.choice([-2, -1, 0, 0, 1, 2]))] for a, b in shapes(r, n, 0, r.choice([.5, .8, 1]))]
        names = name_table(r, n + 1)
        if r.random() < .5:
            r.shuffle(names)
        a, b = r.randint(1, n), r.randint(1, n)
        if a == b and n > 1 and r.random() < .8:
            b = a % n + 1
        if n > 2 and a != b and r.random() < .25:    # an edge that is about as long as the way round
            arcs = [t for t in arcs if {t[0], t[1]} != {a, b}]
            d = distance(n, arcs, a, b)
            arcs.append([a, b, max(0, (d if d is not None else 5) + r.choice([-2, -1, 0, 1, 1, 2]))])
        if r.random() < .06:
            a, b = r.choice([(a, n + 1), (n + 1, b)])
        big = r.random() < .02                       # 2^n rows
        if big:
            n, a, b = r.choice([7, 8, 8]), 1, 2
            way = [1] + r.sample(range(3, n + 1), n - 2) + [2]
            if r.random() < .6:
                way = way[:1] + r.sample(way[1:], n - 1)
            pairs = {tuple(sorted(t)) for t in zip(way, way[1:])} | {tuple(sorted(r.sample(range(1, n + 1), 2))) for _ in range(r.choice([0, 1, 3]))}
            arcs = [[u, v, r.choice(pool)] for u, v in sorted(pairs)]
            names = name_table(r, n + 1)
        out.append(warm(r, {"dir": 0, "n": n, "s": s, "arcs": arcs, "names": names, "how": r.randrange(4), "extra": r.randint(0, 3),
                    "a": a, "b": b, "form": int((n <= 6 or big) and a != b and s < 100)}))
    return out


def execute(case):
    names, s = case["names"], case["s"]
    ids = {x: k + 1 for k, x in enumerate(names)}

    def snap():
        return sorted([sorted((ids.get(a, 0), ids.get(b, 0))) + [lpio.lattice(w, s)] for (a, b), w in g.edges.items()])
    want = sorted([sorted(x[:2]) + [x[2]] for x in case["arcs"]])
    a, b = names[case["a"] - 1], names[case["b"] - 1]
    g = build(case, names, lambda g: (attempt(g.shortest_path, a, b), attempt(g.formulate_shortest_path, a, b) if case["form"] else 0))
    form = {"k": "skip", "p": {}, "w": {}}
    if case["form"] and case["a"] % 2:
        form = formulate(g, a, b, s)
    k, v = attempt(g.shortest_path, a, b)
    path = {"k": k, "p": [[ids.get(x, 0), ids.get(y, 0)] for x, y in v] if k == "ok" else []}
    if case["form"] and not case["a"] % 2:
        form = formulate(g, a, b, s)
    return {"path": path, "form": form, "same": int(snap() == want)}


def formulate(g, a, b, s):
    k, v = attempt(g.formulate_shortest_path, a, b)
    return {"k": k, "p": lpio.read(v, s) if k == "ok" else {}, "w": {}}


def record(case, obs):
    base = {"n": case["n"], "s": case["s"], "arcs": case["arcs"], "a": case["a"], "b": case["b"]}
    if "crash" in obs:
        return dict(base, path={"k": obs["crash"], "p": []}, form={"k": "skip", "p": {}, "w": {}}, same=1)
    form = dict(obs["form"])
    if form["k"] == "ok" and form["p"]["k"] == "ok":
        form["w"] = exactlp.witness(form["p"])
    return dict(base, path=obs["path"], form=form, same=obs["same"])


def canaries():
    p = {"k": "ok", "m": 2, "n": 2, "s": 2, "A": [[2, 0], [0, 2]], "b": [2, 2], "c": [3, 1], "z": 0, "obj": "min", "rel": [">=", ">="], "sgn": ["+", "+"]}

    def rec(path=((1, 2), (2, 3)), k="ok", p=p, a=1, b=3, same=1, fk="ok", w=None):
        return {"n": 4, "s": 2, "arcs": [[2, 1, 3], [2, 3, 1]], "a": a, "b": b, "path": {"k": k, "p": [list(x) for x in path]},
                "form": {"k": fk, "p": p, "w": w or (exactlp.witness(p) if fk == "ok" else {})}, "same": same}
    return [(rec(path=((2, 1), (2, 3))), "path"), (rec(path=((1, 2),)), "path"), (rec(k="exc", path=()), "path"), (rec(b=4), "path"),
            (rec(p=dict(p, c=[3, 2])), "formulation"), (rec(p=dict(p, obj="max")), "formulation"), (rec(w=exactlp.witness(dict(p, c=[3, 2]))), "formulation"),
            (rec(fk="exc"), "formulation"), (rec(same=0), "graph"), (rec(b=5, k="ok", path=()), "path")]
