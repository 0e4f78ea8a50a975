"""V01 - graph_polyhedron: the drawn region against Polygon.tla."""
from math import gcd
from vf import lpgen, lpio
from vf.gen import rng

TRACE_MODULE = "TracePolygon"
RULE = "programs with two variables and up to 12 constraints of one direction: random half-planes, through the origin, parallel, concurrent and redundant lines, regions that are empty, a point, a segment, bounded or cut by the limit, all sign restrictions, integer and decimal data, several limits; and programs of unsupported form"
ASSUMPTIONS = ["the picture is the filled polygon (and outline) matplotlib is given; the window is not opened", "an empty region may be reported by any exception, by exiting or by drawing nothing"]
CFG = 'SPECIFICATION Spec\nCONSTANTS M = %d\nG = %d\nNeg = %d\nPos = %d\nRels = %s\nSigns = %s\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n'


def design(ctx):
    ctx.tlc("MCPolygon", CFG % (1, 2, 1, 2, '{"<=", ">="}', '{"+", "-", "f"}'))
    if not ctx.quick:
        ctx.tlc("MCPolygon", CFG % (2, 2, 1, 1, '{"<="}', '{"+", "-", "f"}'), timeout=2000)
        ctx.tlc("MCPolygon", CFG % (2, 1, 1, 2, '{"<=", ">="}', '{"+", "f"}'), timeout=3000, heap="8g")


def cases(ctx):
    r = rng(ctx, "poly")
    out = []
    for _ in range(ctx.pick(1500, 20000)):
        if r.random() < .08:
            p = lpgen.program(r, n=r.choice([1, 2, 2, 3]), sef=False)
            out.append({"p": p, "g": 10, "how": "name", "arrays": 0})
            continue
        m = r.choice([1, 2, 2, 3, 3, 4, 5, 6] * 3 + [9, 12])
        s = r.choice([1, 1, 1, 2, 4, 10, 100])
        a = r.choice([1, 2, 3, 5, 12])
        kind = r.choice(["any", "any", "origin", "parallel", "round", "round", "concurrent", "thin", "empty", "near"])
        up = r.random() < .5
        A, b = [], []
        pt = [r.randint(-4, 4), r.randint(-4, 4)]
        base = [r.randint(-a, a), r.randint(1, a)]
        big = r.choice([20, 50, 100, 200]) if kind == "near" else 0
        for k in range(m):
            row = [r.randint(-a, a), r.randint(-a, a)]
            if kind in ("parallel", "thin") and r.random() < .6:
                f = r.choice([1, -1, 2, -2])
                row = [f * v for v in base]
            t = r.randint(-3 * a, 8 * a)
            if kind == "near":                       # lines that pass a point at the distance of a few units of 1/big
                row = [big * r.randint(-1, 1), big * r.randint(-1, 1)]
                t = row[0] * pt[0] + row[1] * pt[1] + r.choice([-1, 0, 0, 1, 1, 2, 3]) * (1 if up else -1) * r.choice([1, 1, 5])
            if kind == "origin":
                t = r.choice([0, 0, 0, t])
            elif kind == "round":                    # the point is inside
                t = row[0] * pt[0] + row[1] * pt[1] + r.randint(0, 4 * a) * (1 if up else -1)
            elif kind in ("concurrent", "thin"):
                t = row[0] * pt[0] + row[1] * pt[1] + (r.randint(0, 2 * a) * (1 if up else -1) if r.random() < .2 else 0)
            A.append(row)
            b.append(t)
        if kind == "empty" and m > 1:
            A[-1] = [-v for v in A[0]]
            b[-1] = -b[0] + (-1 if up else 1) * r.randint(0, 3)
        out.append({"p": {"m": m, "n": 2, "s": s, "A": A, "b": b, "c": [1, 1], "z": 0, "obj": r.choice(["max", "min"]), "rel": ["<=" if up else ">="] * m, "sgn": [r.choice("++-ff"), r.choice("++-ff")]},
                    "g": r.choice([1000, 1000, 1000, 10, 5, 1, -10, 0] + [30000, 10 ** 6] * (kind != "near")), "how": r.choice(["pos", "name"]), "arrays": r.randint(0, 1)})
        if out[-1]["g"] == 1000 and r.random() < .6:
            out[-1]["how"] = "default"
    return out


def walk(xy):
    """The closed walk through the given points as [x, y, d] triples, repetitions removed; None if not rational."""
    w = []
    for pt in xy:
        v = lpio.snap(pt, 5000, tol=1e-9, cap=10 ** 7)
        if v["k"] != "vec":
            return None
        x, y, d = v["num"] + [v["den"]]
        f = gcd(gcd(abs(x), abs(y)), d)
        t = [x // f, y // f, d // f]
        if not w or w[-1] != t:
            w.append(t)
    while len(w) > 1 and w[0] == w[-1]:
        w.pop()
    return w


def execute(case):
    import contextlib
    import io
    from matplotlib import pyplot as plt
    plt.show = lambda *a, **k: None
    plt.close("all")
    prog = lpio.make(case["p"], arrays=bool(case["arrays"]))
    before, text = lpio.read(prog, case["p"]["s"]), str(prog)
    twin = prog.copy()
    args, kw = {"pos": ([case["g"]], {}), "name": ([], {"graph_limit": case["g"]}), "default": ([], {})}[case["how"]]
    k = "ok"
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            prog.graph_polyhedron(*args, **kw)
        except SystemExit:
            k = "exit"
        except Exception:
            k = "exc"
    shown, walks, lines = 0, [], 1
    for f in plt.get_fignums():
        for ax in plt.figure(f).axes:
            ps = [walk(p.get_xy()) for p in ax.patches]
            shown += len(ps)
            walks += ps
            for ln in ax.lines:
                w = walk(ln.get_xydata())
                if ps and (w is None or sorted(w) != sorted(ps[0] or []) or len(w) > 2 and not same(w, ps[0])):
                    lines = 0
    plt.close("all")
    w = walks[0] if walks and walks[0] is not None else []
    return {"k": k, "shown": shown, "walk": w, "lines": lines, "same": int(lpio.read(prog, case["p"]["s"]) == before and str(prog) == text and prog == twin)}


def same(u, v):
    k = next((i for i, t in enumerate(v) if t == u[0]), None)
    return k is not None and (v[k:] + v[:k] == u or (v[k::-1] + v[:k:-1]) == u)


def record(case, obs):
    base = {"p": case["p"], "g": abs(case["g"])}
    if "crash" in obs:
        return dict(base, k=obs["crash"], shown=0, walk=[], lines=1, same=1)
    return dict(base, **obs)


def coverage(done):
    n = {}
    for _, o in done:
        c = o.get("k", "crash") + ":" + str(min(len(o.get("walk", [])), 6)) + " corners"
        n[c] = n.get(c, 0) + 1
    return n


def canaries():
    p = {"m": 2, "n": 2, "s": 2, "A": [[1, 1], [1, -1]], "b": [4, 0], "c": [1, 1], "z": 0, "obj": "max", "rel": ["<=", "<="], "sgn": ["+", "+"]}
    w = [[0, 0, 1], [2, 2, 1], [0, 4, 1]]

    def rec(walk=w, k="ok", shown=1, lines=1, same=1, p=p, g=10):
        return {"p": p, "g": g, "k": k, "shown": shown, "walk": walk, "lines": lines, "same": same}
    f = dict(p, sgn=["f", "f"])
    sq = [[-3, -3, 1], [2, 2, 1], [1, 3, 1], [-3, 3, 1]]
    return [(rec(w[:2]), "corners"), (rec(w + [[1, 1, 1]]), "corners"), (rec(w + [[0, 0, 1]]), "order"), (rec(k="exc"), "outcome-exc"), (rec(shown=0), "drawn"), (rec(lines=0), "outline"), (rec(same=0), "altered"),
            (rec(p=dict(p, rel=["<=", ">="])), "accepted"), (rec(p=dict(p, b=[-1, 0])), "empty"), (rec(p=f), "corners"), (rec([sq[0], sq[2], sq[1], sq[3]], p=f, g=3), "order"), (rec([[0, 0, 1], [1, 1, 1], [0, 4, 1]]), "corners")]
