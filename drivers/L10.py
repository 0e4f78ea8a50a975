"""L10 - construction of programs against Construct.tla."""
from vf import lpio, store
from vf.gen import attempt, rng

TRACE_MODULE = "TraceConstruct"
RULE = "argument lists for linear and integer programs up to 4 x 5, a few up to 13 x 14, lists and arrays of integers and floats of all magnitudes, index lists in any order; four in ten with one or two defects (ragged, wrong rank, wrong length, unknown relation or sense, index out of range, repeated, in both lists, text)"
ASSUMPTIONS = ["at least one row and one variable; no NaN or infinite data; arguments are lists or arrays"]
VALUES = [0, 1, -1, 2, 5, -7, 10, 100, 3, 4, 12, -20, 0.5, -0.25, 0.1, 1 / 3, 2.75, -1e-3, 1e-7, -2.5e-9, 1e9, 123456789, -1e12, 1e15, 9007199254740991, 3.14159, -99.99, 1e-5]


def design(ctx):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS N = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCConstruct", cfg % 1)
    if not ctx.quick:
        ctx.tlc("MCConstruct", cfg % 2, timeout=1000)


NONE = {"k": "none", "v": []}


def case(r):
    m, n = r.choice([1, 2, 2, 3, 4]), r.choice([1, 2, 3, 3, 4, 5])
    if r.random() < .05:
        m, n = r.choice([7, 9, 11, 13]), r.choice([7, 10, 12, 14])
    pool = VALUES if r.random() < .5 else VALUES[:12]
    ids = lambda k: [VALUES.index(r.choice(pool)) + 1 for _ in range(k)]
    idx = list(range(1, n + 1))
    r.shuffle(idx)
    k1, k2 = sorted((r.randint(0, n), r.randint(0, n)))
    if r.random() < .3:
        k1 = k2 = 0
    a = {"A": {"k": "matrix", "v": [ids(n) for _ in range(m)]}, "b": {"k": "vector", "v": ids(m)}, "c": {"k": "vector", "v": ids(n)},
         "z": r.choice([1, 1, r.randint(1, len(VALUES))]), "obj": r.choice(["max", "max", "min"]),
         "rel": NONE if r.random() < .3 else {"k": "list", "v": [r.choice(["=", "=", "<=", ">="]) if r.random() < .8 else "=" for _ in range(m)]},
         "free": {"k": "list", "v": idx[:k1]} if k1 or r.random() < .5 else NONE, "neg": {"k": "list", "v": idx[k1:k2]} if k2 > k1 or r.random() < .5 else NONE}
    if r.random() < .25:
        a["rel"] = {"k": "list", "v": ["="] * m}
    for _ in range(0 if r.random() < .6 else r.choice([1, 1, 1, 2])):
        z = r.randrange(16)
        if z == 0 and m > 1 and a["A"]["k"] == "matrix":
            q = r.randrange(m)
            a["A"]["v"][q] = a["A"]["v"][q][:-1] if r.random() < .5 else a["A"]["v"][q] + [1]
        elif z == 1:
            a["A"] = {"k": r.choice(["flat", "deep", "text", "mixed", "scalar"]), "v": a["A"]["v"]}
        elif z in (2, 3):
            f = "bc"[z - 2]
            a[f] = {"k": a[f]["k"], "v": a[f]["v"][:-1] if r.random() < .5 else a[f]["v"] + [2]}
        elif z in (4, 5):
            f = "bc"[z - 4]
            a[f] = {"k": r.choice(["matrix", "text", "scalar"]), "v": a[f]["v"]}
        elif z == 6:
            a["obj"] = r.choice(["Max", "maximise", "", "MIN", "minmax", " max"])
        elif z in (7, 8):
            v = a["rel"]["v"] or ["="] * m
            a["rel"] = {"k": "list", "v": v[:-1] if r.random() < .5 else v + ["="]}
        elif z == 9:
            v = list(a["rel"]["v"] or ["="] * m)
            v[r.randrange(len(v))] = r.choice(["<", ">", "==", "", "=<", "≤", " ="])
            a["rel"] = {"k": "list", "v": v}
        elif z in (10, 11):
            f = r.choice(["free", "neg"])
            v = list(a[f]["v"]) + [r.choice([0, n + 1, -1, n + 3])]
            r.shuffle(v)
            a[f] = {"k": "list", "v": v}
        elif z in (12, 13):
            f = r.choice(["free", "neg"])
            v = list(a[f]["v"]) + [r.choice(a[f]["v"])] if a[f]["v"] else [1, 1]
            r.shuffle(v)
            a[f] = {"k": "list", "v": v}
        else:
            f, g = r.choice([("free", "neg"), ("neg", "free")])
            if a[f]["v"]:
                v = list(a[g]["v"]) + [r.choice(a[f]["v"])]
                r.shuffle(v)
                a[g] = {"k": "list", "v": v}
    return {"a": a, "nd": [r.randint(0, 2) for _ in range(3)], "cls": r.choice(["LP", "LP", "IP"]), "kw": r.randint(0, 1)}


def cases(ctx):
    r = rng(ctx, "make")
    return [case(r) for _ in range(ctx.pick(5000, 60000))]


def value(i):
    return VALUES[i - 1]


def array(x, nd):
    """nd = 0: list; 1: float array; 2: integer array where that loses nothing."""
    import numpy as np
    if nd == 0:
        return x
    flat = [v for row in x for v in row] if x and isinstance(x[0], list) else x
    if nd == 2 and all(isinstance(v, int) for v in flat):
        return np.array(x, dtype=int)
    return np.array(x, dtype=float)


def matrix(a, nd):
    rows = [[value(i) for i in row] for row in a["v"]]
    if a["k"] == "matrix":
        return array(rows, nd if len({len(t) for t in rows}) == 1 else 0)
    if a["k"] == "flat":
        return array(rows[0], nd)
    if a["k"] == "deep":
        import numpy as np
        return [[[v] for v in row] for row in rows] if nd == 0 else np.array([[[v] for v in row] for row in rows if len(row) == len(rows[0])], dtype=float)
    if a["k"] == "text":
        import numpy as np
        t = [[str(v) for v in row] for row in rows]
        return t if nd == 0 or len({len(x) for x in t}) > 1 else np.array(t)
    if a["k"] == "mixed":
        rows[-1][-1:] = ["1"]
        return rows
    return 5


def vector(a, nd):
    vs = [value(i) for i in a["v"]]
    if a["k"] == "vector":
        return array(vs, nd)
    if a["k"] == "matrix":
        return array([vs], nd)
    if a["k"] == "text":
        import numpy as np
        return [str(v) for v in vs] if nd == 0 else np.array([str(v) for v in vs])
    return 5


def ident(v, like):
    """The opaque value v is (preferring the id it should have)."""
    try:
        if float(v) == float(value(like)):
            return like
        return VALUES.index(float(v)) + 1
    except (ValueError, TypeError, IndexError):
        return 0


def execute(case):
    from pytimize.programs import IntegerProgram, LinearProgram
    a = case["a"]
    args = [matrix(a["A"], case["nd"][0]), vector(a["b"], case["nd"][1]), vector(a["c"], case["nd"][2]), value(a["z"]), a["obj"]] \
        + [None if a[f]["k"] == "none" else list(a[f]["v"]) for f in ("rel", "free", "neg")]
    before = [store.plain(x) for x in args]
    cls = IntegerProgram if case["cls"] == "IP" else LinearProgram
    if case["kw"]:
        names = ["z", "objective", "inequalities", "free_variables", "negative_variables"]
        kw = {k: v for k, v in zip(names, args[3:]) if not (v is None or (k == "z" and v == 0) or (k == "objective" and v == "max"))}
        k, prog = attempt(lambda: cls(args[0], args[1], args[2], **kw))
    else:
        k, prog = attempt(lambda: cls(*args))
    out = {"k": k, "q": {"odd": 1}, "sef": 0, "args": int([store.plain(x) for x in args] == before)}
    if k == "ok":
        ok, q = lpio.frame(prog)
        if ok:
            at = lambda t, *ix: at(t[ix[0]], *ix[1:]) if ix and isinstance(t, list) and ix[0] < len(t) else (t if not ix else 1)
            q["A"] = [[ident(v, at(a["A"]["v"], i, j)) for j, v in enumerate(row)] for i, row in enumerate(prog.A)]
            q["b"] = [ident(v, at(a["b"]["v"], i)) for i, v in enumerate(prog.b)]
            q["c"] = [ident(v, at(a["c"]["v"], i)) for i, v in enumerate(prog.c)]
            q["z"] = ident(prog.z, a["z"])
            out["q"] = q
        out["sef"] = int(bool(prog.is_sef))
    return out


def record(case, obs):
    if "crash" in obs:
        return {"a": case["a"], "k": obs["crash"], "q": {"odd": 1}, "sef": 0, "args": 1}
    return dict(obs, a=case["a"])


def coverage(done):
    n = {}
    for c, o in done:
        n[o.get("k", "crash")] = n.get(o.get("k", "crash"), 0) + 1
    return {"outcomes": n}


def canaries():
    a = {"A": {"k": "matrix", "v": [[1, 2], [3, 4]]}, "b": {"k": "vector", "v": [5, 6]}, "c": {"k": "vector", "v": [1, 1]}, "z": 1, "obj": "max", "rel": {"k": "list", "v": ["=", "<="]}, "free": {"k": "list", "v": [2]}, "neg": NONE}
    q = {"m": 2, "n": 2, "A": [[1, 2], [3, 4]], "b": [5, 6], "c": [1, 1], "z": 1, "obj": "max", "rel": ["=", "<="], "sgn": ["+", "f"]}

    def rec(a=a, q=q, k="ok", sef=0, args=1, **kw):
        return {"a": dict(a, **kw), "q": q, "k": k, "sef": sef, "args": args}
    L = lambda *v: {"k": "list", "v": list(v)}
    return [(rec(q=dict(q, sgn=["f", "+"])), "reported"), (rec(q=dict(q, rel=["<=", "="])), "reported"), (rec(q=dict(q, A=[[1, 3], [2, 4]])), "reported"), (rec(q=dict(q, z=2)), "reported"), (rec(k="exc"), "refused"), (rec(sef=1), "standard"), (rec(args=0), "arguments"),
            (rec(free=L(3)), "accepted"), (rec(free=L(0)), "accepted"), (rec(free=L(2, 2)), "accepted"), (rec(free=L(1), neg=L(1)), "accepted"), (rec(rel=L("=")), "accepted"), (rec(rel=L("=", "<")), "accepted"), (rec(obj="Max"), "accepted"),
            (rec(b={"k": "vector", "v": [5]}), "accepted"), (rec(c={"k": "matrix", "v": [1, 1]}), "accepted"), (rec(A={"k": "matrix", "v": [[1, 2], [3]]}), "accepted"), (rec(A={"k": "flat", "v": [[1, 2], [3, 4]]}), "accepted")]
