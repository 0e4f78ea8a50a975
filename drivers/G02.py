"""G02 - cuts and degrees: queries on graphs against the boundary operators of UGraphOps.tla."""
from vf.gen import attempt, name_table, rng
from vf.graphs import arcs_of, build, shapes, warm

TRACE_MODULE = "TraceCuts"
RULE = "graphs up to 15 vertices built in four ways x vertex sets given as one name or any collection, names absent from the graph included"
ASSUMPTIONS = ["a collection is a set, frozenset, list, tuple or dictionary of names (one-shot iterators only for cut, ncut, indegree and outdegree of a directed graph, whose documentation takes any iterable)"]
KINDS = ["str", "set", "list", "tuple", "frozenset", "dict"]
TRICKY = [["a", "ab", "abc", "b", "bc", "c", "abcd", "cd", "d"], ["s", "st", "sts", "t", "ts", "x", "xs", "y", "z"]]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCCuts", cfg % 3)
    if not ctx.quick:
        ctx.tlc("MCCuts", cfg % 4)


def cases(ctx):
    r = rng(ctx, "cuts")
    out = []
    for k in range(ctx.pick(1200, 12000)):
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 9] * 3 + [12, 15])
        D = r.randint(0, 1)
        extra = r.randint(0, 3)
        names = sorted(r.choice(TRICKY))[:n + extra] if r.random() < .4 and n + extra <= 9 else name_table(r, n + extra)
        perm = names[:]
        r.shuffle(perm)                 # ids n+1.. are absent names anywhere in lexical order
        q = []
        for _ in range(6):
            kind = r.choice(KINDS)
            if kind == "str":
                s = [r.randint(1, n + extra)] if n + extra else None
            else:
                s = r.sample(range(1, n + extra + 1), r.randint(0, n + extra))
            if s is not None:
                q.append({"f": r.choice(["cut", "ncut", "outdegree", "indegree", "connections"] if D else ["cut", "degree"]), "kind": kind, "s": s})
                if D and kind == "tuple" and q[-1]["f"] != "connections" and r.random() < .4:
                    q[-1]["kind"] = "iter"
        out.append(warm(r, {"dir": D, "n": n, "arcs": shapes(r, n, D) if n else [], "names": perm, "q": q, "how": r.randrange(4), "extra": r.randint(0, 3)}))
    return out


def ask(g, x, names):
    s = [names[k - 1] for k in x["s"]]
    arg = {"str": lambda: s[0], "set": lambda: set(s), "list": lambda: s, "tuple": lambda: tuple(s),
           "frozenset": lambda: frozenset(s), "iter": lambda: iter(s), "dict": lambda: {k: 1 for k in s}}[x["kind"]]()
    return attempt(getattr(g, x["f"]), arg)


def execute(case):
    names = case["names"]
    ids = {x: k + 1 for k, x in enumerate(names)}
    q = []
    g = build(case, names, lambda g: [ask(g, x, names) for x in case["q"]])
    for x in case["q"]:
        k, v = ask(g, x, names)
        ret = {"k": k, "v": 0, "a": []}
        if k == "ok":
            if x["f"] in ("cut", "ncut"):
                ret["a"] = [[ids.get(a, 0), ids.get(b, 0)] for a, b in v]
            else:
                ret["v"] = int(v)
        q.append({"f": x["f"], "s": x["s"], "ret": ret})
    return {"q": q, "after": arcs_of(g, ids, case["dir"])}


def record(case, obs):
    base = {"dir": case["dir"], "n": case["n"], "arcs": case["arcs"]}
    if "crash" in obs:
        return dict(base, crash=obs["crash"], q=[], after=[])
    return dict(base, crash="", q=obs["q"], after=obs["after"])


def canaries():
    def rec(D, f, s, v=0, a=(), after=None):
        arcs = [[1, 2], [2, 1], [3, 2]] if D else [[1, 2], [3, 2]]
        return {"dir": D, "n": 3, "arcs": arcs, "crash": "", "after": arcs if after is None else after,
                "q": [{"f": f, "s": s, "ret": {"k": "ok", "v": v, "a": [list(x) for x in a]}}]}
    return [(rec(1, "cut", [2], a=[(1, 2), (3, 2)]), "cut"), (rec(1, "ncut", [2], a=[(1, 2)]), "ncut"),
            (rec(1, "connections", [2], v=2), "connections"), (rec(0, "cut", [1, 2], a=[(1, 2), (3, 2)]), "cut"),
            (rec(0, "degree", [2], v=1), "degree"), (rec(0, "degree", [2], v=2, after=[[1, 2]]), "graph"),
            (rec(1, "indegree", [4], v=1), "indegree")]
