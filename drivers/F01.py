"""F01 - formulations against the linear forms of Formulation.tla."""
from fractions import Fraction as F
from vf import lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceFormulation"
RULE = "straight-line expression programs of up to 22 nodes over up to 12 variables (shared subexpressions, every operator in plain, reflected and augmented form, unary signs, numbers on either side, repeated and cancelling variables, variables made by variables() and x[]), compared and compiled into two to three formulations sharing objective, constraints and expressions"
ASSUMPTIONS = ["numbers are halves, products stay exactly representable"]
S = 4096
REL = ["<=", ">=", "="]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS N = 2\nDepth = %d\nNums = %s\nG = 2\nINVARIANT Safe\nINVARIANT Once\nPROPERTY KeepsSigns\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCFormulation", cfg % ((3, "{1, 2}") if ctx.quick else (4, "{1, 2}")), timeout=2000)


class Wild(Exception):
    pass


def forms(nodes, n):
    """(coefficients, constant, is a number, is a bare variable) per node; raises Wild if not representable."""
    out = []
    for nd in nodes:
        a = out[nd["a"] - 1] if nd["op"] not in ("var", "num") else None
        b = out[nd["b"] - 1] if nd["op"] in ("add", "sub") else None
        if nd["op"] == "var":
            f = ([F(int(j + 1 == nd["a"])) for j in range(n)], F(0), False, nd["how"] == 0)
        elif nd["op"] == "num":
            f = ([F(0)] * n, F(nd["v"], 2), True, False)
        else:
            if nd["op"] == "add":
                c, k = [x + y for x, y in zip(a[0], b[0])], a[1] + b[1]
            elif nd["op"] == "sub":
                c, k = [x - y for x, y in zip(a[0], b[0])], a[1] - b[1]
            elif nd["op"] == "neg":
                c, k = [-x for x in a[0]], -a[1]
            elif nd["op"] == "pos":
                c, k = a[0], a[1]
            else:
                c, k = [x * F(nd["v"], 2) for x in a[0]], a[1] * F(nd["v"], 2)
            f = (c, k, a[2] and (b is None or b[2]), False)
        for x in f[0] + [f[1]]:
            if S % x.denominator or abs(x) > 8000:
                raise Wild
        out.append(f)
    return out


def cases(ctx):
    r = rng(ctx, "forms")
    out = []
    want = ctx.pick(2500, 30000)
    while len(out) < want:
        n = r.choice([1, 2, 2, 3, 4, 6] * 3 + [9, 12])
        nodes = []
        for _ in range(r.randint(3, 22)):
            k = len(nodes)
            op = r.choice(["var", "var", "num", "add", "add", "add", "sub", "sub", "neg", "pos", "mul", "mul"]) if k >= 2 else r.choice(["var", "var", "num"])
            v = r.choice([2, 2, 4, -2, 6, 1, -1, 3, 0, 10, -7, 14])
            nd = {"op": op, "a": 0, "b": 0, "v": 0, "how": r.randint(0, 2)}
            if op == "var":
                nd["a"] = r.randint(1, n)
            elif op == "num":
                nd["v"] = r.choice([v, v * 3, 200, -40])
            else:
                nd["a"] = k - r.randint(0, min(3, k - 1)) if r.random() < .5 else r.randint(1, k)
                if op in ("add", "sub"):
                    nd["b"] = r.randint(1, k)
                if op == "mul":
                    nd["v"] = v
            nodes.append(nd)
        try:
            fs = forms(nodes, n)
        except Wild:
            continue
        pick = lambda: r.randint(1, len(nodes)) if r.random() < .6 else len(nodes) - r.randint(0, min(4, len(nodes) - 1))
        cons = []
        for _ in range(r.randint(1, 5)):
            for _ in range(20):
                a, b, rel = pick(), pick(), r.choice(REL)
                fa, fb = fs[a - 1], fs[b - 1]
                if fa[2] and fb[2]:
                    continue
                if rel != "=" and (fa[3] and fb[2] and fb[1] == 0 or fb[3] and fa[2] and fa[1] == 0):
                    continue                        # a sign declaration, not a row
                cons.append([a, rel, b])
                break
        if not cons:
            continue
        objs = [[r.choice(["max", "min"]), pick()] for _ in range(2)]
        fms = []
        for _ in range(r.choice([1, 2, 3])):
            fms.append([r.randrange(2), [r.randrange(len(cons)) for _ in range(r.randint(1, 4))]])
        expr = [k for k, f in enumerate(fs) if not f[2]]
        mis = []
        for _ in range(r.randint(0, 3) if expr else 0):
            op = r.choice(["add", "add", "sub", "mul", "mul", "compare", "compare", "index", "rows", "objective"])
            ta, tb = r.choice([("expr", "text"), ("text", "expr"), ("expr", "none"), ("expr", "list")] + ([("expr", "expr")] * 3 if op == "mul" else []) + [("expr", "num"), ("num", "expr")])
            if op == "index":
                ta, tb = r.choice(["zero", "negative", "positive"]), ""
            elif op == "rows":
                ta, tb = r.choice(["none", "some"]), ""
            elif op == "objective":
                ta, tb = r.choice(["expr", "num", "text", "none"]), ""
            mis.append({"op": op, "ta": ta, "tb": tb, "a": r.choice(expr), "b": r.choice(expr), "rel": r.choice(REL), "v": r.choice([2, -3, 7]), "flip": r.randint(0, 1)})
        out.append({"mis": mis, "n": n, "nodes": nodes, "cons": cons, "objs": objs, "fms": fms, "late": r.randint(0, 1), "read": r.randint(0, 2)})
    return out


def build(nodes, n):
    from pytimize.formulations.linear import variables, x
    vs = variables(n)
    out = []
    num = lambda v: v // 2 if v % 2 == 0 else v / 2
    for nd in nodes:
        op, how = nd["op"], nd["how"]
        a = out[nd["a"] - 1] if op not in ("var", "num") else None
        b = out[nd["b"] - 1] if op in ("add", "sub") else None
        if op == "var":
            t = vs[nd["a"] - 1] if how == 0 else x[nd["a"]]
        elif op == "num":
            t = num(nd["v"])
            t = float(t) if how == 0 else t
        elif op == "add":
            t = a
            if how == 0:
                t += b
            else:
                t = a + b
        elif op == "sub":
            t = a
            if how == 0:
                t -= b
            else:
                t = a - b
        elif op == "neg":
            t = -a
        elif op == "pos":
            t = +a
        else:
            t = a
            if how == 0:
                t *= num(nd["v"])
            elif how == 1:
                t = num(nd["v"]) * a
            else:
                t = a * num(nd["v"])
        out.append(t)
    return out


def compare(a, rel, b):
    return a <= b if rel == "<=" else a >= b if rel == ">=" else a == b


def misuse(nodes, cons, e):
    """A use of operands of any kind; most have no meaning."""
    from pytimize.formulations.linear import maximize, minimize, x
    sides = []
    for t, k in ((e["ta"], e["a"]), (e["tb"], e["b"])):
        sides.append({"expr": lambda: nodes[k], "num": lambda: e["v"], "text": lambda: "a", "none": lambda: None, "list": lambda: [1]}.get(t, lambda: None)())
    a, b = sides
    op = e["op"]
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "compare":
        return compare(a, e["rel"], b)
    if op == "index":
        return x[{"zero": 0, "negative": -2, "positive": 3}[e["ta"]]]
    goal = (minimize if e["flip"] else maximize)
    if op == "objective":
        return goal(a).subject_to(cons[0])
    return goal(nodes[e["a"]]).subject_to(*(cons[:1] if e["ta"] == "some" else []))


def numbers(c):
    """Multiples of 1/S, or nothing."""
    out = []
    for v in ([] if c is None else c):
        t = float(v) * S
        if t != round(t) or abs(t) >= 2 ** 30:
            return None
        out.append(int(t))
    return out


def execute(case):
    from pytimize.formulations.linear import maximize, minimize
    k, nodes = attempt(build, case["nodes"], case["n"])
    got = []
    bad = {"k": "odd"}
    if k != "ok":
        return {"got": [[f, k, bad] for f in case["fms"]], "mis": [], "acc": []}
    sense = {"max": maximize, "min": minimize}

    def objectives():
        return [sense[s](nodes[o - 1]) for s, o in case["objs"]]

    def constraints():
        return [compare(nodes[a - 1], rel, nodes[b - 1]) for a, rel, b in case["cons"]]
    k, both = attempt(lambda: (objectives(), constraints()) if case["late"] else (lambda c: (objectives(), c))(constraints()))
    if k != "ok":
        return {"got": [[f, k, bad] for f in case["fms"]], "mis": [], "acc": []}
    objs, cons = both
    mis = [attempt(misuse, nodes, cons, e)[0] for e in case["mis"]]
    acc = []
    for o in objs:
        k, t = attempt(lambda: (o.objective, numbers(o.coefficients), numbers([o.constant])))
        ok = k == "ok" and t[1] is not None and t[2] is not None
        acc.append({"k": "ok", "s": str(t[0]), "c": t[1], "z": t[2][0]} if ok else {"k": "odd", "s": "", "c": [], "z": 0})
    made = []
    for f in case["fms"]:
        made.append(attempt(lambda: objs[f[0]].subject_to(*[cons[c] for c in f[1]])))
    for f, (k, fm) in zip(case["fms"], made):
        q = bad
        if k == "ok":
            if case["read"] == 0:
                k, p = attempt(lambda: fm.program)
            elif case["read"] == 1:
                k, p = attempt(lambda: (str(fm), fm.program)[1])
            else:
                k, p = attempt(lambda: fm.copy())
            if k == "ok":
                q = lpio.read(p, S)
        got.append([f, k, q])
    # the expressions still mean the same
    f = case["fms"][0]
    k, fm = attempt(lambda: objectives()[f[0]].subject_to(*[constraints()[c] for c in f[1]]).program)
    got.append([f, k, lpio.read(fm, S) if k == "ok" else bad])
    return {"got": got, "mis": mis, "acc": acc}


def record(case, obs):
    nds = [{t: nd[t] for t in ("op", "a", "b", "v")} for nd in case["nodes"]]
    out = []
    got = obs.get("got") or [[case["fms"][0], obs["crash"], {"k": "odd"}]]
    for u, (f, k, q) in enumerate(got):
        s, o = case["objs"][f[0]]
        mis = [{"op": e["op"], "ta": e["ta"], "tb": e["tb"], "k": m} for e, m in zip(case["mis"], obs.get("mis", []))] if u == 0 else []
        acc = obs["acc"][f[0]] if obs.get("acc") else {"k": "none", "s": "", "c": [], "z": 0}
        out.append({"mis": mis, "acc": acc, "n": case["n"], "nds": nds, "obj": s, "o": o, "cons": [case["cons"][c] for c in f[1]], "k": k, "q": q})
    return out


def coverage(done):
    n = {}
    for c, _ in done:
        for nd in c["nodes"]:
            n[nd["op"]] = n.get(nd["op"], 0) + 1
    return {"nodes": n, "formulations": sum(len(c["fms"]) for c, _ in done)}


def canaries():
    def nd(op, a=0, b=0, v=0):
        return {"op": op, "a": a, "b": b, "v": v}
    nds = [nd("var", 1), nd("var", 2), nd("num", v=3), nd("mul", 1, v=4), nd("add", 4, 2), nd("sub", 5, 3)]     # 2 x1 + x2 - 1.5
    q = {"k": "ok", "s": S, "m": 1, "n": 2, "A": [[S, S]], "b": [-S], "c": [2 * S, S], "z": -S * 3 // 2, "obj": "max", "rel": ["<="], "sgn": ["f", "f"]}
    # row: 2 x1 + x2 - 1.5 <= x1 - ... : node 6 <= node 1
    good = dict(q, b=[S * 3 // 2])

    acc = {"k": "ok", "s": "max", "c": [2 * S, S], "z": -S * 3 // 2}

    def rec(q, k="ok", nds=nds, acc=acc, mis=()):
        return {"acc": acc, "mis": [dict(zip(("op", "ta", "tb", "k"), t)) for t in mis], "n": 3, "nds": nds, "obj": "max", "o": 6, "cons": [[6, "<=", 1]], "k": k, "q": q}
    flipped = dict(good, A=[[-S, -S]], b=[-S * 3 // 2], rel=[">="])
    assert flipped
    return [(rec(good, acc=dict(acc, z=0)), "parts"), (rec(good, acc=dict(acc, s="min")), "parts"), (rec(good, acc=dict(acc, c=[2 * S])), "parts"), (rec(good, mis=[("add", "expr", "text", "ok")]), "misuse"), (rec(good, mis=[("mul", "expr", "expr", "ok")]), "misuse"),
            (rec(good, mis=[("compare", "expr", "num", "exc")]), "misuse"), (rec(good, mis=[("index", "zero", "", "ok")]), "misuse"), (rec(good, mis=[("rows", "none", "", "ok")]), "misuse"), (rec(q), "row"), (rec(dict(good, A=[[S, -S]])), "row"), (rec(dict(good, rel=[">="])), "row"), (rec(dict(good, c=[2 * S, 0])), "objective"), (rec(dict(good, z=0)), "constant"), (rec(dict(good, obj="min")), "sense"),
            (rec(dict(good, sgn=["f", "+"])), "signs"), (rec(dict(good, n=3, A=[[S, S, 0]], c=[2 * S, S, 0], sgn=["f"] * 3)), "variables"), (rec(dict(good, n=1, A=[[S]], c=[2 * S], sgn=["f"])), "variables"),
            (rec(good, "exc"), "outcome-exc"), (rec({"k": "odd"}), "malformed"), (rec(dict(good, m=2, A=[[S, S]] * 2, b=good["b"] * 2, rel=["<="] * 2)), "rows"), (rec(dict(flipped, rel=["<="])), "row")]
