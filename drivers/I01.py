"""I01 - branch and bound against certified outcomes (Branch.tla)."""
from fractions import Fraction as F
from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceBranch"
RULE = "random integer programs up to 7 rows and 4 variables with bounded or empty relaxation (knapsacks, boxed, equality-constrained, congruence-infeasible, empty), pure and mixed, every sign pattern, both senses; integral lists in any order; solved directly, repeatedly, from a copy, or after a row or variable was added, objective and rows in other units"
ASSUMPTIONS = ["relaxations are bounded (the library documents no answer otherwise)", "search trees of at most 60 leaves", "answers are read back as nearest rationals with denominator at most 5000 (error at most 1e-6)"]

CFG = 'SPECIFICATION Spec\nCONSTANTS Neg = 1\nPos = %d\nRhs = %s\nU = %d\nRels = %s\nSigns = %s\nINVARIANT Safe\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'


def design(ctx):
    ctx.tlc("MCBranch", CFG % (2, "{3}", 2, '{"<="}', '{"+"}' if ctx.quick else '{"+", "f"}'))
    if not ctx.quick:
        ctx.tlc("MCBranch", CFG % (2, "{1, 3}", 3, '{"<=", ">=", "="}', '{"+", "-", "f"}'), timeout=3000, heap="8g")


class Big(Exception):
    pass


def certificate(p, ints, limit=60):
    """Exact branch and bound; None if it does not fit the specification's integers or grows too large."""
    mx = p["obj"] == "max"
    best = [None, None]
    count = [0]

    def value(x):
        v = sum(c * t for c, t in zip(p["c"], x))
        return v if mx else -v

    def bounded(bs):
        q = dict(p, m=p["m"] + len(bs), A=p["A"] + [[p["s"] if j + 1 == k else 0 for j in range(p["n"])] for k, _, _ in bs],
                 b=p["b"] + [v * p["s"] for _, _, v in bs], rel=p["rel"] + [t for _, t, _ in bs])
        return q

    def go(bs):
        count[0] += 1
        if count[0] > limit:
            raise Big
        q = bounded(bs)
        r = exactlp.solve(q)
        if r["kind"] == "unbounded":
            raise Big
        w = {"kind": r["kind"], "x": exactlp.vec(r["x"]), "y": exactlp.vec(r["y"])}
        if not exactlp.fits(q, w["x"], w["y"]):
            raise Big
        leaf = {"k": "leaf", "w": w}
        if r["kind"] == "infeasible":
            return leaf
        j = next((j for j in sorted(ints) if r["x"][j - 1].denominator != 1), None)
        if j is None:
            if best[0] is None or value(r["x"]) > best[0]:
                best[:] = [value(r["x"]), w["x"]]
            return leaf
        v = r["x"][j - 1].numerator // r["x"][j - 1].denominator
        t = {"k": "branch", "j": j, "v": v, "lo": go(bs + [(j, "<=", v)]), "hi": go(bs + [(j, ">=", v + 1)]), "w": w}
        return t

    def prune(t):
        if t["k"] == "leaf":
            return t
        if best[0] is not None and value([F(a, t["w"]["x"]["den"]) for a in t["w"]["x"]["num"]]) <= best[0]:
            return {"k": "leaf", "w": t["w"]}
        return {"k": "branch", "j": t["j"], "v": t["v"], "lo": prune(t["lo"]), "hi": prune(t["hi"])}
    try:
        tree = go([])
    except Big:
        return None
    return {"x": best[1] or dict(lpio.NOVEC), "tree": prune(tree)}


def is_bounded(p):
    """The region of the relaxation is bounded or empty."""
    for j in range(p["n"]):
        for d in (1, -1):
            q = dict(p, obj="max", c=[d if k == j else 0 for k in range(p["n"])])
            k = exactlp.solve(q)["kind"]
            if k == "unbounded":
                return False
            if k == "infeasible":
                return True
    return True


def program(r):
    n = r.choice([1, 2, 2, 2, 3, 3, 4])
    kind = r.choice(["close", "knapsack", "knapsack", "boxed", "boxed", "boxed", "equal", "parity", "any"])
    s = r.choice([1, 1, 2, 4, 10, 10])
    mx = {1: 9, 2: 9, 3: 5, 4: 3}[n]
    C = r.choice([1, 3, 9])
    c = [r.randint(-C, C) for _ in range(n)]
    if kind == "any":
        p = lpgen.program(r, m=r.choice([1, 2, 3]), n=n, sef=False)
        return p
    if kind == "knapsack":
        m = r.choice([1, 1, 2, 2, 3])
        A = [[r.randint(0, mx) for _ in range(n)] for _ in range(m)]
        b = [r.randint(0, 25) for _ in range(m)]
        rel = ["<="] * m
        sgn = [r.choice("+++-") for _ in range(n)]
        A = [[v if g == "+" else -v for v, g in zip(row, sgn)] for row in A]
        c = [abs(v) if g == "+" else -abs(v) for v, g in zip(c, sgn)]
        obj = "max"
        if r.random() < .5:
            obj, c = "min", [-v for v in c]
        if r.random() < .3:
            i = r.randrange(m)
            A[i], b[i], rel[i] = [-v for v in A[i]], -b[i], ">="
    elif kind == "close":                            # relaxation optima a hair away from integers
        n = r.choice([1, 2])
        A, b, rel, sgn, c, s = [], [], [], [], [r.choice([1, 2, -1, 3]) for _ in range(n)], r.choice([1, 1, 10])
        obj, a = r.choice(["max", "min"]), r.choice([r.randint(220, 400), r.randint(1000, 2400)] if n == 1 else [r.randint(220, 400)])
        for j in range(n):
            k, d = r.randint(0, 3), r.choice([1, -1, 1, -1, 2, -2, 50])
            up = (c[j] > 0) == (obj == "max")
            g = r.choice("+-f")
            if (g == "+" and not up) or (g == "-" and up):
                sgn.append(g)
                t = a if up else -a
                A.append([t if q == j else 0 for q in range(n)])
                b.append(r.choice([0, t]))
                rel.append("<=")
                A.append([t if q == j else 0 for q in range(n)])
                b.append((a * k + d) * (-1 if up else 1) * (1 if up else -1))
                rel.append(">=")
                continue
            sgn.append(g)
            v = a * k + d
            A.append([(a if up else -a) if q == j else 0 for q in range(n)])
            b.append(v)
            rel.append("<=")
            if g == "f":
                A.append([(a if up else -a) if q == j else 0 for q in range(n)])
                b.append(-v)
                rel.append(">=")
    elif kind == "boxed":
        m = r.choice([1, 1, 2])
        A = [[r.randint(-mx, mx) for _ in range(n)] for _ in range(m)]
        b = [r.randint(-6, 15) for _ in range(m)]
        rel = [r.choice(["<=", "<=", ">=", "="]) for _ in range(m)]
        sgn = [r.choice("+-f") for _ in range(n)]
        obj = r.choice(["max", "min"])
        for j in range(n):
            U = r.randint(1, 5) * s + r.choice([0, 0, s // 2])
            if sgn[j] in "+f":
                A.append([s if k == j else 0 for k in range(n)])
                b.append(U)
                rel.append("<=")
            if sgn[j] in "-f":
                A.append([s if k == j else 0 for k in range(n)])
                b.append(-r.randint(1, 5) * s - r.choice([0, 0, s // 2]))
                rel.append(">=")
    elif kind == "equal":
        m = r.choice([1, 2])
        A = [[r.randint(1, mx) for _ in range(n)]] + [[r.randint(-2, mx) for _ in range(n)] for _ in range(m - 1)]
        sgn = [r.choice("++-") for _ in range(n)]
        A = [[v if g == "+" else -v for v, g in zip(row, sgn)] for row in A]
        x0 = [r.randint(0, 3) * (1 if g == "+" else -1) for g in sgn]
        b = [sum(u * v for u, v in zip(row, x0)) + r.choice([0, 0, 0, 1]) for row in A]
        rel = ["="] + [r.choice(["<=", ">=", "="]) for _ in range(m - 1)]
        obj = r.choice(["max", "min"])
    else:
        k = r.choice([2, 3, 4])
        A = [[k * r.randint(1, 2) for _ in range(n)], [1] * n]
        b = [k * r.randint(0, 3) + r.randint(0, k - 1), r.randint(0, 4)]
        rel, sgn, obj = ["=", "<="], ["+"] * n, r.choice(["max", "min"])
    order = list(range(len(A)))
    r.shuffle(order)
    return {"m": len(A), "n": n, "s": s, "A": [A[i] for i in order], "b": [b[i] for i in order], "c": c, "z": r.choice([0, 0, r.randint(-9, 9)]), "obj": obj, "rel": [rel[i] for i in order], "sgn": sgn}


def cases(ctx):
    r = rng(ctx, "ip")
    out = []
    want = ctx.pick(650, 12000)
    more = want * 5 // 8                             # from here on: searched, changed in place, searched again
    while len(out) < want:
        p = program(r)
        n = p["n"]
        lst = r.random() < .45
        ints = list(range(1, n + 1))
        if lst:
            ints = [j for j in ints if r.random() < .6]
            r.shuffle(ints)
            if r.random() < .1:
                ints = ints + ints[:1]
        cert = certificate(p, set(ints), ctx.pick(30, 60))
        if cert is None or not is_bounded(p):
            continue
        trivial = cert["tree"]["k"] == "leaf"
        if trivial and r.random() < .8:
            continue
        plan = r.choice(["run", "run", "twice", "copy", "row", "row", "col", "col", "relax", "solve"] if len(out) < more else ["row", "row", "col"])
        if plan == "row" and p["m"] < 2 or plan == "col" and (n < 2 or lst and n in ints):
            plan = "relax"
        first = 0
        if plan in ("row", "col") and r.random() < .6:          # searched before the addition, which must end as well
            q = dict(p, m=p["m"] - 1, A=p["A"][:-1], b=p["b"][:-1], rel=p["rel"][:-1]) if plan == "row" else dict(p, n=n - 1, A=[row[:-1] for row in p["A"]], c=p["c"][:-1], sgn=p["sgn"][:-1])
            first = int(is_bounded(q) and certificate(q, {j for j in ints if j <= q["n"]}, 30) is not None)
        if len(out) >= more and not first:
            continue
        out.append({"p": p, "lst": int(lst), "ints": ints, "cert": cert, "plan": plan, "sc": lpio.scaling(r, p, (-8, 4), (0, 0), (-10, 4)) if plan not in ("row", "col", "relax") and r.random() < .4 else None, "first": first, "arrays": int(r.random() < (.8 if first else .5))})
    return out


def execute(case):
    from pytimize.programs import IntegerProgram, LinearProgram
    p, plan = case["p"], case["plan"]
    kw = {"integral_variables": list(case["ints"])} if case["lst"] else {}
    if plan == "row":
        q = dict(p, m=p["m"] - 1, A=p["A"][:-1], b=p["b"][:-1], rel=p["rel"][:-1])
        prog = lpio.make(q, IntegerProgram, bool(case["arrays"]), **kw)
        s = p["s"]
        if case["first"]:
            attempt(prog.branch_and_bound)
        row = [v / s for v in p["A"][-1]]
        if case["arrays"]:
            prog.add_constraint(row, p["rel"][-1], p["b"][-1] / s, in_place=True)
        else:
            prog = prog.add_constraint(row, p["rel"][-1], p["b"][-1] / s)
    elif plan == "col":
        n, s = p["n"], p["s"]
        q = dict(p, n=n - 1, A=[row[:-1] for row in p["A"]], c=p["c"][:-1], sgn=p["sgn"][:-1])
        prog = lpio.make(q, IntegerProgram, bool(case["arrays"]), **kw)
        col = [row[-1] / s for row in p["A"]]
        if case["first"]:
            attempt(prog.branch_and_bound)
        free, neg = p["sgn"][-1] == "f", p["sgn"][-1] == "-"
        if case["arrays"]:
            prog.add_variable(p["c"][-1] / s, col, free, neg, in_place=True)
        else:
            prog = prog.add_variable(p["c"][-1] / s, col, free, neg)
    else:
        prog = lpio.make(p, IntegerProgram, bool(case["arrays"]), sc=case.get("sc"), **kw)
    if plan == "copy":
        prog = prog.copy()
    if plan == "solve":
        attempt(prog.solve)
    sc = case.get("sc")
    before = lpio.read(prog, p["s"], sc)
    twin = prog.copy()
    if plan == "twice":
        attempt(prog.branch_and_bound)
    relax = {"k": "skip", "p": {}}
    if plan == "relax":
        k, q = attempt(prog.relax)
        if k == "ok" and isinstance(q, LinearProgram) and not isinstance(q, IntegerProgram):
            q = lpio.read(q, p["s"])
            relax = {"k": q.pop("k"), "p": q}
        else:
            relax = {"k": "bad", "p": {}}
    k, x = attempt(prog.branch_and_bound)
    ints = getattr(prog, "_integral_variables", None)
    same = lpio.read(prog, p["s"], sc) == before and attempt(lambda: prog == twin) == ("ok", True)
    return {"k": k, "x": lpio.snap(x) if k == "ok" else dict(lpio.NOVEC), "same": int(same), "relax": relax, "start": int({t: before[t] for t in p} == p)}


def record(case, obs):
    p = case["p"]
    base = {"p": p, "ints": case["ints"], "cert": case["cert"]}
    if "crash" in obs:
        return dict(base, k=obs["crash"], x=dict(lpio.NOVEC), same=1, relax={"k": "skip", "p": {}})
    x = obs["x"]
    if x["k"] == "vec" and not exactlp.fits(p, x):
        x = {"k": "big", "num": [], "den": 1}
    return dict(base, k=obs["k"], x=x, same=int(obs["same"] and obs["start"]), relax=obs["relax"])


def coverage(done):
    n = {"integer optimum": 0, "no integer point": 0, "mixed": 0, "branching needed": 0}
    for case, _ in done:
        n["integer optimum" if case["cert"]["x"]["k"] == "vec" else "no integer point"] += 1
        n["mixed"] += int(case["lst"])
        n["branching needed"] += int(case["cert"]["tree"]["k"] == "branch")
    return n


def canaries():
    p = {"m": 1, "n": 2, "s": 1, "A": [[2, 2]], "b": [3], "c": [1, 1], "z": 1, "obj": "max", "rel": ["<="], "sgn": ["+", "+"]}
    cert = certificate(p, {1, 2})
    mixed = certificate(p, {1})
    q = dict(p, rel=["="])
    none = certificate(q, {1, 2})

    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}

    def rec(p=p, cert=cert, ints=(1, 2), x=vec(1, 0), k="ok", same=1, relax=None):
        return {"p": p, "ints": list(ints), "cert": cert, "k": k, "x": x, "same": same, "relax": relax or {"k": "skip", "p": {}}}
    return [(rec(x=vec(0, 0)), "optimality"), (rec(x=vec(2, 0)), "feasibility"), (rec(x=vec(3, 0, d=2)), "integrality"), (rec(x=dict(lpio.NOVEC)), "missed"), (rec(cert=mixed, ints=(1,), x=vec(1, 0)), "optimality"),
            (rec(p=q, cert=none), "infeasible"), (rec(p=q, cert=cert), "no-certificate"), (rec(cert=dict(cert, x=vec(0, 0))), "no-certificate"), (rec(cert=dict(cert, x=dict(lpio.NOVEC))), "no-certificate"),
            (rec(cert=mixed, ints=(2,)), "no-certificate"), (rec(k="exc"), "outcome-exc"), (rec(same=0), "altered"), (rec(relax={"k": "bad", "p": {}}), "relaxation"), (rec(relax={"k": "ok", "p": dict(p, b=[2])}), "relaxation"), (rec(x=vec(1, 0, 0)), "shape")]
