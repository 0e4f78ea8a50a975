"""L01 - solve() and optimal_value() against witnesses of the truth checked in LP.tla."""
from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng
from drivers.L05 import value

TRACE_MODULE = "TraceSolve"
RULE = "random programs of every form up to 5 rows and 6 variables (small, degenerate, redundant, infeasible, unbounded, large right-hand sides), solved repeatedly and after optimal_value, in other units (rows, variables and objective stretched by powers of two)"
ASSUMPTIONS = ["data bounded per number of rows so that basis determinants stay below 5000; right-hand sides up to 1e5", "solutions are read back as nearest rationals with denominator at most 5000 (error at most 1e-6)"]


def design(ctx):
    from drivers.L05 import RS
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\n" + RS + "INVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCTransform", cfg % (2, 1, 0, 1, 1))
    ctx.tlc("MCTwoPhase", TWO % ((1, 2, 1, 1, "{0, 1}") if ctx.quick else (2, 2, 1, 1, "{0, 1}")), timeout=2000, heap="8g")
    if not ctx.quick:
        ctx.tlc("MCTransform", cfg % (1, 2, 1, 1, 1), timeout=1500)


TWO = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nRhs = %s\nINVARIANT Safe\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"


def programs(ctx, salt, count, sef=None):
    r = rng(ctx, salt)
    out = [p for p in lpgen.classics()]
    while len(out) < count:
        big = r.random() < .06
        p = lpgen.near(r) if not big and r.random() < .04 else lpgen.program(r, sef=sef, m=r.choice([1, 2, 3]) if big else None, big=big)
        if big and max(abs(v) for row in p["A"] for v in row) > 3:
            continue
        if not big and r.random() < (.06 if sef else .14) and max(map(abs, p["b"])) < 100:      # the same program with large right-hand sides
            k = r.choice([1000, 5000, 12345])
            p = dict(p, b=[k * v for v in p["b"]])
        if (lpgen.truth if sef else lpgen.wide_truth)(p) is not None:
            out.append(p)
    return r, out


def cases(ctx):
    r, ps = programs(ctx, "solve", ctx.pick(2200, 30000))
    return [{"p": p, "sc": lpio.scaling(r, p, (-8, 8), (-6, 6), (-14, 4), wide=True) if r.random() < .3 else None, "arrays": r.randint(0, 1), "plan": r.choice(["s", "s", "v", "sv", "vs", "ss"]),
             "grow": r.choice([""] * 6 + ["row"] * 2 * (p["m"] > 1) + ["col"] * 3 * (p["n"] > 1))} for p in ps]


def grown(p, how, arrays, ask):
    """The program p without its last row or variable, asked, to which that is then added in place."""
    s = p["s"]
    if how == "row":
        q = lpio.make(dict(p, m=p["m"] - 1, A=p["A"][:-1], b=p["b"][:-1], rel=p["rel"][:-1]), arrays=arrays)
        ask(q)
        q.add_constraint([v / s for v in p["A"][-1]], p["rel"][-1], p["b"][-1] / s, in_place=True)
    else:
        q = lpio.make(dict(p, n=p["n"] - 1, A=[row[:-1] for row in p["A"]], c=p["c"][:-1], sgn=p["sgn"][:-1]), arrays=arrays)
        ask(q)
        q.add_variable(p["c"][-1] / s, [row[-1] / s for row in p["A"]], p["sgn"][-1] == "f", p["sgn"][-1] == "-", in_place=True)
    return q


def execute(case):
    p = case["p"]
    prog = lpio.make(p, arrays=bool(case["arrays"]), sc=case.get("sc")) if not case.get("grow") or case.get("sc") else \
        grown(p, case["grow"], bool(case["arrays"]), lambda q: [attempt(q.solve if a == "s" else q.optimal_value) for a in case["plan"]])
    sc = case.get("sc")
    orig = lpio.read(prog, p["s"], sc)
    out = []
    if {t: orig.get(t) for t in p} != p:
        out.append({"k": "odd", "x": lpio.NOVEC, "v": ["skip", 0, 1], "same": 0})
    for a in case["plan"]:
        if a == "s":
            k, v = attempt(prog.solve)
            o = {"k": k, "x": lpio.snap(lpio.unscale(sc, "x", v)) if k == "ok" else lpio.NOVEC, "v": ["skip", 0, 1]}
        else:
            kv = attempt(prog.optimal_value)
            if sc and kv[0] == "ok":
                kv = ("ok", lpio.unscale(sc, "v", kv[1]))
            o = {"k": "value", "x": lpio.NOVEC, "v": value(kv)}
        o["same"] = int(lpio.read(prog, p["s"], sc) == orig)
        out.append(o)
    return {"runs": out}


def record(case, obs):
    p = case["p"]
    w = lpgen.wide_truth(p)
    recs = []
    if "crash" in obs:
        return {"f": "solve", "p": p, "w": w, "k": obs["crash"], "x": dict(lpio.NOVEC), "v": ["skip", 0, 1], "same": 1}
    for o in obs["runs"]:
        o = dict(o)
        if o["k"] == "value":                       # judge the value only
            o["k"] = "ok"
            o["x"] = w["x"] if w["kind"] == "optimal" else dict(lpio.NOVEC)
        elif o["x"]["k"] == "vec" and not exactlp.primal_fits(p, o["x"]):
            o["x"] = {"k": "big", "num": [], "den": 1}
        if o["v"][0] == "vec" and max(abs(o["v"][1]), o["v"][2]) >= 2 ** 30:
            o["v"] = ["big", 0, 1]
        recs.append({"f": "solve", "p": p, "w": w, **o})
    return recs


def canaries():
    p = {"m": 2, "n": 2, "s": 2, "A": [[2, 4], [4, 2]], "b": [8, 8], "c": [2, 2], "z": 3, "obj": "max", "rel": ["<=", "<="], "sgn": ["+", "+"]}
    w = exactlp.witness(p)
    q = dict(p, rel=["<=", ">="])
    u = dict(p, A=[[2, -4], [4, -2]])
    f = dict(p, b=[-2, 8])

    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}

    def rec(p=p, w=w, x=vec(4, 4, d=3), v=("skip", 0, 1), k="ok", same=1):
        return {"f": "solve", "p": p, "w": w, "k": k, "x": x, "v": list(v), "same": same}
    return [(rec(x=vec(2, 0)), "solution"), (rec(x=vec(2, 2)), "solution"), (rec(x=lpio.NOVEC), "missed"), (rec(v=("vec", 8, 3)), "value"), (rec(v=("none", 0, 1)), "value"),
            (rec(p=q, w=exactlp.witness(q), x=vec(2, 1)), "solution"), (rec(p=u, w=exactlp.witness(u), x=vec(0, 0)), "unbounded"), (rec(p=f, w=exactlp.witness(f), x=vec(0, 0)), "infeasible"),
            (rec(w=exactlp.witness(f)), "no-witness"), (rec(w=dict(w, y=vec(1, 0))), "no-witness"), (rec(k="exc"), "outcome-exc"), (rec(same=0), "altered"),
            (rec(p=f, w=exactlp.witness(f), x=lpio.NOVEC, v=("vec", 0, 1)), "value"), (rec(x=vec(4, 4, 4, d=3)), "solution")]
