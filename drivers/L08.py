"""L08 - feasibility, value and basis predicates against Predicates / LP."""
from fractions import Fraction as F

from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng
from drivers.L04 import nonbasis
from drivers.L07 import clear_feasible, flt, fr, near, tame, yes

TRACE_MODULE = "TraceAsk"
RULE = "programs of every form x feasible points, points on and off single rows and signs, vectors of wrong length or shape, bases in any order, non-bases, basic solutions and near misses, in other units"
ASSUMPTIONS = ["points violate a row or sign either not at all or by at least 1e-4 of the size of the right-hand side (the library compares with a tolerance)",
               "feasibility of a basis is asked of programs in standard equality form"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCPredicates", cfg % (1, 2, 1, 1, 2))
    if not ctx.quick:
        ctx.tlc("MCPredicates", cfg % (2, 2, 1, 1, 1), timeout=2400, heap="10g")


def cases(ctx):
    r = rng(ctx, "ask")
    out = []
    while len(out) < ctx.pick(3000, 16000):
        big = r.random() < .06
        p = lpgen.program(r, m=r.choice([1, 2, 3]) if big else None, big=big, sef=r.random() < .55)
        sef = p["obj"] == "max" and all(x == "=" for x in p["rel"]) and all(g == "+" for g in p["sgn"])
        bs = lpio.bases(p, 40) if p["n"] >= p["m"] else []
        if r.random() < .35:                           # make a chosen point feasible or tight
            x0 = [F(r.randint(0, 6), r.choice([1, 1, 2])) for _ in range(p["n"])]
            x0 = [v if g == "+" else -v if g == "-" else r.choice([-v, v]) for v, g in zip(x0, p["sgn"])]
            b = [sum(F(u) * v for u, v in zip(row, x0)) for row in p["A"]]
            if all(t.denominator == 1 for t in b):
                p = dict(p, b=[int(t) + (0 if q == "=" or r.random() < .5 else r.choice([0, 1, 4]) * (1 if q == "<=" else -1)) for t, q in zip(b, p["rel"])])
                bs = lpio.bases(p, 40) if p["n"] >= p["m"] else []
        else:
            x0 = None
        pts = [[F(0)] * p["n"], [F(r.randint(-3, 3), r.choice([1, 2])) for _ in range(p["n"])]]
        w = lpgen.truth(p)
        if x0:
            pts += [x0] * 3
        if w and w["kind"] != "infeasible":
            pts += [fr(w["x"])] * 3
        asks = []
        sc = lpio.scaling(r, p, (-8, 0), (0, 4), r.choice([(-10, 0), (-20, -10)])) if r.random() < .3 else None

        def basic(B, xb):
            x = [F(0)] * p["n"]
            for j, v in zip(B, xb):
                x[j - 1] = v
            return x
        for _ in range(r.randint(3, 9)):
            f = r.choice((["optimal"] * 2 if w else []) + ["feasible", "feasible", "feasible", "evaluate", "value_of", "basis", "solution", "basic", "feasible_basis", "feasible_basic"])
            a = {"f": f, "x": dict(lpio.NOVEC), "y": dict(lpio.NOVEC), "B": [], "nd": r.randint(0, 1), "bad": r.choice(["matrix", "text", "scalar"]) if r.random() < .06 else ""}
            if f in ("feasible", "evaluate", "value_of", "optimal"):
                x = near(r, r.choice(pts))
                if r.random() < .05:
                    x = x[:-1] if r.random() < .5 else x + [F(0)]
                elif not (clear_feasible(p, x) and tame(p, x)):
                    continue
                elif f == "optimal" and w["kind"] == "optimal":
                    gap = (sum(F(u) * v for u, v in zip(p["c"], x)) - sum(F(u) * v for u, v in zip(p["c"], fr(w["x"])))) / p["s"]
                    if 0 < abs(gap) < F(1, 10000) or 0 < abs(gap) * F(2) ** (sc["c"] if sc else 0) < F(1, 10 ** 7):  # ten times the tolerance
                        continue
                if not x:
                    continue
                a["x"] = exactlp.vec(x)
                vs = [a["x"]]
            else:
                B, x = None, None
                if bs and r.random() < .75:
                    B, xb = r.choice(bs)
                    x = basic(B, xb)
                    if f == "feasible_basis":
                        a["y"] = exactlp.vec(x)
                    B = list(B)
                    if r.random() < .1:              # one index off by the number of columns
                        B[r.randrange(len(B))] += r.choice([1, -1, 1]) * p["n"]
                        x = None
                        a["y"] = dict(lpio.NOVEC)
                else:
                    B = nonbasis(r, p)
                    if f in ("feasible_basis", "feasible_basic", "basic", "solution") and exactlp_basis(p, B):
                        continue
                if r.random() < .5:
                    r.shuffle(B)
                a["B"] = B
                if f in ("feasible_basis", "feasible_basic") and not sef:
                    continue
                if f in ("basic", "feasible_basic"):
                    if x is not None and len(bs) > 1 and r.random() < .3:      # still on every row, on the way to another vertex
                        t, to = r.choice([F(1, 2), F(1, 100), F(1, 1000)]), basic(*r.choice(bs))
                        x = [u + t * (v - u) for u, v in zip(x, to)]
                    else:
                        x = near(r, x if x is not None and r.random() < .8 else r.choice(pts))
                    if x and r.random() < .07:
                        x = x[:-1] if r.random() < .5 and len(x) > 1 else x + [F(0)]
                        a["x"] = exactlp.vec(x)
                        asks.append(a)
                        continue
                    if x is None or len(x) != p["n"] or not (clear_feasible(p, x) and tame(p, x)):
                        continue
                    a["x"] = exactlp.vec(x)
                elif x is not None and not (clear_feasible(p, x) and tame(p, x)):
                    continue
                vs = [v for v in (a["x"], a["y"]) if v["k"] == "vec"]
                if f == "solution" and x is not None:
                    vs = [exactlp.vec(x)]
            if all(exactlp.fits(p, v) for v in vs):
                asks.append(a)
        if asks:
            out.append({"p": p, "sc": sc, "arrays": r.randint(0, 1), "asks": asks})
    return out


def exactlp_basis(p, B):
    if len(B) != p["m"] or len(set(B)) != len(B) or not all(1 <= j <= p["n"] for j in B):
        return False
    return exactlp.det([[row[j - 1] for j in B] for row in p["A"]]) != 0


def lattice(t, den):
    try:
        v = float(t) * den
    except (TypeError, ValueError):
        return {"k": "odd", "num": [], "den": 1}
    if not abs(v) < 2 ** 30 or abs(v - round(v)) > .01:
        return {"k": "irr", "num": [], "den": 1}
    return {"k": "vec", "num": [round(v)], "den": den}


def execute(case):
    import numpy as np
    p = case["p"]
    sc = case.get("sc")
    prog = lpio.make(p, arrays=bool(case["arrays"]), sc=sc)
    orig = lpio.read(prog, p["s"], sc)
    out = []
    for a in case["asks"]:
        f, o = a["f"], dict(lpio.NOVEC)
        x = flt(a["x"], a["nd"]) if a["x"]["k"] == "vec" else None
        if sc and x is not None:
            x = lpio.rescale(sc, "x", x)
        if a["bad"]:
            x = {"matrix": lambda: [list(x)], "text": lambda: [str(t) for t in x], "scalar": lambda: float(x[0])}[a["bad"]]() if x is not None else None
        B = np.array(a["B"], dtype=int) if a["nd"] else list(a["B"])
        if f == "optimal":
            k, v = yes(attempt(prog.is_solution_optimal, x))
        elif f == "feasible":
            k, v = yes(attempt(prog.is_feasible, x))
        elif f in ("evaluate", "value_of"):
            k, t = attempt(getattr(prog, f), x)
            v = 0
            if k == "ok":
                den = a["x"]["den"] * p["s"]         # the value is a multiple of 1 / den
                o = lattice(lpio.unscale(sc, "v", t), den)
        elif f == "solution":
            k, t = attempt(prog.compute_basic_solution, B)
            v = 0
            if k == "ok":
                o = lpio.snap(lpio.unscale(sc, "x", t))
        elif f == "basis":
            k, v = yes(attempt(prog.is_basis, B))
        elif f == "basic":
            k, v = yes(attempt(prog.is_basic_solution, x, B))
        elif f == "feasible_basis":
            k, v = yes(attempt(prog.is_basis_feasible, B))
        else:
            k, v = yes(attempt(prog.is_feasible_basic_solution, x, B))
        if list(B) != list(a["B"]):
            k = "input-altered"
        out.append([k, v, o])
    return {"out": out, "same": int(lpio.read(prog, p["s"], sc) == orig)}


def record(case, obs):
    outs = [[obs["crash"], 0, dict(lpio.NOVEC)]] * len(case["asks"]) if "crash" in obs else obs["out"]
    rec = {"p": case["p"], "same": obs.get("same", 1), "as": []}
    w = lpgen.truth(case["p"]) if any(a["f"] == "optimal" for a in case["asks"]) else None
    for a, o in zip(case["asks"], outs):
        v = o[2]
        if v["k"] == "vec" and not exactlp.fits(case["p"], v) and a["f"] == "solution":
            v = {"k": "big", "num": [], "den": 1}
        rec["as"].append({"f": a["f"], "x": a["x"], "y": a["y"], "B": a["B"], "bad": a["bad"], "k": o[0], "v": o[1], "o": v, **({"w": w} if a["f"] == "optimal" else {})})
    return rec


def coverage(done):
    n, yesn = {}, {}
    for c, o in done:
        for a, t in zip(c["asks"], o.get("out", [])):
            n[a["f"]] = n.get(a["f"], 0) + 1
            yesn[a["f"]] = yesn.get(a["f"], 0) + t[1]
    return {"questions": n, "answered_yes": yesn}


def canaries():
    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}
    p = {"m": 1, "n": 2, "s": 2, "A": [[2, 4]], "b": [6], "c": [1, 3], "z": 1, "obj": "max", "rel": ["="], "sgn": ["+", "+"]}
    q = dict(p, rel=["<="], sgn=["-", "f"])

    def rec(p, f, v=0, x=None, y=None, B=(), k="ok", o=None, same=1, bad=""):
        return {"p": p, "same": same, "as": [{"f": f, "x": x or dict(lpio.NOVEC), "y": y or dict(lpio.NOVEC), "B": list(B), "bad": bad, "k": k, "v": v, "o": o or dict(lpio.NOVEC)}]}
    def opt(p, x, v, w=None):
        r = rec(p, "optimal", v, x)
        r["as"][0]["w"] = w or exactlp.witness(p)
        return r
    return [(opt(p, vec(3, 0), 1), "optimal"), (opt(p, vec(0, 3, d=2), 0), "optimal"), (opt(p, vec(0, 3), 1), "optimal"), (opt(q, vec(0, 0), 1), "optimal"), (opt(p, vec(0, 3, d=2), 1, {"kind": "optimal", "x": vec(0, 3, d=2), "y": vec(1)}), "no-witness"),
            (rec(p, "feasible", 0, vec(1, 1)), "feasible"), (rec(p, "feasible", 1, vec(1, 2)), "feasible"), (rec(p, "feasible", 1, vec(5, -1)), "feasible"), (rec(q, "feasible", 1, vec(1, 0)), "feasible"), (rec(q, "feasible", 0, vec(-1, -5)), "feasible"),
            (rec(p, "feasible", 0, vec(1)), "feasible"), (rec(p, "feasible", 1, vec(1, 1), bad="text"), "feasible"), (rec(p, "basic", 0, vec(1), B=[1]), "basic"), (rec(p, "feasible_basic", 0, vec(1, 2, 3), B=[1]), "feasible_basic"), (rec(p, "evaluate", x=vec(1, 1), o=vec(2)), "evaluate"), (rec(p, "evaluate", x=vec(1, 1), k="exc"), "evaluate"), (rec(p, "value_of", x=vec(1, 2), o=vec(4)), "value_of"), (rec(p, "value_of", x=vec(1, 1), o=vec(5)), "value_of"),
            (rec(p, "basis", 0, B=[1]), "basis"), (rec(p, "basis", 1, B=[1, 2]), "basis"), (rec(p, "basis", 1, B=[3]), "basis"), (rec(p, "solution", B=[2], o=vec(3, 0)), "solution"), (rec(p, "solution", B=[2, 2], o=vec(3, 0)), "solution"),
            (rec(p, "basic", 1, vec(1, 1), B=[2]), "basic"), (rec(p, "basic", 0, vec(3, 0), B=[1]), "basic"), (rec(q, "basic", 1, vec(3, 0), B=[1]), "basic"), (rec(p, "feasible_basis", 0, y=vec(3, 0), B=[1]), "feasible_basis"), (rec(p, "feasible_basis", 1, y=vec(2, 0), B=[1]), "no-witness"),
            (rec(p, "feasible_basic", 1, vec(1, 1), B=[1]), "feasible_basic"), (rec(p, "basis", 1, B=[1], same=0), "altered")]
