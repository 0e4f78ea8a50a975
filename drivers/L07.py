"""L07 - certificate verifiers against Predicates!Accepts*."""
from fractions import Fraction as F

from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceAsk"
RULE = "programs in standard equality form (and some not) x exact certificates from witnesses, multiples, combinations, and near misses of them that are exactly on or clearly off every boundary, in other units"
ASSUMPTIONS = ["candidates violate a condition either not at all or by at least 1e-4 of the size of the data (the library compares with a tolerance)"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCPredicates", cfg % (1, 2, 1, 1, 2))
    if not ctx.quick:
        ctx.tlc("MCPredicates", cfg % (2, 2, 1, 1, 1), timeout=2400, heap="10g")
        ctx.tlc("MCPredicates", cfg % (1, 3, 1, 1, 1), timeout=2400, heap="10g")


def fr(v):
    return [F(t, v["den"]) for t in v["num"]]


def dot(a, b):
    return sum((F(u) * v for u, v in zip(a, b)), F(0))


def clear(v, size=1):
    """v (which should be >= 0) is not a close call."""
    return v >= 0 and (v == 0 or v > F(1, 10 ** 6)) or v < -F(1, 10000) * max(1, size)


def tame(p, w, other=None):
    """Rounding in the sums the library forms stays far below its tolerance."""
    big = max([1] + [abs(t) for t in w])
    data = max([1] + [abs(t) for row in p["A"] for t in row] + [abs(t) for t in p["b"] + p["c"]])
    return F(data, p["s"]) * big <= 20000


def clear_feasible(p, x):
    s = p["s"]
    for i in range(p["m"]):
        lhs, rhs = dot(p["A"][i], x) / s, F(p["b"][i], s)
        t = lhs - rhs
        size = abs(rhs)
        for v in (t, -t):
            if not clear(v, size):
                return False
        if 0 < abs(t) <= F(1, 10000) * max(1, size):
            return False
    for g, v in zip(p["sgn"], x):
        if not clear(v) or not clear(-v):
            return False
    return True


def clear_y(p, y, f):
    s = p["s"]
    for j in range(p["n"]):
        v = dot([row[j] for row in p["A"]], y) / s - (F(p["c"][j], s) if f == "opt" else 0)
        if not clear(v) or not clear(-v):
            return False
    if f == "inf":
        v = dot(p["b"], y) / s
        return clear(v) and clear(-v)
    return True


def clear_ray(p, d):
    s = p["s"]
    vs = [dot(r, d) / s for r in p["A"]] + list(d) + [dot(p["c"], d) / s]
    return all(clear(v) and clear(-v) for v in vs)


def near(r, v):
    v = list(v)
    z = r.random()
    if not v or z < .25:
        return v
    if z < .4:
        k = r.choice([2, 3, F(1, 2), -1, F(-1, 2), 0])
        return [t * k for t in v]
    j = r.randrange(len(v))
    if z < .5:
        v[j] = F(0)
    elif z < .6:
        v[j] = -v[j]
    elif z < .7 and len(v) > 1:
        q = r.randrange(len(v))
        v[j], v[q] = v[q], v[j]
    elif z < .78 and len(v) > 1:                     # two entries apart whose sum stays
        q = r.randrange(len(v))
        t = r.choice([1, F(1, 2), F(1, 10), F(1, 1000)])
        v[j] += t
        v[q] -= t
    else:
        v[j] += r.choice([1, -1]) * r.choice([1, 2, F(1, 2), F(1, 10), F(1, 100), F(1, 1000)])
    return v


def cases(ctx):
    r = rng(ctx, "verify")
    out = []
    while len(out) < ctx.pick(3500, 15000):
        big = r.random() < .05
        p = lpgen.program(r, sef=True, m=r.choice([1, 2, 3]) if big else None, big=big)
        w = lpgen.truth(p)
        if w is None:
            continue
        other = p
        if r.random() < .08:
            other = dict(p, **r.choice([{"obj": "min"}, {"rel": ["<="] + p["rel"][1:]}, {"rel": p["rel"][:-1] + [">="]}, {"sgn": p["sgn"][:-1] + ["f"]}, {"sgn": ["-"] + p["sgn"][1:]}]))
        asks = []
        mixed = []                                   # pairs (x, d) with x + d feasible too although d has negative entries
        if p["m"] < p["n"] and r.random() < .5:
            x1 = exactlp.solve(dict(p, c=[r.randint(-3, 3) for _ in range(p["n"])]))
            x2 = exactlp.solve(dict(p, c=[r.randint(-3, 3) for _ in range(p["n"])]))
            if x1["x"] and x2["x"] and x1["x"] != x2["x"]:
                u, v = x1["x"], x2["x"]
                if dot(p["c"], u) > dot(p["c"], v):
                    u, v = v, u
                mixed = [(u, [t - q for q, t in zip(u, v)])]
                mixed += [(u, [t * k for t in mixed[0][1]]) for k in (2, F(1, 2))]
        rnd = lambda n: [F(r.randint(-3, 3), r.choice([1, 1, 2])) for _ in range(n)]
        pool_y = [rnd(p["m"]), [F(0)] * p["m"]]
        pool_x = [[abs(t) for t in rnd(p["n"])], [F(0)] * p["n"]]
        pool_d = [rnd(p["n"]), [F(0)] * p["n"]]
        if w["kind"] == "unbounded":
            pool_x += [fr(w["x"])] * 4
            pool_d += [fr(w["y"])] * 4
        else:
            pool_y += [fr(w["y"])] * 5
            if w["kind"] == "optimal":
                pool_x += [fr(w["x"])] * 4
                q = lpgen.truth(dict(p, b=[0] * p["m"], c=[1] * p["n"]))
                if q and q["kind"] == "unbounded":      # a direction in which nothing is violated
                    pool_d += [fr(q["y"])] * 3
        for _ in range(r.randint(3, 8)):
            f = r.choice(["inf", "opt", "unb"] + ["unb"] * (2 * bool(mixed)) + (["unb"] * 3 if w["kind"] == "unbounded" else ["inf"] * 3 if w["kind"] == "infeasible" else ["opt"] * 3))
            if f == "unb":
                x, d = r.choice(pool_x), r.choice(pool_d)
                if r.random() < .6:
                    x, d = (near(r, x), d) if r.random() < .4 else (x, near(r, d))
                if mixed and r.random() < .3:
                    x, d = r.choice(mixed)
                if not (clear_feasible(p, x) and clear_ray(p, d) and tame(p, x + d)):
                    continue
                x, y = exactlp.vec(x), exactlp.vec(d)
            else:
                y = near(r, r.choice(pool_y))
                if not (clear_y(p, y, f) and tame(p, y)):
                    continue
                x, y = dict(lpio.NOVEC), exactlp.vec(y)
            if exactlp.fits(p, *( [x, y] if f == "unb" else [y])):
                asks.append({"f": f, "x": x, "y": y, "B": [], "nd": r.randint(0, 1)})
        if asks:
            sc = lpio.scaling(r, p, (-8, 0), (0, 4), r.choice([(-10, 0), (-16, -10)])) if r.random() < .4 else None
            for a in asks if sc else []:             # certificates are as good when stretched; strict conditions stay clear of the tolerance
                low = -12 if a["f"] == "inf" else max(-9 - min(sc["r"]), -16 - sc["c"])
                a["k"] = 0 if a["f"] == "opt" or low >= 0 or r.random() < .4 else r.randint(low, 0)
            out.append({"p": other, "sc": sc, "arrays": r.randint(0, 1), "asks": asks})
    return out


def flt(v, nd):
    xs = [t // v["den"] if t % v["den"] == 0 else t / v["den"] for t in v["num"]]
    if nd:
        import numpy as np
        return np.array(xs, dtype=float)
    return xs


def yes(kv):
    k, v = kv
    if k != "ok":
        return k, 0
    try:
        return ("ok", int(bool(v))) if v is not None else ("none", 0)
    except Exception:
        return "odd", 0


def execute(case):
    p = case["p"]
    sc = case.get("sc")
    prog = lpio.make(p, arrays=bool(case["arrays"]), sc=sc)
    orig = lpio.read(prog, p["s"], sc)
    vec = lambda v, nd, what, k=0: lpio.rescale(sc, what, flt(v, nd), k) if sc else flt(v, nd)
    out = []
    for a in case["asks"]:
        if a["f"] == "unb":
            k, v = yes(attempt(prog.verify_unboundedness, vec(a["x"], a["nd"], "x"), vec(a["y"], a["nd"], "d", a.get("k", 0))))
        else:
            k, v = yes(attempt(prog.verify_infeasibility if a["f"] == "inf" else prog.verify_optimality, vec(a["y"], a["nd"], "i" if a["f"] == "inf" else "y", a.get("k", 0))))
        out.append([k, v])
    return {"out": out, "same": int(lpio.read(prog, p["s"], sc) == orig)}


def record(case, obs):
    outs = [[obs["crash"], 0]] * len(case["asks"]) if "crash" in obs else obs["out"]
    return {"p": case["p"], "same": obs.get("same", 1),
            "as": [{"f": a["f"], "x": a["x"], "y": a["y"], "B": a["B"], "k": o[0], "v": o[1], "o": dict(lpio.NOVEC)} for a, o in zip(case["asks"], outs)]}


def coverage(done):
    n, yesn = {}, {}
    for c, o in done:
        for a, t in zip(c["asks"], o.get("out", [])):
            n[a["f"]] = n.get(a["f"], 0) + 1
            yesn[a["f"]] = yesn.get(a["f"], 0) + t[1]
    return {"questions": n, "accepted": yesn}


def canaries():
    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}
    p = {"m": 1, "n": 2, "s": 1, "A": [[1, -1]], "b": [1], "c": [1, 1], "z": 0, "obj": "max", "rel": ["="], "sgn": ["+", "+"]}
    q = dict(p, A=[[1, 1]], b=[-1])

    def rec(p, f, v, x=None, y=None, k="ok", same=1):
        return {"p": p, "same": same, "as": [{"f": f, "x": x or dict(lpio.NOVEC), "y": y or dict(lpio.NOVEC), "B": [], "k": k, "v": v, "o": dict(lpio.NOVEC)}]}
    return [(rec(q, "inf", 0, y=vec(1)), "inf"), (rec(q, "inf", 1, y=vec(0)), "inf"), (rec(q, "inf", 1, y=vec(-1)), "inf"), (rec(q, "opt", 0, y=vec(1)), "opt"), (rec(q, "opt", 1, y=vec(1, d=2)), "opt"),
            (rec(p, "unb", 0, x=vec(1, 0), y=vec(1, 1)), "unb"), (rec(p, "unb", 1, x=vec(0, 0), y=vec(1, 1)), "unb"), (rec(p, "unb", 1, x=vec(1, 0), y=vec(1, 0)), "unb"),
            (rec(p, "unb", 1, x=vec(1, 0), y=vec(0, 0)), "unb"), (rec(p, "unb", 1, x=vec(1, 0), y=vec(-1, -1)), "unb"), (rec(dict(p, obj="min"), "unb", 0, x=vec(1, 0), y=vec(1, 1)), "unb"),
            (rec(p, "opt", 0, y=vec(0), k="exc"), "opt"), (rec(p, "opt", 0, y=vec(0), same=0), "altered")]
