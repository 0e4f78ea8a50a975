"""C01 - tolerant comparisons against Compare.tla."""
from vf.gen import attempt, rng

TRACE_MODULE = "TraceCompare"
RULE = "numbers on, just inside and just outside the tolerance around zero, around integers and around non-zero tests (both sides, both signs, magnitudes 1e-19 to 1e9), as int, float, numpy scalars and arrays of one and two dimensions (entries all alike, or one different); every operator, unknown operators"
ASSUMPTIONS = ["finite numbers; apart from exactly representable boundary values, numbers keep 0.1 % away from the boundary of the tolerance"]
CFG = "SPECIFICATION Spec\nCONSTANTS W = %s\nD = %s\nEs = %s\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"


def design(ctx):
    ctx.tlc("MCCompare", CFG % ("{0, 4}", "{1}", "{11}"))
    if not ctx.quick:
        ctx.tlc("MCCompare", CFG % ("{0, 1, 4, 2000000}", "{1, 9}", "{13, 11, 9}"), timeout=3000)


def val(n):
    """The number as a float (or int)."""
    if n["k"] == 0:
        return n["w"] // 4 if n["w"] % 4 == 0 else n["w"] / 4
    if n["w"] == 0:
        return float("%de%d" % (n["k"], n["e"]))
    return n["w"] / 4 + float("%de%d" % (n["k"], n["e"]))


def N(w, k=0, e=-3):
    return {"w": w, "k": k, "e": e}


def bound_zero(r):
    """Just around 1e-10, or far from it."""
    q = r.choice([0, 0, 1, 2, 3, 4])
    k = r.choice([10 ** q * 1, 10 ** q, 10 ** q - 1, 10 ** q + 1, 10 ** q * 2, 10 ** q * 9, 5 * 10 ** max(0, q - 1)])
    e = -10 - q
    if r.random() < .25:
        k, e = r.randint(1, 999), r.randint(-19, -5)
    return k * r.choice([1, -1]), e


def near_test(r, w):
    """An offset near the tolerance 1e-8 + 1e-5 |w| / 4."""
    tol = 1e-8 + 1e-5 * abs(w) / 4
    f = r.choice([.5, .9, .99, 1.01, 1.1, 2, 9, .01, 1e-4, 100])
    off = tol * f
    e = -3
    while off / 10 ** e < 1000 and e > -13:
        e -= 1
    k = round(off / 10 ** e)
    if k > 5 * 10 ** 8 or k * 10.0 ** e >= .124 or k == 0:
        return 0, -3
    if abs(k * 10.0 ** e / tol - 1) < 1e-3:
        return 0, -3
    return k * r.choice([1, -1]), e


def around_integer(r):
    w = 4 * r.choice([0, 1, 1, 2, 3, 7, 10, 100, 1000, 12345]) * r.choice([1, -1])
    f = r.choice([.5, .9, .95, 1.05, 1.1, 2, 10, 1e3, 1e6, 1e8, .01])
    k, e = round(f * 1000), -13
    if abs(w) >= 4 * 1000:
        k, e = r.choice([(2, -11), (3, -10), (5, -9)])
    while k > 5 * 10 ** 8 or k * 10.0 ** e >= .12:
        k //= 10
    if k % 10 == 0 and e < -9:
        k, e = k // 10, e + 1
    return N(w, k * r.choice([1, -1]), e)


def cases(ctx):
    r = rng(ctx, "cmp")
    out = []
    for _ in range(ctx.pick(6000, 80000)):
        kind = r.choice(["zero", "zero", "test", "test", "int", "small", "plain", "far"])
        t = N(0)
        if kind == "zero":
            def g():
                k, e = bound_zero(r)
                return r.choice([N(0, k, e), N(0, k, e), N(0), N(r.choice([-4, 1, 8, -3, 4000]))])
        elif kind == "test":
            t = N(r.choice([1, 2, 4, 8, 12, 40, 400, 4000, 40000, 399999, 2000000, 1333]) * r.choice([1, -1]))

            def g():
                k, e = near_test(r, t["w"])
                return r.choice([N(t["w"], k, e), N(t["w"], k, e), N(t["w"], k, e), N(t["w"]), N(t["w"] + r.choice([-1, 1, 4])), N(0), N(-t["w"])])
        elif kind == "int":
            g = lambda: around_integer(r) if r.random() < .85 else N(r.choice([r.randint(-50, 50), 4 * 10 ** r.randint(5, 8) + r.choice([0, 0, 1, 2, -1])]) * r.choice([1, -1]))
        elif kind == "small":
            e = r.randint(-12, -5)
            t = N(0, r.choice([1, 2, 5, 10, 100, 5000]) * r.choice([1, -1]), e)

            def g():
                tol = (1e-8 + 1e-5 * abs(t["k"]) * 10.0 ** e) / 10.0 ** e
                d = round(tol * r.choice([.5, .9, 1.1, 2, .1, 10])) * r.choice([1, -1])
                k = t["k"] + d
                if abs(k) > 10000 or abs(abs(d) / tol - 1) < 1e-3:
                    k = t["k"] + r.choice([0, 0, 1, -1])
                if abs(abs(k - t["k"]) / tol - 1) < 1e-3 or abs(k) > 10000:
                    k = t["k"]
                return N(0, k, e)
        elif kind == "plain":
            t = N(r.choice([0, 0, r.randint(-40, 40)]))
            g = lambda: N(r.randint(-40, 40))
        else:
            t = N(r.choice([4, -4, 40, 400000, 4000000, 40000000, 800000004]) * r.choice([1, -1]))

            def g():
                d = abs(t["w"]) // 100000
                return N(t["w"] + r.choice([0, 1, -1, d // 2, d - d // 100, -(d - d // 100), d + d // 100 + 1, -(d + d // 100 + 1), 4 * d + 9]))
        shape = r.choice(["scalar", "scalar", "np", "array", "array", "matrix", "ints", "empty"])
        if shape == "empty" and r.random() < .8:
            shape = "array"
        size = {"scalar": 1, "np": 1, "array": r.choice([1, 2, 3, 5, 12]), "ints": r.choice([1, 2, 4, 9]), "matrix": 4, "empty": 0}[shape]
        if shape == "ints":
            if t["k"]:
                t = N(0)
            vs = [N(4 * r.randint(-5, 5)) if r.random() < .5 else N(t["w"] // 4 * 4 + 4 * r.choice([0, 0, 1, -1])) for _ in range(size)]
        elif r.random() < .5 and size > 1:              # alike but for one entry
            vs = [g() if kind != "zero" else N(0, *bound_zero(r))] * size
            vs[r.randrange(size)] = g()
        else:
            vs = [g() for _ in range(size)]
        fs = [r.choice(["<", "<=", ">", ">="]) for _ in range(2)]
        if not t["w"] and not t["k"]:
            fs += r.sample(["neg", "pos", "zero", "<", "<=", ">", ">="], 3)
        fs += ["int"] if r.random() < .4 or kind == "int" else []
        if r.random() < .1:
            fs.append("bad:" + r.choice(["==", "=", "!=", "", "<>", "=>", "=<", ">>", "< ", "less", "ge"]))
        out.append({"vs": vs, "t": t, "shape": shape, "fs": list(dict.fromkeys(fs))})
    return out


def execute(case):
    import numpy as np
    from pytimize.utilities import Comparator as C
    xs = [val(n) for n in case["vs"]]
    t = val(case["t"])
    shape = case["shape"]
    v = {"scalar": lambda: xs[0], "np": lambda: np.float64(xs[0]), "array": lambda: np.array(xs, dtype=float), "ints": lambda: np.array(xs, dtype=int),
         "matrix": lambda: np.array(xs, dtype=float).reshape(2, 2), "empty": lambda: np.array([], dtype=float)}[shape]()
    before = v.copy() if isinstance(v, np.ndarray) else v
    out = []
    for f in case["fs"]:
        if f == "zero":
            k, o = attempt(C.is_close_to_zero, v)
            o = [int(x) for x in np.ravel(o)] if k == "ok" and np.shape(o) == np.shape(v) else [9] * 9
        else:
            g = {"neg": lambda: C.is_negative(v), "pos": lambda: C.is_positive(v), "int": lambda: C.is_integer(v)}.get(f) or (lambda: C.is_close_compare(v, f.replace("bad:", ""), t))
            k, o = attempt(g)
            if k == "ok":
                try:
                    o = [int(bool(o))]
                except ValueError:
                    o = [9]
            else:
                o = [9]
        out.append({"f": "bad" if f.startswith("bad") else f, "k": k, "v": o})
    return {"as": out, "same": int(np.array_equal(before, v))}


def record(case, obs):
    if "crash" in obs:
        return {"vs": case["vs"], "t": case["t"], "as": [{"f": "<", "k": obs["crash"], "v": [9]}], "same": 1}
    return {"vs": case["vs"], "t": case["t"], "as": obs["as"], "same": obs["same"]}


def coverage(done):
    n = {}
    for c, o in done:
        for a in o.get("as", []):
            q = n.setdefault(a["f"], [0, 0])
            q[0] += 1
            q[1] += int(a["v"] == [1])
    return {"asked, true": n}


def canaries():
    def rec(vs, t, f, v, k="ok", same=1):
        return {"vs": vs, "t": t, "as": [{"f": f, "k": k, "v": v if isinstance(v, list) else [v]}], "same": same}
    z = N(0)
    return [(rec([N(0, 1, -10)], z, "<=", 1), "<="), (rec([N(0, 99, -12)], z, "<=", 0), "<="), (rec([N(0, -99, -12)], z, "neg", 1), "neg"), (rec([N(0, -1, -10)], z, "neg", 0), "neg"),
            (rec([N(0, 1, -10)], z, "pos", 0), "pos"), (rec([N(4, 2, -10)], z, "int", 1), "int"), (rec([N(4, -9, -11)], z, "int", 0), "int"), (rec([N(2)], z, "int", 1), "int"), (rec([N(4), N(2)], z, "int", 1), "int"),
            (rec([N(4, 1, -5)], N(4), ">", 1), ">"), (rec([N(4, 11, -6)], N(4), ">", 0), ">"), (rec([N(4, 11, -6)], N(4), "<=", 1), "<="), (rec([N(8), N(4)], N(4), ">", 1), ">"), (rec([N(8), N(4)], N(4), ">=", 0), ">="),
            (rec([N(0, 1, -10), z], z, "zero", [1, 1]), "zero"), (rec([z], z, "zero", [1, 1]), "zero"), (rec([z], z, "bad", 1), "operator"), (rec([z], z, "<", 0, k="exc"), "outcome-exc"), (rec([z], z, "<", 0, same=0), "altered"),
            (rec([N(0, 12, -9)], N(0, 1, -9), ">", 0), ">"), (rec([N(0, 3, -9)], N(0, 1, -9), ">", 1), ">"), (rec([N(400004)], N(400000), "<=", 0), "<="), (rec([N(400005)], N(400000), "<=", 1), "<=")]
