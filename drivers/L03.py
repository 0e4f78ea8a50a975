"""L03 - simplex iterations replayed on Simplex.tla (Bland's exchange computed by Cramer's rule)."""
from vf import exactlp, lpio, lpgen
from vf.gen import attempt, rng

TRACE_MODULE = "TraceSimplex"
RULE = "programs in standard equality form (degenerate, tied, scaled, classics) x feasible starting bases in any order; iterations chained on the original, on the returned program or in place; then simplex from the same basis, in other units"
ASSUMPTIONS = ["starting bases are feasible", "data bounded per number of rows so that basis determinants stay below 5000 (double precision recovers them)"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nRhs = %s\nINVARIANT Safe\nPROPERTIES Ends Rising\nCHECK_DEADLOCK FALSE\n"
    if ctx.quick:
        ctx.tlc("MCSimplex", cfg % (1, 3, 1, 1, "{0, 1}"))
        ctx.tlc("MCSimplex", cfg % (2, 3, 0, 1, "{0, 1}"))
    else:
        ctx.tlc("MCSimplex", cfg % (1, 3, 1, 2, "{0, 1, 2}"))
        ctx.tlc("MCSimplex", cfg % (2, 3, 1, 1, "{0, 1, 2}"), timeout=2000, heap="8g")


def start_cases(ctx, salt, count):
    """(program, feasible ascending basis) pairs."""
    r = rng(ctx, salt)
    out = []
    pool = lpgen.classics()
    while len(out) < count:
        if len(out) < 60:
            p = pool[len(out) % len(pool)]
        else:
            big = r.random() < .06
            p = lpgen.program(r, sef=True, m=r.choice([1, 2]) if big else None, big=big)
            if not big and r.random() < .06:         # pivot candidates of very different size, the small one binding
                m, n = r.choice([2, 2, 3]), r.choice([1, 2, 3])
                A = [[r.randint(0, 3) if i != m - 1 else r.choice([0, 1, 150, 300, -300]) for _ in range(n)] + [int(k == i) for k in range(m)] for i in range(m)]
                order = r.sample(range(m), m)
                p = {"m": m, "n": n + m, "s": r.choice([1, 1, 2]), "A": [A[i] for i in order], "b": [[r.randint(0, 3), r.randint(0, 3), r.randint(0, 1500)][i - m] for i in order],
                     "c": [r.randint(-2, 7) for _ in range(n)] + [0] * m, "z": 0, "obj": "max", "rel": ["="] * m, "sgn": ["+"] * (n + m)}
            elif not big and r.random() < .08:       # ratios that nearly tie
                m, n, k = r.choice([2, 2, 3]), r.choice([1, 2, 3]), r.choice([500, 1000, 1500, 2000])
                A = [[r.choice([1, 1, 1, 2, 3, 0]) for _ in range(n)] + [int(k == i) for k in range(m)] for i in range(m)]
                j = r.randrange(n)
                p = {"m": m, "n": n + m, "s": r.choice([1, 1, 2]), "A": A, "b": [k * max(1, A[i][j]) + r.choice([-2, -1, 0, 1, 2]) for i in range(m)],
                     "c": [r.randint(-2, 5) for _ in range(n)] + [0] * m, "z": 0, "obj": "max", "rel": ["="] * m, "sgn": ["+"] * (n + m)}
            if big and max(abs(v) for row in p["A"] for v in row) > 3:
                continue
        if len(out) >= 60 and r.random() < .25:      # one cost far above the others
            c = list(p["c"])
            j = r.randrange(len(c))
            c[j] = r.choice([-1, 1, 1, 1]) * r.choice([20, 60, 90])
            p = dict(p, c=c)
        bs = [B for B, x in lpio.bases(p, 60 if p["n"] < 9 else 300) if all(v >= 0 for v in x)]
        if not bs:
            if len(out) < 60:
                p = pool[0]
                bs = [B for B, x in lpio.bases(p, 60) if all(v >= 0 for v in x)]
            else:
                continue
        if p["n"] > 9 and r.random() < .7:           # an index of two digits
            bs = [B for B in bs if B[-1] > 9] or bs
        B = list(r.choice(bs))
        if r.random() < .3:
            r.shuffle(B)
        out.append((p, B))
    return r, out


def cases(ctx):
    r, st = start_cases(ctx, "simplex", ctx.pick(1100, 11000))
    return [{"p": p, "sc": lpio.scaling(r, p, (-8, 4), (-4, 4), (-12, 2), wide=True) if r.random() < .3 else None, "start": B, "chain": r.choice(["origin", "returned", "inplace"]), "arrays": r.randint(0, 1), "first": r.choice(["iter", "simplex"])} for p, B in st]


def execute(case):
    p, B = case["p"], case["start"]
    sc = case.get("sc")
    prog = lpio.make(p, arrays=bool(case["arrays"]), sc=sc)
    orig = lpio.read(prog, p["s"], sc)
    ev = []

    def whole():
        k, v = attempt(prog.simplex, list(B))
        e = {"op": "simplex", "k": k, "hb": 0, "nb": [], "x": lpio.NOVEC, "xr": lpio.NOVEC, "y": lpio.NOVEC}
        if k == "ok":
            x, nb, cert = v
            e["hb"], e["nb"] = int(nb is not None), [int(t) for t in (nb if nb is not None else [])]
            x = lpio.unscale(sc, "x", x)
            e["xr"] = lpio.snap(x)
            if nb is not None:
                e["x"], e["y"] = lpio.snap(x), lpio.snap(lpio.unscale(sc, "y", cert), 50000)
            else:
                e["x"], e["y"] = lpio.snap(lpio.unscale(sc, "x", cert[0])), lpio.ray(sc, cert[1])
        ev.append(e)
        ev.append({"op": "same", "same": int(lpio.read(prog, p["s"], sc) == orig)})

    def steps():
        cur, basis = prog.copy() if case["chain"] == "inplace" else prog, list(B)
        for _ in range(80):
            given = list(basis)
            k, v = attempt(cur.simplex_iteration, basis, False, True) if case["chain"] == "inplace" else attempt(cur.simplex_iteration, basis)
            e = {"op": "iter", "k": k, "x": lpio.NOVEC, "hb": 0, "nb": [], "q": {"k": "none"}}
            if k == "ok":
                x, nb, q = v
                e["x"] = lpio.snap(lpio.unscale(sc, "x", x))
                e["hb"], e["nb"] = int(nb is not None), [int(t) for t in (nb if nb is not None else [])]
                e["q"] = cur if case["chain"] == "inplace" else q
                if sc and list(e["q"].A.shape) == [p["m"], p["n"]]:
                    e["q"] = lpio.Plain(e["q"], dict(sc, r=[sc["x"][t - 1] for t in sorted(given)]))
                e["q"] = lpio.read_rows(e["q"], 5000, p["s"])
            ev.append(e)
            if basis != given:
                ev.append({"op": "basis-list-altered"})
            if case["chain"] != "inplace":
                ev.append({"op": "same", "same": int(lpio.read(prog, p["s"], sc) == orig)})
            if k != "ok" or e["x"]["k"] != "none" or not e["hb"]:
                return
            basis = nb
            if case["chain"] == "returned":
                cur = q
        ev.append({"op": "endless"})
    if case["first"] == "simplex":
        whole()
        steps()
    else:
        steps()
        whole()
    return {"ev": ev}


def record(case, obs):
    base = {"p": case["p"], "start": case["start"]}
    if "crash" in obs:
        return dict(base, ev=[{"op": "crash-" + obs["crash"]}])
    return dict(base, ev=obs["ev"])


def canaries():
    p = {"m": 2, "n": 4, "s": 1, "A": [[1, 2, 1, 0], [2, 1, 0, 1]], "b": [4, 4], "c": [1, 1, 0, 0], "z": 0, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 4}

    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}

    def q(rows, cost):
        return {"k": "ok", "m": 2, "n": 4, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 4, "rows": rows, "cost": cost}
    first = q([vec(1, 2, 1, 0, 4), vec(2, 1, 0, 1, 4)], vec(1, 1, 0, 0, 0))
    second = q([vec(2, 1, 0, 1, 4, d=2), vec(0, 3, 2, -1, 4, d=2)], vec(0, 1, 0, -1, 4, d=2))

    def it(q, nb, x=None, hb=1, k="ok"):
        return {"op": "iter", "k": k, "x": x or lpio.NOVEC, "hb": hb, "nb": nb, "q": q}
    good = it(first, [1, 3])
    end = q([vec(3, 0, -1, 2, 4, d=3), vec(0, 3, 2, -1, 4, d=3)], vec(0, 0, -1, -1, 8, d=3))

    def run(x, nb, y, hb=1):
        return {"op": "simplex", "k": "ok", "hb": hb, "nb": nb, "x": x, "xr": x if hb else lpio.NOVEC, "y": y}

    def rec(*ev, start=(3, 4)):
        return {"p": p, "start": list(start), "ev": list(ev)}
    return [(rec(it(first, [2, 3])), "exchange"), (rec(it(first, [1, 4])), "exchange"), (rec(it(first, [], hb=0)), "exchange"),
            (rec(good, it(first, [1, 2])), "program"), (rec(good, it(second, [1, 2]), it(end, [1, 2], vec(4, 4, 0, 1, d=3))), "optimal"),
            (rec(good, it(second, [1, 2]), it(end, [1, 2])), "optimal"), (rec(it(dict(first, obj="min"), [1, 3])), "program"),
            (rec(run(vec(2, 0, 2, 0), [1, 3], vec(0, 1, d=2))), "simplex-optimal"), (rec(run(vec(4, 4, 0, 0, d=3), [1, 3], vec(1, 1, d=3))), "simplex-optimal"),
            (rec(run(vec(0, 0, 4, 4), [], vec(1, 0, -1, -2), 0)), "simplex-unbounded"), (rec({"op": "same", "same": 0}), "altered"),
            (rec(good, it(second, [1, 2]), it(end, [1, 2], vec(4, 4, 0, 0, d=3)), good), "iteration-after-end")]
