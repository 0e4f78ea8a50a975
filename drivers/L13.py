"""L13 - row reduction against RowReduce!Rref (fraction-free Gauss-Jordan)."""
from vf import lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceRowReduce"
RULE = "matrices up to 5 rows and 7 columns, a few up to 11 x 16 (totally unimodular), (full rank, dependent, zero rows and columns, wide and tall, fractions), reduced from integer and floating point arrays; is_in_rref on reduced matrices, near misses and permuted ones"
ASSUMPTIONS = ["data are multiples of 1/s, bounded so that minors stay below 5000", "is_in_rref is asked of programs in standard equality form (documented precondition)"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS R = %d\nC = %d\nNeg = %d\nPos = %d\nG = %d\nINVARIANT Safe\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCRowReduce", cfg % (2, 2, 2, 2, 2))
    ctx.tlc("MCRowReduce", cfg % (2, 3, 1, 1, 2))
    if not ctx.quick:
        ctx.tlc("MCRowReduce", cfg % (3, 3, 1, 1, 2), timeout=2400, heap="10g")
        ctx.tlc("MCRowReduce", cfg % (2, 3, 2, 2, 2), timeout=2400, heap="10g")


def matrix(r):
    if r.random() < .06:
        return lpgen.network(r, True, 1)["A"]
    m, n = r.choice([1, 2, 2, 3, 3, 4, 5]), r.choice([1, 2, 3, 3, 4, 5, 7])
    a = min(r.choice([1, 2, 3, 9]), {1: 60, 2: 30, 3: 7, 4: 3, 5: 2}[m])
    dens = r.choice([.4, .7, 1])
    M = [[r.randint(-a, a) if r.random() < dens else 0 for _ in range(n)] for _ in range(m)]
    z = r.random()
    if z < .35 and m > 1:                            # dependent rows
        k = r.randrange(1, m)
        u, v = r.choice([1, 1, -1, 2, 3]), r.choice([0, 1, 1, -1, 2])
        row = [u * x + v * y for x, y in zip(M[0], M[(k + 1) % m] if m > 2 else M[0])]
        if max(map(abs, row)) <= {2: 50, 3: 9, 4: 4, 5: 2}[m]:
            M[k] = row
    elif z < .45:
        M[r.randrange(m)] = [0] * n
    elif z < .55:
        j = r.randrange(n)
        for row in M:
            row[j] = 0
    elif z < .62:                                    # late pivots
        j = r.randrange(n)
        for i, row in enumerate(M):
            for q in range(min(j, n - 1)):
                row[q] = 0
    elif z < .7 and n > 1:
        j = r.randrange(1, n)
        for row in M:
            row[j] = row[0]
    if r.random() < .3:
        r.shuffle(M)
    return M


def reduced(r, s):
    """A matrix in reduced form over s, or a near miss."""
    m, n = r.choice([1, 2, 3, 3, 4]), r.choice([1, 2, 3, 4, 5])
    if r.random() < .25:
        m, n = r.choice([1, 2, 6, 8, 11]), r.choice([7, 10, 12])
    first = r.choice([0, 0, 0, n // 2, n - 1])       # leading columns without a pivot
    piv = sorted(r.sample(range(first, n), r.randint(0, min(m, n - first))))
    M = [[0] * n for _ in range(m)]
    for i, j in enumerate(piv):
        M[i][j] = s
        for q in range(j + 1, n):
            if q not in piv:
                M[i][q] = r.choice([0, s, -s, 2 * s, r.randint(-5, 5)])
    z = r.random()
    if z < .1 and m > 1:
        i, k = r.sample(range(m), 2)
        M[i], M[k] = M[k], M[i]
    elif z < .35:
        M[r.randrange(m)][r.randrange(n)] = r.choice([0, s, -s, 2 * s, 1])
    elif z < .42 and piv:
        i = r.randrange(len(piv))
        M[i][piv[i]] += r.choice([1, -1])
    elif z < .5 and piv:
        i = r.randrange(len(piv))
        M[i] = [2 * v for v in M[i]] if r.random() < .5 else [-v for v in M[i]]
    return M


def cases(ctx):
    r = rng(ctx, "rref")
    out = []
    for _ in range(ctx.pick(2500, 25000)):
        out.append({"M": matrix(r), "s": r.choice([1, 1, 1, 2, 4, 10]), "int": r.randint(0, 1),
                    "ask": [{"M": reduced(r, t), "s": t} for t in [r.choice([1, 1, 2, 4, 100, 1000, 10 ** 5])] for _ in range(r.randint(0, 3))]})
    return out


def execute(case):
    import numpy as np
    from pytimize.programs import LinearProgram
    M, s = case["M"], case["s"]
    m, n = len(M), len(M[0])
    arr = np.array(M) if case["int"] and s == 1 else np.array(M, dtype=float) / s
    prog = LinearProgram(np.array(M, dtype=float) / s, [1] * m, [1] * n, inequalities=["="] * m)
    before, orig = arr.copy(), lpio.read(prog, s)
    k, v = attempt(prog.to_rref, arr)
    out = {"k": k, "rows": [], "own": 1, "is": []}
    out["same"] = int(bool((before == arr).all()) and before.dtype == arr.dtype and lpio.read(prog, s) == orig)
    if k == "ok":
        if getattr(v, "shape", None) != (m, n):
            out["k"] = "odd"
        else:
            out["rows"] = [lpio.snap(row) for row in v]
            out["own"] = int(attempt(lambda: LinearProgram(v, [1] * m, [1] * n, inequalities=["="] * m).is_in_rref) == ("ok", True))
    for q in case["ask"]:
        A = np.array(q["M"], dtype=float) / q["s"]
        p = LinearProgram(A, [0] * len(q["M"]), [1] * len(q["M"][0]), inequalities=["="] * len(q["M"]))
        k2, a = attempt(lambda: p.is_in_rref)
        out["is"].append({"M": q["M"], "s": q["s"], "k": k2, "v": int(bool(a)) if k2 == "ok" else 0})
    return out


def record(case, obs):
    base = {"M": case["M"], "s": case["s"]}
    if "crash" in obs:
        return dict(base, k=obs["crash"], rows=[], own=1, same=1, **{"is": []})
    return dict(base, **obs)


def coverage(done):
    n = {"reductions": len(done), "questions": 0, "in reduced form": 0}
    for _, o in done:
        n["questions"] += len(o.get("is", []))
        n["in reduced form"] += sum(a["v"] for a in o.get("is", []))
    return n


def canaries():
    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}
    M = [[2, 4, 1], [1, 2, 3], [3, 6, 4]]
    good = [vec(1, 2, 0), vec(0, 0, 1), vec(0, 0, 0)]

    def rec(rows=good, k="ok", own=1, same=1, ask=()):
        return {"M": M, "s": 1, "k": k, "rows": list(rows), "own": own, "same": same, "is": [dict(a) for a in ask]}

    def q(A, v, s=1, k="ok"):
        return {"M": A, "s": s, "k": k, "v": v}
    return [(rec([vec(1, 2, 0), vec(0, 0, 0), vec(0, 0, 1)]), "reduced"), (rec([vec(2, 4, 0), vec(0, 0, 1), vec(0, 0, 0)]), "reduced"), (rec([vec(1, 2, 3), vec(0, 0, 1), vec(0, 0, 0)]), "reduced"),
            (rec(good[:2]), "reduced"), (rec(k="exc"), "reduced"), (rec([vec(1, 2, 0), vec(0, 0, 1), vec(0, 0, 1)]), "reduced"), (rec(own=0), "own"), (rec(same=0), "altered"),
            (rec(ask=[q([[0, 1], [1, 0]], 1)]), "recognised"), (rec(ask=[q([[1, 2], [0, 1]], 1)]), "recognised"), (rec(ask=[q([[1, 0, 2], [0, 1, 3]], 0)]), "recognised"),
            (rec(ask=[q([[2, 0, 4], [0, 2, 6]], 0, 2)]), "recognised"), (rec(ask=[q([[0, 0], [0, 1]], 1)]), "recognised"), (rec(ask=[q([[2, 0], [0, 1]], 1)]), "recognised"), (rec(ask=[q([[1, 0]], 1, k="exc")]), "recognised")]
