"""Random linear programs in JSON form.  Entries are bounded per number of rows
so that every basis determinant stays below 5000 (Hadamard) and every basic
solution can be recovered exactly from its floating point image."""
from . import exactlp

LARGE = .04                                           # share of programs with many rows and columns
LONG = .04                                            # share of programs with few rows and ten or more columns
MAXA = {1: 60, 2: 50, 3: 9, 4: 4, 5: 2, 6: 1, 7: 1, 8: 1}


def network(r, sef, s):
    """More rows and columns than the rest: totally unimodular, so every basis determinant is -1, 0 or 1."""
    m = r.choice([4, 5, 6, 7, 8, 9, 11])
    n = r.randint(max(m if sef else 2, 5), m + 5)
    A = [[0] * n for _ in range(m)]
    for j in range(n):
        if r.random() < .3:
            A[r.randrange(m)][j] = r.choice([1, 1, -1])
        else:
            i, k = r.sample(range(m), 2)
            A[i][j], A[k][j] = 1, -1
    for i in range(m):
        if r.random() < .4:
            A[i] = [-v for v in A[i]]
    rel = ["="] * m if sef else [r.choice(["<=", "<=", ">=", "="]) for _ in range(m)]
    sgn = ["+"] * n if sef else [r.choice(["+", "+", "+", "-", "f"]) for _ in range(n)]
    x0 = [r.choice([0, 0, 1, 2, 5]) * (-1 if g == "-" else 1) for g in sgn]
    b = [sum(u * v for u, v in zip(row, x0)) + (0 if q == "=" else r.choice([0, 1, 3]) * (1 if q == "<=" else -1)) for row, q in zip(A, rel)]
    if r.random() < .2:
        b[r.randrange(m)] += r.choice([-1, 1])
    y = [r.choice([-2, -1, 0, 1, 2]) for _ in range(m)]
    y = [abs(t) if q == "<=" else -abs(t) if q == ">=" else t for t, q in zip(y, rel)]
    c = [sum(y[i] * A[i][j] for i in range(m)) - (0 if g == "f" else r.choice([0, 0, 1, 2]) * (-1 if g == "-" else 1)) for j, g in enumerate(sgn)]
    if r.random() < .2:
        c[r.randrange(n)] += r.choice([1, 2, -1])
    up = sef or r.random() < .5
    return {"m": m, "n": n, "s": s or r.choice([1, 1, 2, 4]), "A": A, "b": b, "c": c if up else [-v for v in c], "z": r.choice([0, 0, r.randint(-9, 9)]),
            "obj": "max" if up else "min", "rel": rel, "sgn": sgn}


def program(r, sef=None, m=None, n=None, s=None, big=False, kind=None):
    if m is n is kind is None and not big and r.random() < LARGE:
        return network(r, r.random() < .25 if sef is None else sef, s)
    most = 0
    if m is n is kind is None and not big and r.random() < LONG:
        m, n, most = r.choice([1, 2, 2, 3]), r.randint(9, 13), r.random()
    m = m or r.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5])
    n = n or r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    if sef is None:
        sef = r.random() < .25
    if sef:
        n = max(n, m)
    kind = kind or r.choice(["any", "any", "sparse", "unit", "degenerate", "redundant", "shifted", "feasible", "feasible", "wide", "spread", "contradiction"] + (["near"] if sef and m == 2 else []))
    a = MAXA[m] if kind == "wide" else min(MAXA[m], r.choice([1, 2, 2, 3, 3, 5]))
    if kind == "near":
        return near(r, s)
    lo = r.choice([-a, -a, 0])
    dens = r.choice([.4, .7, 1, 1]) if kind != "sparse" else .35

    def val(x=a, l=lo):
        return r.randint(l, x) if r.random() < dens else 0
    hard = None
    A = [[val() for _ in range(n)] for _ in range(m)]
    if kind == "spread" and m in (2, 3):             # rows of very different size
        tops = r.sample([4, 500] if m == 2 else [2, 4, 60], m)
        A = [[val(t, -t if lo < 0 else 0) if r.random() < .6 else val(2, lo and -2) for _ in range(n)] for t in tops]
    if kind == "redundant" and m > 1:
        k = r.randrange(1, m)
        src = r.randrange(0, k)
        f = r.choice([1, 1, -1, 2])
        if r.random() < .4 and k > 1:
            row = [u + v for u, v in zip(A[0], A[1])]
        else:
            row = [f * v for v in A[src]]
        if max(map(abs, row)) <= MAXA[m]:
            A[k] = row
    if kind == "contradiction" and m > 1:            # some combination of the rows cannot be met, most right-hand sides negative
        a = max(1, min(MAXA[m], 3) // 2)
        for _ in range(50):
            rows = [[r.randint(-a, a) for _ in range(n)] for _ in range(m - 1)]
            rb = [r.randint(-6, 2) for _ in range(m - 1)]
            y = [r.choice([-1, 1, 1, -1, 0, 2]) for _ in range(m - 1)]
            last = [r.randint(0, 1) - sum(y[i] * rows[i][j] for i in range(m - 1)) for j in range(n)]
            lb = -r.randint(1, 3) - sum(y[i] * rb[i] for i in range(m - 1))
            if max(map(abs, last)) <= MAXA[m]:
                A = rows + [last]
                hard = rb + [lb]
                order = r.sample(range(m), m)
                A, hard = [A[i] for i in order], [hard[i] for i in order]
                for i in range(m):
                    if hard[i] > 0 and r.random() < .7:
                        A[i], hard[i] = [-v for v in A[i]], -hard[i]
                break
    if kind == "unit":
        for i in range(min(m, n)):
            j = n - min(m, n) + i
            for q in range(m):
                A[q][j] = 1 if q == i else 0
    B = 10 ** 5 if big else r.choice([3, 6, 12, 100])
    b = [r.randint(-B if r.random() < .4 else 0, B) for _ in range(m)]
    if kind == "contradiction" and hard:
        b = hard
    if kind == "degenerate":
        b = [0 if r.random() < .7 else v for v in b]
    rel = ["="] * m if sef else [r.choice(["<=", "<=", ">=", "="]) for _ in range(m)]
    if not sef and r.random() < .25:
        rel = ["<="] * m
    sgn = ["+"] * n if sef or r.random() < .3 else ["f" if r.random() < most else r.choice(["+", "+", "-", "f"]) for _ in range(n)]
    if kind in ("feasible", "redundant", "shifted"):
        x0 = [r.randint(0, 4) for _ in range(n)]
        x0 = [v if g == "+" else -v if g == "-" else r.choice([-v, v]) for v, g in zip(x0, sgn)]
        for i in range(m):
            t = sum(u * v for u, v in zip(A[i], x0))
            b[i] = t + (0 if rel[i] == "=" else r.choice([0, 0, 1, 3]) * (1 if rel[i] == "<=" else -1))
    C = r.choice([1, 3, 7, 20])
    c = [r.randint(-C, C) for _ in range(n)]
    if r.random() < .3:
        c = [-abs(v) for v in c]
    if r.random() < .25 and m >= 1:                  # objective from a dual point: bounded
        y = [r.randint(-2, 2) for _ in range(m)]
        c = [sum(y[i] * A[i][j] for i in range(m)) - r.choice([0, 0, 1, 2]) for j in range(n)]
    if s is None:
        s = r.choice([1, 1, 1, 2, 4, 10])
    return {"m": m, "n": n, "s": s, "A": A, "b": b, "c": c, "z": r.choice([0, 0, r.randint(-9, 9)]),
            "obj": "max" if sef else r.choice(["max", "min"]), "rel": rel, "sgn": sgn}


def near(r, s=None):
    """Two almost parallel equations: feasible or infeasible by a hair, but every basis well conditioned."""
    z = r.random()
    while True:
        n = r.choice([2, 3, 4])
        a = [r.randint(300, 400) for _ in range(n)]
        d = [r.choice([1, 1, 2, 3, 0, -1]) for _ in range(n)]
        if z > .3:
            d = [abs(t) or 1 for t in d]
        dets = [abs(a[i] * d[j] - a[j] * d[i]) for i in range(n) for j in range(i)]
        if all(t == 0 or t >= 150 for t in dets):
            break
    t = r.choice([1, 1, 2, 3, 5, a[0], a[-1]])
    b = [t, t + r.choice([0, 0, 0, 1, -1])]
    if z < .3:
        b = [a[0], a[0] - d[0]]
    elif z < .65:                                     # no combination of the columns is parallel to the right-hand side
        b = [1, 1]
    A = [a, [u - v for u, v in zip(a, d)]]
    f = r.choice([1, 1, -1])
    A, b = [A[0], [f * v for v in A[1]]], [b[0], f * b[1]]
    if r.random() < .5:
        A, b = A[::-1], b[::-1]
    return {"m": 2, "n": n, "s": s or r.choice([1, 1, 2, 10]), "A": A, "b": b, "c": [r.randint(-5, 5) for _ in range(n)], "z": r.choice([0, 0, r.randint(-9, 9)]),
            "obj": "max", "rel": ["=", "="], "sgn": ["+"] * n}


def skew(r, p, top):
    """Rows replaced by combinations of rows: the same bases and determinants, but ill-conditioned (equality rows only)."""
    A, b = [row[:] for row in p["A"]], p["b"][:]
    if p["m"] < 2:
        return p
    for _ in range(2 * p["m"]):
        i, k = r.sample(range(p["m"]), 2)
        f = r.choice([1, -1, 2, -3, 5, 7, -11])
        row = [u + f * v for u, v in zip(A[i], A[k])]
        if max(map(abs, row)) <= top and abs(b[i] + f * b[k]) <= 10 ** 5:
            A[i], b[i] = row, b[i] + f * b[k]
    return dict(p, A=A, b=b)


def truth(p):
    """A witness that fits the specification's integers, or None."""
    w = exactlp.witness(p)
    return w if exactlp.fits(p, w["x"], w["y"]) else None


def wide_truth(p):
    """As truth, where a large b is not held against x."""
    w = exactlp.witness(p)
    return w if exactlp.primal_fits(p, w["x"]) and (exactlp.primal_fits if w["kind"] == "unbounded" else exactlp.dual_fits)(p, w["y"]) else None


# classic programs on which careless pivoting cycles or ties occur
def classics():
    def sef(A, b, c, s=1):
        return {"m": len(A), "n": len(A[0]), "s": s, "A": A, "b": b, "c": c, "z": 0, "obj": "max", "rel": ["="] * len(A), "sgn": ["+"] * len(A[0])}
    return [
        sef([[1, -11, -5, 18, 2, 0, 0], [1, -3, -1, 2, 0, 2, 0], [2, 0, 0, 0, 0, 0, 2]], [0, 0, 2], [20, -114, -18, -48, 0, 0, 0], 2),
        sef([[1, -32, -4, 36, 4, 0, 0], [2, -48, -2, 12, 0, 4, 0], [0, 0, 4, 0, 0, 0, 4]], [0, 0, 4], [3, -80, 2, -24, 0, 0, 0], 4),
        sef([[1, 2, 1, 0], [2, 1, 0, 1]], [4, 4], [1, 1, 0, 0]),
        sef([[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 0, 0, 0, 1]], [2, 2, 1], [3, 2, 0, 0, 0]),
        sef([[1, -1, 1, 0], [-1, 1, 0, 1]], [1, 1], [1, 1, 0, 0]),
        sef([[1, 1], [1, 1]], [1, 2], [1, 1]),
        sef([[1, 1], [2, 2]], [1, 2], [1, 2]),
        sef([[0, 0]], [0], [-1, -1]),
        sef([[0, 0]], [0], [1, -1]),
        sef([[0, 0]], [1], [1, -1]),
    ]
