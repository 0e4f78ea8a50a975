"""Exact rational LP: proposes witnesses (x, y, ray) that the TLA+
specification then checks; nothing here is trusted by a verdict.

A program is the JSON form used everywhere:
  {m, n, s, A, b, c, z, obj, rel, sgn}   (integers; real datum = integer / s)
"""
from fractions import Fraction as F
from math import gcd


def vec(xs):
    den = 1
    for x in xs:
        den = den * x.denominator // gcd(den, x.denominator)
    return {"k": "vec", "num": [int(x * den) for x in xs], "den": den}


def solve(p):
    """{'kind': 'optimal'|'infeasible'|'unbounded', 'x': [F], 'y': [F]}  (data taken over s)"""
    m, n, s = p["m"], p["n"], p["s"]
    A = [[F(v, s) for v in row] for row in p["A"]]
    b = [F(v, s) for v in p["b"]]
    c = [F(v, s) for v in p["c"]]
    mx = p["obj"] == "max"
    cols, cost, back = [], [], []          # back[k] = (original variable, factor)
    for j in range(n):
        fac = {"+": [1], "-": [-1], "f": [1, -1]}[p["sgn"][j]]
        for f in fac:
            cols.append([A[i][j] * f for i in range(m)])
            cost.append((c[j] if mx else -c[j]) * f)
            back.append((j, f))
    for i in range(m):
        if p["rel"][i] != "=":
            cols.append([F(1 if p["rel"][i] == "<=" else -1) if k == i else F(0) for k in range(m)])
            cost.append(F(0))
            back.append((None, 0))
    N = len(cols)
    flip = [-1 if b[i] < 0 else 1 for i in range(m)]
    T = [[cols[j][i] * flip[i] for j in range(N)] + [F(int(k == i)) for k in range(m)] + [b[i] * flip[i]] for i in range(m)]
    basis = [N + i for i in range(m)]

    def run(costs, allowed):
        red = list(costs) + [F(0)]
        for i in range(m):
            f = red_cost = costs[basis[i]]
            if f:
                red = [a - f * t for a, t in zip(red, T[i])]
        while True:
            k = next((j for j in range(allowed) if red[j] > 0), None)
            if k is None:
                return None, red
            rows = [i for i in range(m) if T[i][k] > 0]
            if not rows:
                return k, red
            r = min(rows, key=lambda i: (T[i][-1] / T[i][k], basis[i]))
            pivot(r, k)
            f = red[k]
            red = [a - f * t for a, t in zip(red, T[r])]

    def pivot(r, k):
        f = T[r][k]
        T[r] = [t / f for t in T[r]]
        for i in range(m):
            if i != r and T[i][k]:
                g = T[i][k]
                T[i] = [a - g * t for a, t in zip(T[i], T[r])]
        basis[r] = k

    k, red = run([F(0)] * N + [F(-1)] * m, N)
    # red over artificials: -1 - y_i  => y_i = -1 - red
    if red[-1] != 0:      # red[-1] = -(objective) = sum of artificials
        y = [(-1 - red[N + i]) * flip[i] for i in range(m)]
        return {"kind": "infeasible", "x": [], "y": y}
    for i in range(m):
        if basis[i] >= N:
            j = next((j for j in range(N) if T[i][j] != 0), None)
            if j is not None:
                pivot(i, j)
    costs = cost + [F(0)] * m
    k, red = run(costs, N)
    x = [F(0)] * n
    for i in range(m):
        if basis[i] < N and back[basis[i]][0] is not None:
            j, f = back[basis[i]]
            x[j] += f * T[i][-1]
    if k is not None:
        full = [F(0)] * N
        full[k] = F(1)
        for i in range(m):
            if basis[i] < N:
                full[basis[i]] = -T[i][k]
        d = [F(0)] * n
        for q in range(N):
            if back[q][0] is not None:
                d[back[q][0]] += back[q][1] * full[q]
        return {"kind": "unbounded", "x": x, "y": d}
    y = [-red[N + i] * flip[i] * (1 if mx else -1) for i in range(m)]
    return {"kind": "optimal", "x": x, "y": y}


def witness(p):
    r = solve(p)
    return {"kind": r["kind"], "x": vec(r["x"]), "y": vec(r["y"])}


def fits(p, *vecs, lim=2 ** 30):
    """No product the specification forms on these vectors leaves 31 bits."""
    big = max([1, p["s"]] + [abs(v) for row in p["A"] for v in row] + [abs(v) for v in p["b"] + p["c"] + [p["z"]]])
    for v in vecs:
        w = max([v["den"]] + [abs(t) for t in v["num"]])
        if w * big * (max(p["m"], p["n"]) + 1) >= lim:
            return False
    return True


def primal_fits(p, v, lim=2 ** 30):
    """As fits, for a point or direction of p: b only ever meets its denominator."""
    big = max([1, p["s"]] + [abs(t) for row in p["A"] for t in row] + [abs(t) for t in p["c"]])
    w = max([1] + [abs(t) for t in v["num"]])
    return big * (w * p["n"] + v["den"]) + v["den"] * abs(p["z"]) < lim and v["den"] * max(abs(t) for t in p["b"]) < lim


def dual_fits(p, v, lim=2 ** 30):
    """As fits, for multipliers of the rows of p."""
    big = max([1, p["s"]] + [abs(t) for row in p["A"] for t in row] + [abs(t) for t in p["b"] + p["c"]])
    return big * (max([1] + [abs(t) for t in v["num"]]) * p["m"] + v["den"]) < lim


def det(M):
    M = [[F(v) for v in row] for row in M]
    n, d = len(M), F(1)
    for k in range(n):
        r = next((i for i in range(k, n) if M[i][k] != 0), None)
        if r is None:
            return F(0)
        if r != k:
            M[k], M[r] = M[r], M[k]
            d = -d
        d *= M[k][k]
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                M[i] = [a - f * t for a, t in zip(M[i], M[k])]
    return d


def solve_square(M, b):
    """The solution of a regular square system."""
    m = len(M)
    T = [[F(v) for v in row] + [F(t)] for row, t in zip(M, b)]
    for k in range(m):
        i = next(i for i in range(k, m) if T[i][k])
        T[k], T[i] = T[i], T[k]
        T[k] = [t / T[k][k] for t in T[k]]
        for i in range(m):
            if i != k and T[i][k]:
                f = T[i][k]
                T[i] = [a - f * t for a, t in zip(T[i], T[k])]
    return [row[m] for row in T]
