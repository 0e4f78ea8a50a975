"""Linear programs between JSON form and the real library (observation never judges)."""
from fractions import Fraction as F
from math import gcd

CAP = 2 ** 26


def scaling(r, p, rows, cols, cost, even=False, wide=False):
    """Powers of two by which rows, variables and objective are stretched: the same program in other units."""
    if any(abs(v) > 20 for row in p["A"] for v in row):
        return None                                  # the margin of the library's absolute tolerance is used up by the condition of the bases
    if wide and r.random() < .6:                     # small or large as a whole; A, c and the terms of both phases stay clear of the tolerance
        for _ in range(99):
            k, x = r.randint(-16, 8), r.randint(-14, 6)
            R = [k if even or r.random() < .5 else k + r.randint(-4, 4) for _ in range(p["m"])]
            X = [x if r.random() < .5 else x + r.randint(-4, 4) for _ in range(p["n"])]
            c = r.randint(-16, 4)
            if min(R) - max(X) >= -14 and min(X) - max(R) >= -14 and c - max(X) >= -17 and c - min(X) <= 9:
                return {"r": R, "x": X, "c": c}
    k = r.randint(*rows)
    return {"r": [k if even else r.randint(*rows) for _ in range(p["m"])], "x": [r.randint(*cols) for _ in range(p["n"])], "c": r.randint(*cost)}


def unscale(sc, what, xs):
    """The vector (value) in the units of the program before scaling."""
    if sc is None or xs is None:
        return xs
    try:
        if what == "x":
            return [float(v) * 2.0 ** -k for v, k in zip(xs, sc["x"], strict=True)]
        if what == "y":
            return [float(v) * 2.0 ** (k - sc["c"]) for v, k in zip(xs, sc["r"], strict=True)]
        return float(xs) * 2.0 ** -sc["c"]
    except (TypeError, ValueError):
        return xs


def rescale(sc, what, xs, by=0):
    """The opposite of unscale, for vectors handed to the library."""
    import numpy as np
    nd = isinstance(xs, np.ndarray)
    ks = sc["x"] if what in "xd" else [(sc["c"] if what == "y" else 0) - k for k in sc["r"]]
    if len(ks) != len(xs):
        return xs
    out = [v * 2.0 ** (k + by) for v, k in zip(xs, ks)]
    return np.array(out) if nd else out


def ray(sc, xs):
    """A direction in the units before scaling, itself stretched to small integers where it can be."""
    xs = unscale(sc, "x", xs)
    if not sc or xs is None:
        return snap(xs)
    try:
        ds = [snap([v * 2.0 ** t for v in xs]) for t in range(-8, 9)]
    except (TypeError, ValueError):
        return snap(xs)
    return min(ds, key=lambda d: (d["k"] != "vec", d["den"] * max([1] + [abs(t) for t in d["num"]])))


class Plain:
    """A program seen in the units it had before scaling."""
    def __init__(self, prog, sc):
        self.__dict__["_p"] = prog
        import numpy as np
        m, n = prog.A.shape
        self.A = np.array([[float(prog.A[i][j]) * 2.0 ** (sc["x"][j] - sc["r"][i]) for j in range(n)] for i in range(m)]).reshape(m, n)
        self.b = [float(v) * 2.0 ** -k for v, k in zip(prog.b, sc["r"])]
        self.c = [float(v) * 2.0 ** (sc["x"][j] - sc["c"]) for j, v in enumerate(prog.c)]
        self.z = float(prog.z) * 2.0 ** -sc["c"]

    def __getattr__(self, k):
        return getattr(self._p, k)


def make(p, cls=None, arrays=False, sc=None, **kw):
    """Builds the program p = {m,n,s,A,b,c,z,obj,rel,sgn} in the library."""
    if sc:
        if cls is None:
            from pytimize.programs import LinearProgram as cls
        import numpy as np
        s = p["s"]
        R, X = np.array([2.0 ** k for k in sc["r"]]), np.array([2.0 ** -k for k in sc["x"]])
        A = np.array(p["A"], dtype=float).reshape(p["m"], p["n"]) / s * R[:, None] * X[None, :]
        b, c = np.array(p["b"], dtype=float) / s * R, np.array(p["c"], dtype=float) / s * X * 2.0 ** sc["c"]
        if not arrays:
            A, b, c = A.tolist(), b.tolist(), c.tolist()
        return cls(A, b, c, p["z"] / s * 2.0 ** sc["c"], p["obj"], list(p["rel"]), [j + 1 for j, g in enumerate(p["sgn"]) if g == "f"],
                   [j + 1 for j, g in enumerate(p["sgn"]) if g == "-"], **kw)
    if cls is None:
        from pytimize.programs import LinearProgram as cls
    s = p["s"]

    def num(v):
        return v // s if v % s == 0 else v / s
    A = [[num(v) for v in r] for r in p["A"]]
    b = [num(v) for v in p["b"]]
    c = [num(v) for v in p["c"]]
    if arrays:
        import numpy as np
        A, b, c = np.array(A, dtype=float).reshape(p["m"], p["n"]), np.array(b, dtype=float), np.array(c, dtype=float)
    return cls(A, b, c, num(p["z"]), p["obj"], list(p["rel"]), [j + 1 for j, g in enumerate(p["sgn"]) if g == "f"],
               [j + 1 for j, g in enumerate(p["sgn"]) if g == "-"], **kw)


def lattice(v, s, tol=1e-6):
    """The integer k with v = k / s, or None."""
    try:
        t = float(v) * s
    except (TypeError, ValueError):
        return None
    if t != t or abs(t) > CAP:
        return None
    k = round(t)
    return k if abs(t - k) <= tol * max(1.0, abs(t)) else None


def frame(prog):
    """Shape and symbols of a program as reported by its public properties."""
    A, b, c = prog.A, prog.b, prog.c
    m, n = int(A.shape[0]), int(A.shape[1])
    free, neg, pos = list(prog.free_variables), list(prog.negative_variables), list(prog.positive_variables)
    sgn = []
    for j in range(1, n + 1):
        g = ("f" if j in free else "") + ("-" if j in neg else "") + ("+" if j in pos else "")
        sgn.append(g)
    rel = [str(x) for x in prog.inequalities]
    ok = len(b) == m and len(c) == n and len(rel) == m and len(free) + len(neg) + len(pos) == n and all(len(g) == 1 for g in sgn) \
        and all(x in ("=", "<=", ">=") for x in rel) and free == sorted(free) and neg == sorted(neg) and pos == sorted(pos)
    # a program that misreports whether it is in standard equality form is not the program it seems
    ok = ok and bool(prog.is_sef) == (str(prog.objective) == "max" and all(x == "=" for x in rel) and all(g == "+" for g in sgn))
    return ok, {"m": m, "n": n, "obj": str(prog.objective), "rel": rel, "sgn": sgn}


def read(prog, s, sc=None):
    """The program with data over the common denominator s; k = 'odd' if it is not such a program."""
    ok, p = frame(prog)
    none = dict(p, k="odd", s=s, A=[], b=[], c=[], z=0)
    if not ok:
        return none
    if sc:
        if [len(sc["r"]), len(sc["x"])] != [p["m"], p["n"]]:
            return none
        prog = Plain(prog, sc)
    A = [[lattice(v, s) for v in r] for r in prog.A]
    b = [lattice(v, s) for v in prog.b]
    c = [lattice(v, s) for v in prog.c]
    z = lattice(prog.z, s)
    if z is None or None in b or None in c or any(None in r for r in A):
        return none
    return dict(p, k="ok", s=s, A=A, b=b, c=c, z=z)


NOVEC = {"k": "none", "num": [], "den": 1}


def snap(xs, maxden=5000, tol=1e-6, cap=10 ** 5):
    """A float vector as integers over one common denominator: {k, num, den};
    k = 'irr' if no such rational vector is near, 'none' for None."""
    if xs is None:
        return dict(NOVEC)
    try:
        xs = [float(v) for v in xs]
    except (TypeError, ValueError):
        return {"k": "odd", "num": [], "den": 1}
    den, fr = 1, []
    for v in xs:
        if v != v or abs(v) > 1e9:
            return {"k": "irr", "num": [], "den": 1}
        f = F(v).limit_denominator(maxden)
        if abs(float(f) - v) > tol * max(1.0, abs(v)):
            return {"k": "irr", "num": [], "den": 1}
        den = den * f.denominator // gcd(den, f.denominator)
        fr.append(f)
    num = [int(f * den) for f in fr]
    if den > cap or any(abs(t) > 2 ** 29 for t in num):
        return {"k": "big", "num": [], "den": 1}
    return {"k": "vec", "num": num, "den": den}


def snap1(v, maxden=5000, tol=1e-6):
    r = snap([v], maxden, tol)
    return [r["k"], r["num"][0] if r["num"] else 0, r["den"]]


def read_rows(prog, maxden=5000, s=1):
    """A program with arbitrary rational data: every row (with its right-hand side) and the
    objective (with its constant) as one vector over its own denominator."""
    ok, p = frame(prog)
    if not ok:
        return dict(p, k="odd", rows=[], cost=dict(NOVEC))
    rows = [snap(list(r) + [t], maxden, cap=10 ** 6) for r, t in zip(prog.A, prog.b)]
    return dict(p, k="ok", rows=rows, cost=snap(list(prog.c) + [prog.z], maxden * s, cap=10 ** 7))


def bases(p, limit=400):
    """The first bases of p (ascending, 1-based, lexical order) with their basic solutions, exactly."""
    from . import exactlp
    m, n, out = p["m"], p["n"], []
    cols = [[F(row[j]) for row in p["A"]] for j in range(n)]

    def reduce(v, ech):
        v = v[:]
        for piv, w in ech:
            if v[piv]:
                f = v[piv] / w[piv]
                v = [a - f * b for a, b in zip(v, w)]
        return v
    last = [0] * (n + 1)                             # rank of the columns from j on
    ech = []
    for j in range(n - 1, -1, -1):
        v = reduce(cols[j], ech)
        k = next((i for i in range(m) if v[i]), None)
        if k is not None:
            ech.append((k, v))
        last[j] = len(ech)

    def grow(B, ech, j):
        if len(out) >= limit:
            return
        if len(B) == m:
            M = [[p["A"][i][q] for q in B] for i in range(m)]
            out.append(([q + 1 for q in B], exactlp.solve_square(M, p["b"])))
            return
        for q in range(j, n):
            if last[q] < m - len(B):
                return
            v = reduce(cols[q], ech)
            k = next((i for i in range(m) if v[i]), None)
            if k is not None:
                grow(B + [q], ech + [(k, v)], q + 1)
    grow([], [], 0)
    return out
