"""L12 - printed programs against Printing!Printed."""
from vf import lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TracePrint"
RULE = "random programs up to 13 rows and 13 variables (numbers from 1e-13 to 1e15 with up to nine digits, integers, fractions, zeros, mixed widths in one column), printed; linear and integer programs; after edits"
ASSUMPTIONS = ["numbers are not exactly half way between two roundings and not within 10 % of the library's zero tolerance"]


def design(ctx):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Length = %d\nD = {0, 1, 5, 9}\nLow = 11\nHigh = 13\nM = 2\nN = 1\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCPrinting", cfg % 4)
    if not ctx.quick:
        ctx.tlc("MCPrinting", cfg % 7, timeout=2000)


def number(r, kind=None):
    kind = kind or r.choice(["close", "int", "int", "small", "dec", "dec", "frac", "tiny", "huge", "any", "zero", "edge"])
    neg = int(r.random() < .4)
    digs = lambda k: [r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])] + [r.choice([0, 0, 9, 9, r.randint(0, 9)]) for _ in range(k - 1)]
    k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
    if kind == "zero":
        d, e = [], 0
    elif kind == "small":
        d, e = digs(1), 1
    elif kind == "int":
        d = digs(k)
        e = k + r.choice([0, 0, 0, 1, 2])
    elif kind == "close":                            # within or just beyond 1e-10 of an integer
        e = r.choice([0, 1, 1, 2, 3])
        d = digs(e) if e else []
        if r.random() < .5:
            d = d + [9] * r.choice([2, 3, 4, 8, 11, 11, 12 if e < 3 else 11]) + [r.randint(1, 8)] * r.randint(0, 1)
        elif e:
            z = r.choice([2, 3, 4, 8, 11, 11])
            d = d + [0] * z + [r.randint(1, 9)]
        else:
            d = [r.randint(1, 9)]
    elif kind == "dec":
        d, e = digs(r.randint(2, 9)), r.randint(1, 5)
    elif kind == "frac":
        d, e = digs(k), r.choice([0, 0, 0, -1, -2, -3])
    elif kind == "tiny":
        d, e = digs(k), r.choice([-4, -5, -6, -8, -10, -11, -12])
    elif kind == "huge":
        d, e = digs(k), r.randint(10, 15)
    elif kind == "edge":
        d, e = r.choice([[1], [9, 9, 9, 9, 9, 9], [1, 0, 0, 0, 0, 1], [9, 9, 9, 5, 1], [9, 9, 9, 4, 9], [1, 2, 3, 4, 5, 1]]), r.choice([-8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 10, 11, 12])
    else:
        d, e = digs(k), r.randint(-9, 13)
    while d and d[-1] == 0:
        d = d[:-1]
    if not d:
        neg, e = r.choice([0, 0, 1]), 0
    keep = 4 if e < 1 or e > 11 or (e == 11 and d != [1]) else e + 3
    half = len(d) == keep + 1 and d[keep] == 5
    near = e in (-9,) and d and abs(val({"neg": 0, "dig": d, "e": e}) - 1e-10) < 2e-11
    if half or near or (e == -10 and d and d[0] >= 8):
        return number(r, "small")
    return {"neg": neg, "dig": d, "e": e}


def val(n):
    if not n["dig"]:
        return -0.0 if n["neg"] else 0.0
    v = float("%s0.%se%d" % ("-" if n["neg"] else "", "".join(map(str, n["dig"])), n["e"]))
    return v


def norm(n):
    return dict(n, neg=0) if not n["dig"] else n


def cases(ctx):
    r = rng(ctx, "print")
    out = []
    for _ in range(ctx.pick(2000, 30000)):
        m, n = r.choice([1, 1, 2, 2, 3, 4, 5, 5, 8, 11, 13]), r.choice([1, 2, 3, 4, 5, 7, 10, 12, 13])
        kinds = r.choice([None, None, ["int", "small", "zero"], ["dec", "small"], ["frac", "small"], ["small"], ["tiny", "int"], ["huge", "frac"]])
        g = lambda: number(r, r.choice(kinds) if kinds else None)
        kind = r.choice(["LP", "LP", "LP", "IP"])
        case = {"m": m, "n": n, "A": [[g() for _ in range(n)] for _ in range(m)], "b": [g() for _ in range(m)], "c": [g() for _ in range(n)], "z": g() if r.random() < .7 else {"neg": 0, "dig": [], "e": 0},
                "obj": r.choice(["max", "min"]), "rel": [r.choice(["=", "<=", ">="]) for _ in range(m)],
                "sgn": [r.choice("+-f")] * n if r.random() < .3 else [r.choice("++-f") for _ in range(n)], "kind": kind, "listed": int(kind == "IP" and r.random() < .3),
                "how": r.randint(0, 3), "twice": int(r.random() < .2)}
        out.append(case)
    return out


def execute(case):
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    A = [[val(v) for v in row] for row in case["A"]]
    b, c = [val(v) for v in case["b"]], [val(v) for v in case["c"]]
    free = [j + 1 for j, g in enumerate(case["sgn"]) if g == "f"]
    neg = [j + 1 for j, g in enumerate(case["sgn"]) if g == "-"]
    cls = IntegerProgram if case["kind"] == "IP" else LinearProgram
    kw = {"integral_variables": [1]} if case["listed"] else {}
    m, n = case["m"], case["n"]
    if case["how"] == 1 and m > 1:                   # the last row added afterwards
        prog = cls(A[:-1], b[:-1], c, val(case["z"]), case["obj"], case["rel"][:-1], free, neg, **kw).add_constraint(A[-1], case["rel"][-1], b[-1])
    elif case["how"] == 2 and n > 1:                 # the last variable added afterwards
        prog = cls([row[:-1] for row in A], b, c[:-1], val(case["z"]), case["obj"], case["rel"], [j for j in free if j < n], [j for j in neg if j < n], **kw) \
            .add_variable(c[-1], [row[-1] for row in A], n in free, n in neg)
    else:
        prog = cls(np.array(A) if case["how"] == 3 else A, b, c, val(case["z"]), case["obj"], case["rel"], free, neg, **kw)
    before = [prog.A.tolist(), prog.b.tolist(), prog.c.tolist(), float(prog.z), lpio.frame(prog)]
    if case["twice"]:
        attempt(str, prog)
    k, t = attempt(str, prog)
    after = [prog.A.tolist(), prog.b.tolist(), prog.c.tolist(), float(prog.z), lpio.frame(prog)]
    lines = []
    if k == "ok":
        if t.endswith("\n"):
            t = t[:-1]
        lines = [[ord(x) for x in line] for line in t.split("\n")]
    return {"k": k, "t": lines, "same": int(before == after)}


def record(case, obs):
    p = {"m": case["m"], "n": case["n"], "A": [[norm(v) for v in row] for row in case["A"]], "b": [norm(v) for v in case["b"]], "c": [norm(v) for v in case["c"]], "z": norm(case["z"]),
         "obj": case["obj"], "rel": case["rel"], "sgn": case["sgn"], "int": int(case["kind"] == "IP" and not case["listed"])}
    if "crash" in obs:
        return {"p": p, "k": obs["crash"], "t": [], "same": 1}
    return dict(obs, p=p)


def canaries():
    def n(t):
        neg = int(t < 0)
        s = str(abs(t))
        if t == 0:
            return {"neg": 0, "dig": [], "e": 0}
        i, _, f = s.partition(".")
        i = i.lstrip("0")
        ds = (i + f).rstrip("0")
        return {"neg": neg, "dig": [int(x) for x in ds.lstrip("0")], "e": len(i) if i else -(len(ds) - len(ds.lstrip("0")))}
    p = {"m": 2, "n": 3, "A": [[n(100), n(9589), n(-0.693)], [n(7), n(-8.2), n(90.56)]], "b": [n(-6), n(15)], "c": [n(5), n(0), n(-2.9589)], "z": n(-8), "obj": "min", "rel": [">=", "="], "sgn": ["+", "f", "-"], "int": 0}
    good = ["Min [5. 0. -2.959]x - 8.", "Subject To:", "", "[100.  9589.   -0.693]     ≥   [-6.]", "[  7.    -8.2  90.56 ]x    =   [15.]", "x₃ ≤ 0", "x₁ ≥ 0"]

    def rec(lines, same=1, k="ok"):
        return {"p": p, "k": k, "t": [[ord(x) for x in line] for line in lines], "same": same}

    def sub(i, a, b):
        return [line.replace(a, b) if k == i else line for k, line in enumerate(good)]
    return [(rec(sub(0, "Min", "Max")), "objective"), (rec(sub(0, "- 8", "+ 8")), "objective"), (rec(sub(0, "2.959", "2.958")), "objective"), (rec(sub(3, "≥", "≤")), "rows"), (rec(sub(4, "90.56", "9.056")), "rows"), (rec(sub(3, "100.", " 100.")), "rows"),
            (rec(good[:6]), "signs"), (rec(sub(5, "₃", "₂")), "signs"), (rec(good[:5] + good[6:]), "signs"), (rec(good, 0), "altered"), (rec(good, k="exc"), "outcome-exc"), (rec(good + ["x"]), "signs")]
