"""L14 - cs_conditions: the printed conditions against Slackness.tla."""
import re
from vf import lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceSlackness"
RULE = "random programs of every sense, row relation and sign pattern up to 8 rows and 12 variables, integer and fractional data, asked directly, after another query, from a copy, of the dual, or after a row or variable was added"
ASSUMPTIONS = ["the text is read as lines `u = 0 || a1 v1 + ... = t` (terms in any order, zero terms optional, either side first)"]
CFG = 'SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\nRels = {"<=", ">=", "="}\nSigns = {"+", "-", "f"}\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n'
SUB = {c: str(k) for k, c in enumerate("₀₁₂₃₄₅₆₇₈₉")}


def design(ctx):
    ctx.tlc("MCSlackness", CFG % (1, 1, 2, 2, 3))
    ctx.tlc("MCSlackness", CFG % (1, 2, 1, 1, 2))
    if not ctx.quick:
        ctx.tlc("MCSlackness", CFG % (2, 1, 1, 1, 2))
        ctx.tlc("MCSlackness", CFG % (2, 2, 0, 1, 2), timeout=3000, heap="8g")


def cases(ctx):
    r = rng(ctx, "cs")
    out = []
    for _ in range(ctx.pick(1500, 30000)):
        wide = r.random() < .1
        p = lpgen.program(r, m=r.choice([1, 8]) if wide else None, n=r.choice([10, 11, 12]) if wide else None, big=r.random() < .1, s=r.choice([1, 2, 4, 8, 16, 10, 3]))
        if wide and r.random() < .5:                 # more than nine rows: two-digit subscripts on y
            p = dict(p, m=11, A=[p["A"][k % p["m"]] for k in range(11)], b=[k - 3 for k in range(11)], rel=[r.choice(["<=", ">=", "="]) for _ in range(11)])
        out.append({"p": p, "plan": r.choice(["run", "run", "run", "twice", "solved", "copy", "dual", "row", "col"]), "arrays": r.randint(0, 1)})
    return out


def parse(text, m, n, s):
    """Conditions as records, or None when the text is not such a list."""
    out = []

    def side(t):
        e = [u.strip() for u in t.split("=")]
        if len(e) != 2:
            return None
        terms, pos = {}, 0
        body = e[0].replace(" ", "").replace("+-", "-")
        rx = re.compile(r"([+-]?)((?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?)?\*?([xy])([₀-₉]+|_?\d+)")
        while pos < len(body):
            k = rx.match(body, pos)
            if not k:
                return None
            i = int("".join(SUB.get(c, c) for c in k.group(4)).lstrip("_"))
            v = float(k.group(2) or 1) * (-1 if k.group(1) == "-" else 1)
            terms[k.group(3), i] = terms.get((k.group(3), i), 0.0) + v
            pos = k.end()
        try:
            return terms, float(e[1])
        except ValueError:
            return None
    for line in text.split("\n"):
        if not line.strip():
            continue
        parts = [t.strip() for t in line.split("||")]
        if len(parts) != 2:
            return None
        a, b = side(parts[0]), side(parts[1])
        if a is None or b is None:
            return None

        def zero(q):
            return len(q[0]) == 1 and list(q[0].values()) == [1.0] and q[1] == 0.0
        opts = []
        for u, v in ((a, b), (b, a)):
            if not zero(u):
                continue
            (kind, i), = u[0]
            other, size, most = ("x", n, m) if kind == "y" else ("y", m, n)
            if any(q != other or not 1 <= k <= size for q, k in v[0]) or not 1 <= i <= most:
                continue
            row = [lpio.lattice(v[0].get((other, k), 0.0), s) for k in range(1, size + 1)]
            t = lpio.lattice(v[1], s)
            if None in row or t is None:
                continue
            opts.append({"k": "row" if kind == "y" else "var", "i": i, "a": row, "t": t})
        if not opts:
            return None
        out.append(opts[0])
    return out


def execute(case):
    p, plan, s = case["p"], case["plan"], case["p"]["s"]
    if plan == "row" and p["m"] > 1:
        prog = lpio.make(dict(p, m=p["m"] - 1, A=p["A"][:-1], b=p["b"][:-1], rel=p["rel"][:-1]), arrays=bool(case["arrays"]))
        args = ([v / s for v in p["A"][-1]], p["rel"][-1], p["b"][-1] / s)
        if case["arrays"]:
            prog.add_constraint(*args, in_place=True)
        else:
            prog = prog.add_constraint(*args)
    elif plan == "col" and p["n"] > 1:
        prog = lpio.make(dict(p, n=p["n"] - 1, A=[row[:-1] for row in p["A"]], c=p["c"][:-1], sgn=p["sgn"][:-1]), arrays=bool(case["arrays"]))
        args = (p["c"][-1] / s, [row[-1] / s for row in p["A"]], p["sgn"][-1] == "f", p["sgn"][-1] == "-")
        if case["arrays"]:
            prog.add_variable(*args, in_place=True)
        else:
            prog = prog.add_variable(*args)
    else:
        prog = lpio.make(p, arrays=bool(case["arrays"]))
    if plan == "copy":
        prog = prog.copy()
    if plan == "dual":
        prog = prog.dual()
    if plan == "solved":
        attempt(prog.solve, show_steps=False)
    before = lpio.read(prog, s)
    if plan == "twice":
        attempt(prog.cs_conditions)
    k, t = attempt(prog.cs_conditions)
    cs = parse(t, before["m"], before["n"], s) if k == "ok" and isinstance(t, str) else None
    return {"k": k if k != "ok" else "ok" if cs is not None else "unreadable", "cs": cs or [], "q": before, "same": int(lpio.read(prog, s) == before)}


def record(case, obs):
    if "crash" in obs:
        return {"p": case["p"], "k": obs["crash"], "cs": [], "same": 1}
    q = dict(obs["q"])
    k = q.pop("k")
    return {"p": q, "k": obs["k"] if k == "ok" else "odd-program", "cs": obs["cs"], "same": int(obs["same"] and (case["plan"] == "dual" or q == case["p"]))}


def canaries():
    p = {"m": 2, "n": 2, "s": 2, "A": [[1, 2], [-2, 4]], "b": [4, -3], "c": [1, 5], "z": 3, "obj": "min", "rel": ["<=", "="], "sgn": ["+", "f"]}
    row = {"k": "row", "i": 1, "a": [1, 2], "t": 4}
    var = {"k": "var", "i": 1, "a": [1, -2], "t": 1}

    def rec(*cs, k="ok", same=1):
        return {"p": p, "k": k, "cs": list(cs), "same": same}
    return [(rec(row), "missing"), (rec(var), "missing"), (rec(row, var, dict(row, i=2, a=[-2, 4], t=-3)), "wrong"), (rec(row, dict(var, a=[1, 2])), "wrong"), (rec(dict(row, t=3), var), "missing"),
            (rec(row, var, row), "repeated"), (rec(row, var, same=0), "altered"), (rec(k="exc"), "outcome-exc"), (rec(k="unreadable"), "outcome-unreadable"), (rec(dict(row, k="var"), var), "wrong")]
