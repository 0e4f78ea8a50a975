"""L05 - standard equality form against Transform!Sef."""
from vf import lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceTransform"
RULE = "random programs with every mix of senses, relations and signs, in place and not, converted once and twice"
ASSUMPTIONS = ["data are multiples of 1/s, s in {1, 2, 3, 4, 8, 10, 16, 1000}"]
SCALES = [1, 1, 2, 4, 10, 1, 8, 16, 3, 1000]
RS = 'Rels = {"=", "<=", ">="}\nSigns = {"+", "-", "f"}\n'


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\n" + RS + "INVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCTransform", cfg % (2, 1, 0, 1, 1))
    ctx.tlc("MCTransform", cfg % (1, 2, 0, 1, 1))
    if not ctx.quick:
        ctx.tlc("MCTransform", cfg % (2, 1, 1, 1, 2), timeout=1500)
        ctx.tlc("MCTransform", cfg % (1, 2, 1, 1, 1), timeout=1500)
        ctx.tlc("MCTransform", cfg % (2, 2, 0, 1, 1), timeout=3000, heap="8g")


def cases(ctx):
    r = rng(ctx, "sef")
    return [{"f": "sef", "p": lpgen.program(r, sef=True if k % 20 == 0 else None, big=k % 9 == 0, s=SCALES[k % len(SCALES)]), "inplace": r.randint(0, 1), "arrays": r.randint(0, 1), "solve": int(r.random() < .15 and SCALES[k % len(SCALES)] <= 10)}
            for k in range(ctx.pick(2500, 25000))]


def value(v):
    """(k, value or None) -> [k, num, den]"""
    k, x = v
    if k != "ok":
        return [k, 0, 1]
    if x is None:
        return ["none", 0, 1]
    return lpio.snap1(x, 50000)


def execute(case):
    p = case["p"]
    f = "to_sef" if case["f"] == "sef" else "dual"
    prog = lpio.make(p, arrays=bool(case["arrays"]))
    orig = lpio.read(prog, p["s"])
    out = {"k": "", "q": {"k": "none"}, "qq": {"k": "none"}, "vals": [], "same": []}
    first = attempt(prog.optimal_value) if case["solve"] else None
    inplace = case["inplace"] and f == "to_sef"
    target = prog.copy() if inplace else prog
    k, v = attempt(target.to_sef, in_place=True) if inplace else attempt(getattr(prog, f))
    out["k"] = k
    if k == "ok":
        out["q"] = lpio.read(v, p["s"])
        if inplace:
            out["q"] = lpio.read(target, p["s"])
        out["qq"] = lpio.read(getattr(v, f)(), p["s"])
        if lpio.read(v, p["s"]) != out["q"]:
            out["same"].append("altered-result")
        if case["solve"]:
            out["vals"] = [[value(first), value(attempt(v.optimal_value))]]
    if lpio.read(prog, p["s"]) != orig:
        out["same"].append("altered-original")
    if k == "ok" and f == "dual":
        # neither side sees later changes of the other
        before = lpio.read(v, p["s"])
        attempt(prog.add_constraint, [1] * p["n"], "<=", 1, in_place=True)
        attempt(prog.add_variable, 1, None, False, False, in_place=True)
        attempt(prog.to_sef, in_place=True)
        if lpio.read(v, p["s"]) != before:
            out["same"].append("dual-sees-original")
        prog2 = lpio.make(p)
        w = prog2.dual()
        attempt(w.add_constraint, [1] * p["m"], "<=", 1, in_place=True)
        attempt(w.add_variable, 1, None, False, False, in_place=True)
        attempt(w.to_sef, in_place=True)
        attempt(w.solve)
        if lpio.read(prog2, p["s"]) != orig:
            out["same"].append("original-sees-dual")
    return out


def record(case, obs):
    base = {"f": case["f"], "p": case["p"]}
    if "crash" in obs:
        return dict(base, k=obs["crash"], q={"k": "none"}, qq={"k": "none"}, vals=[], same=[])
    return dict(base, **obs)


P = {"m": 2, "n": 3, "s": 2, "A": [[1, 2, 3], [4, 5, 6]], "b": [-1, 8], "c": [7, 0, 9], "z": 3, "obj": "min", "rel": [">=", "="], "sgn": ["f", "+", "-"]}


def canaries():
    q = {"k": "ok", "m": 2, "n": 5, "s": 2, "A": [[1, -1, 2, -3, -2], [4, -4, 5, -6, 0]], "b": [-1, 8], "c": [-7, 7, 0, 9, 0], "z": 3, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 5}

    def rec(q=q, k="ok", same=(), vals=(), qq=q):
        return {"f": "sef", "p": P, "k": k, "q": q, "qq": qq, "vals": list(vals), "same": list(same)}
    return [(rec(dict(q, A=[[1, -1, 2, -3, 2], [4, -4, 5, -6, 0]])), "result"), (rec(dict(q, c=[7, -7, 0, -9, 0])), "result"), (rec(dict(q, z=-3)), "result"),
            (rec(dict(q, A=[[1, -1, 2, 3, -2], [4, -4, 5, 6, 0]], sgn=["+", "+", "+", "-", "+"])), "result"), (rec(k="exc"), "outcome-exc"),
            (rec(same=["altered-original"]), "altered-original"), (rec(vals=[[["vec", 5, 1], ["vec", 5, 1]]]), "values"), (rec(qq=dict(q, n=6)), "twice")]
