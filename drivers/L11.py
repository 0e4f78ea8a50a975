"""L11 - adding constraints and variables: edit histories judged by Store.tla, solved at the end."""
from vf import store
from vf.gen import rng
from drivers import L09
from drivers.L05 import RS

TRACE_MODULE = "TraceStore"
RULE = "random sequences of 2 to 8 additions of rows and variables (in place, on copies, malformed ones in between, conversions to standard form and duals among them), every resulting program solved against a witness"
ASSUMPTIONS = ["data are multiples of 1/s, s in {1, 2}; at most 4 rows and 8 variables"]
record = store.record


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\n" + RS + "INVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCTransform", cfg % (1, 1, 1, 1, 1))
    if not ctx.quick:
        ctx.tlc("MCTransform", cfg % (2, 1, 1, 1, 1), timeout=1500)


def cases(ctx):
    r = rng(ctx, "edits")
    ops = ["row"] * 6 + ["var"] * 6 + ["copy", "sef", "dual", "ask"]
    return [L09.history(r, ops, r.randint(2, 8)) for _ in range(ctx.pick(800, 12000))]


def execute(case):
    return store.run(case, final=True)


def canaries():
    out = [c for c in L09.canaries() if "row" in c[1] or "var" in c[1]]
    P = {"k": "ok", "m": 1, "n": 1, "s": 1, "A": [[2]], "b": [4], "c": [3], "z": 0, "obj": "max", "rel": ["<="], "sgn": ["+"]}
    w = {"kind": "optimal", "x": {"k": "vec", "num": [2], "den": 1}, "y": {"k": "vec", "num": [3], "den": 2}}

    def rec(**kw):
        e = {"op": "final", "r": 1, "inp": 0, "k": "ok", "self": 0, "after": [1], "args": 1, "sef": 0, "x": w["x"], "w": w}
        e.update(kw)
        return {"tab": [{"kind": "LP", "ints": [], "p": P, "r": {"m": 1, "n": 1}}], "init": [1], "ev": [e]}
    return out + [(rec(sef=1), "standard"), (rec(x={"k": "none", "num": [], "den": 1}), "solve"), (rec(x={"k": "vec", "num": [1], "den": 1}), "solve"), (rec(k="exc"), "solve"), (rec(w=dict(w, y={"k": "vec", "num": [1], "den": 1})), "no-witness")]
