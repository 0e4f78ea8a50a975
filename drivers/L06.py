"""L06 - duals against Transform!Dual."""
from vf import lpgen
from vf.gen import rng
from drivers.L05 import P, RS, SCALES, execute, record  # noqa: F401

TRACE_MODULE = "TraceTransform"
RULE = "random programs with every mix of senses, relations and signs; dual, dual of the dual, optimal values of both, edits on either side afterwards"
ASSUMPTIONS = ["data are multiples of 1/s, s in {1, 2, 3, 4, 8, 10, 16, 1000}"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\n" + RS + "INVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCTransform", cfg % (2, 1, 1, 1, 1))
    if not ctx.quick:
        ctx.tlc("MCTransform", cfg % (1, 2, 1, 1, 1), timeout=1500)
        ctx.tlc("MCTransform", cfg % (2, 2, 0, 1, 1), timeout=3000, heap="8g")


def cases(ctx):
    r = rng(ctx, "dual")
    return [{"f": "dual", "p": lpgen.program(r, big=k % 9 == 0, s=SCALES[k % len(SCALES)]), "inplace": 0, "arrays": r.randint(0, 1), "solve": int(k % 9 > 0 and SCALES[k % len(SCALES)] <= 10 and r.random() < .4)} for k in range(ctx.pick(1500, 15000))]


def canaries():
    q = {"k": "ok", "m": 3, "n": 2, "s": 2, "A": [[1, 4], [2, 5], [3, 6]], "b": [7, 0, 9], "c": [-1, 8], "z": 0, "obj": "max", "rel": ["=", "<=", ">="], "sgn": ["+", "f"]}
    qq = dict(P, k="ok", z=0)

    def rec(q=q, qq=qq, k="ok", same=(), vals=()):
        return {"f": "dual", "p": P, "k": k, "q": q, "qq": qq, "vals": list(vals), "same": list(same)}
    return [(rec(dict(q, rel=["=", ">=", ">="])), "result"), (rec(dict(q, sgn=["-", "f"])), "result"), (rec(dict(q, z=3)), "result"), (rec(qq=dict(qq, z=3)), "twice"),
            (rec(dict(q, A=[[1, 4], [2, 5], [3, 7]])), "result"), (rec(k="exc"), "outcome-exc"), (rec(same=["dual-sees-original"]), "dual-sees-original"),
            (rec(vals=[[["vec", 5, 1], ["vec", 5, 1]]]), "values"), (rec(vals=[[["none", 0, 1], ["vec", 5, 1]]]), "values"), (rec(vals=[[["vec", 5, 1], ["none", 0, 1]]]), "values")]
