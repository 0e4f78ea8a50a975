"""L04 - canonical forms against Canon!View (Cramer's rule)."""
from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceCanon"
RULE = "programs (in standard equality form and not) x bases in any order and non-bases (dependent, short, long, repeated, out of range), in place and not; is_canonical_form_for on results, on hand-made canonical programs and on near misses"
ASSUMPTIONS = ["the rows may come in the order of the basis as given or ascending", "is_canonical_form_for is asked about ascending bases of programs in standard equality form"]


DET = "SPECIFICATION Spec\nCONSTANTS M = %d\nNeg = %d\nPos = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d\nN = %d\nNeg = %d\nPos = %d\nG = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCCanon", cfg % (1, 3, 1, 1, 1))
    ctx.tlc("MCCanon", cfg % (2, 2, 1, 1, 1))
    ctx.tlc("MCDet", DET % (2, 2, 2))
    ctx.tlc("MCDet", DET % (3, 1, 0 if ctx.quick else 1))
    if not ctx.quick:
        ctx.tlc("MCCanon", cfg % (2, 3, 1, 1, 1), timeout=2000, heap="8g")
        ctx.tlc("MCCanon", cfg % (3, 3, 0, 1, 1), timeout=2000, heap="8g")
        ctx.tlc("MCDet", DET % (4, 0, 1))


def nonbasis(r, p):
    z = r.randrange(6)
    full = list(range(1, p["n"] + 1))
    if z == 0:
        return r.sample(full, min(p["n"], max(0, p["m"] - 1)))
    if z == 1 and p["n"] > p["m"]:
        return r.sample(full, p["m"] + 1)
    if z == 2:
        B = [r.choice(full) for _ in range(p["m"])]
        if p["m"] > 1:
            B[1] = B[0]
        return B
    if z == 3:
        B = r.sample(full, p["m"]) if p["n"] >= p["m"] else full
        B[r.randrange(len(B))] = r.choice([0, p["n"] + 1, -1])
        return B
    return r.sample(full, min(p["n"], p["m"]))


def cases(ctx):
    r = rng(ctx, "canon")
    out = []
    while len(out) < ctx.pick(1300, 13000):
        big = r.random() < .05
        p = lpgen.program(r, sef=r.random() < .88, m=r.choice([1, 2]) if big else None, big=big)
        if not big and r.random() < .15 and all(x == "=" for x in p["rel"]):
            p = lpgen.skew(r, p, {2: 400, 3: 60}.get(p["m"], 20))
        bs = [B for B, _ in lpio.bases(p, 60)] if p["n"] >= p["m"] else []
        B = list(r.choice(bs)) if bs and r.random() < .85 else nonbasis(r, p)
        if r.random() < .4:
            r.shuffle(B)
        ask = []
        if bs and p["obj"] == "max" and all(x == "=" for x in p["rel"]) and all(g == "+" for g in p["sgn"]):
            for _ in range(r.randint(0, 3)):
                C = list(r.choice(bs))
                q = dict(p)
                if r.random() < .8:                 # a canonical program for C, or a near miss
                    q = dict(p, A=[row[:] for row in p["A"]], c=p["c"][:])
                    for k, j in enumerate(C):
                        for i in range(p["m"]):
                            q["A"][i][j - 1] = p["s"] if i == k else 0
                        q["c"][j - 1] = 0
                    z = r.random()
                    if z < .2:
                        q["c"][r.choice(C) - 1] = r.choice([1, -1])
                    elif z < .4:
                        i, j = r.randrange(p["m"]), r.choice(C) - 1
                        q["A"][i][j] = r.choice([-p["s"], 0, p["s"], 2 * p["s"]])
                    elif z < .5 and p["m"] > 1:
                        q["A"][0], q["A"][1] = q["A"][1], q["A"][0]
                ask.append({"p": q, "B": sorted(C) if r.random() < .9 else sorted(nonbasis(r, p))})
        out.append({"p": p, "B": B, "inplace": r.randint(0, 1), "arrays": r.randint(0, 1), "nd": int(r.random() < .1), "ask": ask})
    return out


def execute(case):
    p = case["p"]
    prog = lpio.make(p, arrays=bool(case["arrays"]))
    orig = lpio.read(prog, p["s"])
    B = case["B"]
    arg = list(B)
    if case["nd"]:
        import numpy as np
        arg = np.array(B, dtype=int)
    k, v = attempt(prog.to_canonical_form, arg, in_place=True) if case["inplace"] else attempt(prog.to_canonical_form, arg)
    out = {"k": k, "o": {"k": "none"}, "is": [], "same": 1}
    if not case["inplace"] or k != "ok":
        out["same"] = int(lpio.read(prog, p["s"]) == orig and (list(arg) == B))
    if k == "ok":
        out["o"] = lpio.read_rows(v, 5000, p["s"])
        if case["inplace"] and v is not prog:
            out["o"]["k"] = "odd"
        if B == sorted(B):
            k2, a = attempt(v.is_canonical_form_for, list(B))
            out["is"].append({"p": {"own": 1}, "B": B, "k": k2, "v": int(bool(a)) if k2 == "ok" else 0})
    for q in case["ask"]:
        k2, a = attempt(lpio.make(q["p"]).is_canonical_form_for, list(q["B"]))
        out["is"].append({"p": q["p"], "B": q["B"], "k": k2, "v": int(bool(a)) if k2 == "ok" else 0})
    return out


def record(case, obs):
    base = {"p": case["p"], "B": case["B"]}
    if "crash" in obs:
        return dict(base, k=obs["crash"], o={"k": "none"}, **{"is": []}, same=1)
    return dict(base, **obs)


def canaries():
    p = {"m": 2, "n": 4, "s": 1, "A": [[1, 2, 1, 0], [2, 1, 0, 1]], "b": [4, 4], "c": [1, 1, 0, 0], "z": 5, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 4}

    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}
    cost = vec(0, 1, 0, -1, 14, d=2)
    rows = [vec(0, 3, 2, -1, 4, d=2), vec(2, 1, 0, 1, 4, d=2)]

    def rec(rows=rows, cost=cost, B=(3, 1), k="ok", p=p, ask=(), same=1, **kw):
        return {"p": p, "B": list(B), "k": k, "o": dict({"k": "ok", "m": 2, "n": 4, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 4, "rows": rows, "cost": cost}, **kw),
                "is": [dict(a) for a in ask], "same": same}
    yes = {"p": p, "B": [3, 4], "k": "ok", "v": 0}
    no = {"p": dict(p, c=[1, 1, 1, 0]), "B": [3, 4], "k": "ok", "v": 1}
    return [(rec(cost=vec(0, 1, 0, -1, 4, d=2)), "canonical"), (rec(rows=[rows[0], vec(2, 1, 0, 1, 5, d=2)]), "canonical"), (rec(B=(3, 2)), "canonical"),
            (rec(k="exc"), "outcome-exc"), (rec(B=(3, 3)), "rejected"), (rec(p=dict(p, obj="min")), "rejected"), (rec(ask=[yes]), "recognised"), (rec(ask=[no]), "recognised"),
            (rec(same=0), "altered"), (rec(rows=[vec(0, 3, 2, 1, 4, d=2), rows[1]]), "canonical"), (rec(B=(5, 1)), "rejected")]
