"""L02 - two_phase_simplex: outcome and certificate against witnesses checked in LP.tla."""
from vf import exactlp, lpgen, lpio
from vf.gen import attempt, rng
from drivers.L01 import TWO, programs

TRACE_MODULE = "TraceSolve"
RULE = "programs in standard equality form up to 5 rows and 6 variables (degenerate, redundant, negative right-hand sides, infeasible, unbounded, large), with some programs in other forms, in other units"
ASSUMPTIONS = ["data bounded per number of rows so that basis determinants stay below 5000; right-hand sides up to 1e5",
               "with redundant rows the optimal basis is a maximal independent set of columns (it cannot have as many columns as rows)"]


def design(ctx):
    ctx.tlc("MCTwoPhase", TWO % (1, 2, 1, 1, "{0, 1}"))
    if not ctx.quick:
        ctx.tlc("MCTwoPhase", TWO % (2, 2, 1, 1, "{0, 1}"), timeout=2000, heap="8g")
        ctx.tlc("MCTwoPhase", TWO % (1, 3, 1, 2, "{0, 1, 2}"), timeout=2000, heap="8g")


def cases(ctx):
    r, ps = programs(ctx, "two", ctx.pick(2000, 25000), True)
    out = []
    for p in ps:
        if r.random() < .03:
            p = dict(p, **r.choice([{"obj": "min"}, {"rel": ["<="] + p["rel"][1:]}, {"sgn": ["f"] + p["sgn"][1:]}]))
            if lpgen.truth(p) is None:
                continue
        out.append({"p": p, "sc": lpio.scaling(r, p, (-8, 8), (-6, 6), (-14, 4), True, True) if r.random() < .3 else None, "arrays": r.randint(0, 1), "twice": int(r.random() < .15)})
    return out


def execute(case):
    p = case["p"]
    prog = lpio.make(p, arrays=bool(case["arrays"]), sc=case.get("sc"))
    sc = case.get("sc")
    orig = lpio.read(prog, p["s"], sc)
    if case["twice"]:
        attempt(prog.two_phase_simplex)
    k, v = attempt(prog.two_phase_simplex)
    out = {"k": k, "x": lpio.NOVEC, "hb": 0, "nb": [], "y": lpio.NOVEC, "d": lpio.NOVEC, "ver": 0}
    if k == "ok":
        x, nb, cert = v
        out["x"] = lpio.snap(lpio.unscale(sc, "x", x))
        out["hb"], out["nb"] = int(nb is not None), [int(t) for t in (nb if nb is not None else [])]
        if isinstance(cert, tuple):
            out["y"], out["d"] = lpio.snap(lpio.unscale(sc, "x", cert[0])), lpio.ray(sc, cert[1])
            a = attempt(prog.verify_unboundedness, cert[0], cert[1])
        else:
            out["y"] = lpio.snap(lpio.unscale(sc if nb is not None else None, "y", cert), 5000 * p["s"], cap=10 ** 6)
            a = attempt(prog.verify_optimality if nb is not None else prog.verify_infeasibility, cert)
        out["ver"] = int(a[0] == "ok" and bool(a[1]))
    out["same"] = int(lpio.read(prog, p["s"], sc) == orig)
    return out


def record(case, obs):
    p = case["p"]
    base = {"f": "two", "p": p, "w": lpgen.truth(p)}
    if "crash" in obs:
        return dict(base, k=obs["crash"], x=dict(lpio.NOVEC), hb=0, nb=[], y=dict(lpio.NOVEC), d=dict(lpio.NOVEC), ver=0, same=1)
    obs = dict(obs)
    for f in "xyd":
        if obs[f]["k"] == "vec" and not exactlp.fits(p, obs[f]):
            obs[f] = {"k": "big", "num": [], "den": 1}
    return dict(base, **obs)


def canaries():
    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}
    p = {"m": 2, "n": 4, "s": 1, "A": [[1, 2, 1, 0], [-2, -1, 0, -1]], "b": [4, -4], "c": [1, 1, 0, 0], "z": 3, "obj": "max", "rel": ["=", "="], "sgn": ["+"] * 4}
    f = dict(p, b=[-4, -4])
    u = dict(p, A=[[1, -2, 1, 0], [-2, 1, 0, -1]])
    z = dict(p, A=[[1, 1, 1, 0], [2, 2, 2, 0]], b=[1, 2])

    def rec(p=p, x=vec(4, 4, 0, 0, d=3), nb=(1, 2), y=vec(1, -1, d=3), d=lpio.NOVEC, ver=1, hb=1, k="ok", same=1):
        return {"f": "two", "p": p, "w": exactlp.witness(p), "k": k, "x": x, "hb": hb, "nb": list(nb), "y": y, "d": d, "ver": ver, "same": same}
    N = lpio.NOVEC
    return [(rec(x=vec(2, 0, 2, 0)), "solution"), (rec(nb=(1, 3)), "basis"), (rec(nb=(1,)), "basis"), (rec(nb=(1, 2, 3)), "basis"), (rec(y=vec(1, 1, d=3)), "certificate"), (rec(y=vec(1, -1)), "certificate"), (rec(ver=0), "verifier"),
            (rec(x=N, nb=(), hb=0), "missed"), (rec(f, x=vec(0, 0, -4, 4), nb=(3, 4)), "infeasible"), (rec(f, x=N, hb=0, nb=(), y=vec(-1, 0)), "certificate"), (rec(f, x=N, hb=0, nb=(), y=vec(1, 0), same=0), "altered"),
            (rec(u, x=N, hb=0, nb=(), y=vec(0, 0, 4, 4), d=vec(2, 1, 0, 3)), "certificate"), (rec(u, x=N, hb=0, nb=(), y=vec(0, 0, 4, 4), d=vec(2, 1, 0, -3), ver=0), "verifier"),
            (rec(u, x=N, hb=0, nb=(), y=vec(0, 0, 4, 0), d=vec(2, 1, 0, -3)), "certificate"), (rec(k="exc"), "outcome-exc"),
            (rec(z, x=vec(1, 0, 0, 0), nb=(), y=vec(1, 0)), "basis"), (rec(z, x=vec(1, 0, 0, 0), nb=(1, 4), y=vec(1, 0)), "basis"), (rec(dict(p, obj="min")), "rejected")]
