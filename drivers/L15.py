"""L15 - LinearProgram.random: batches of draws against Draw.tla."""
from math import ceil, floor, isfinite
from vf import lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceDraw"
RULE = "batches of seeded draws for every shape up to 8 x 8 and some larger ones, magnitudes from 0 to a million, arguments by position, by name or left out"
ASSUMPTIONS = ["the choices of a batch are judged for batches of at least 60 draws (a fair generator misses one with probability below 1e-9)", "data may exceed the magnitude by the documented rounding (half a hundredth)"]
CFG = 'SPECIFICATION Spec\nCONSTANTS Senses = {"max", "min"}\nRels = {"=", "<=", ">="}\nSigns = {"+", "-", "f"}\nM = %d\nN = %d\nG = 1000\nMost = %d\nINVARIANTS Safe Complete\nCHECK_DEADLOCK FALSE\n'
TRACE_CFG = 'CONSTANTS Senses = {"max", "min"}\nRels = {"=", "<=", ">="}\nSigns = {"+", "-", "f"}\n'


def design(ctx):
    ctx.tlc("MCDraw", CFG % (1, 1, 2))
    if not ctx.quick:
        ctx.tlc("MCDraw", CFG % (1, 1, 3), timeout=2000, heap="8g")
        ctx.tlc("MCDraw", CFG % (2, 2, 1))


def cases(ctx):
    r = rng(ctx, "draw")
    out = []
    shapes = [(m, n) for m in range(1, 9) for n in range(1, 9)] + [(1, 40), (40, 1), (30, 20)]
    for m, n in shapes * ctx.pick(2, 12):
        out.append({"m": m, "n": n, "g": r.choice([0, 0.5, 1, 1, 3, 10, 100, 100, 12.5, 1000, 10 ** 6]), "draws": 12, "how": r.choice(["pos", "name", "mixed"]), "seed": r.randrange(2 ** 31)})
    for g in (1, 5, 100, 1000) * ctx.pick(3, 20):
        out.append({"m": r.choice([2, 3, 4, 6]), "n": r.choice([2, 3, 4, 6]), "g": g, "draws": 80, "how": r.choice(["pos", "name"]), "seed": r.randrange(2 ** 31)})
    for _ in range(ctx.pick(4, 40)):
        out.append({"m": 4, "n": 6, "g": 100, "draws": 80, "how": "default", "seed": r.randrange(2 ** 31)})
    for _ in range(ctx.pick(5, 40)):
        out.append({"m": r.choice([2, 3]), "n": r.choice([2, 3]), "g": r.choice([1, 5, 100, 1000]), "draws": 400, "how": r.choice(["pos", "name"]), "seed": r.randrange(2 ** 31)})
    return out


def execute(case):
    import random
    import numpy as np
    from pytimize.programs import LinearProgram
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    m, n, g = case["m"], case["n"], case["g"]
    how = {"pos": lambda: LinearProgram.random(m, n, g), "name": lambda: LinearProgram.random(magnitude=g, columns=n, rows=m),
           "mixed": lambda: LinearProgram.random(m, n, magnitude=g), "default": lambda: LinearProgram.random()}[case["how"]]
    ds, use, data = [], 1, []
    for _ in range(case["draws"]):
        k, p = attempt(how)
        d = {"k": k, "m": 0, "n": 0, "obj": "", "rel": [], "sgn": [], "lo": 0, "hi": 0}
        if k == "ok":
            k, f = attempt(lpio.frame, p)
            if k != "ok" or not f[0]:
                d["k"] = "odd"
            else:
                d.update(f[1])
                vals = [float(v) for v in list(p.A.flat) + list(p.b) + list(p.c) + [p.z]]
                if not all(isfinite(v) and abs(v) < 2e6 for v in vals):
                    d["k"] = "odd"
                else:
                    data.append(vals)
                    d["lo"], d["hi"] = floor(min(vals) * 1000 + 1e-6), ceil(max(vals) * 1000 - 1e-6)
                for f in () if len(ds) > 80 else (p.copy, p.dual, p.to_sef, lambda: str(p)):
                    use = use and int(attempt(f)[0] == "ok")
                use = use and int(len(ds) > 80 or attempt(lambda: p == p.copy()) == ("ok", True))
        ds.append(d)
    full = case["draws"] >= 60 and all(d["k"] == "ok" and (d["m"], d["n"]) == (m, n) for d in ds)
    spread = [[floor(min(col) * 1000 + .5), floor(max(col) * 1000 + .5)] for col in zip(*data)] if full else []
    codes = []
    if full and len(ds) >= 400:
        sgn = lambda v: (v > 0) - (v < 0)
        codes = [[1 + (d["obj"] == "max")] + [1 + "=<>".index(t[0]) for t in d["rel"]] + [1 + "+-f".index(t) for t in d["sgn"]] + [sgn(v) for v in vals] for d, vals in zip(ds, data)]
    return {"ds": ds, "use": use, "spread": spread, "codes": codes}


def record(case, obs):
    base = {"m": case["m"], "n": case["n"], "g": round(case["g"] * 1000), "full": int(case["draws"] >= 60 and min(case["m"], case["n"]) > 1)}
    if "crash" in obs:
        return dict(base, ds=[{"k": obs["crash"], "m": 0, "n": 0, "obj": "", "rel": [], "sgn": [], "lo": 0, "hi": 0}], use=1, spread=[], codes=[])
    return dict(base, ds=obs["ds"], use=obs["use"], spread=obs["spread"], codes=obs["codes"])


def canaries():
    a = {"k": "ok", "m": 2, "n": 2, "obj": "max", "rel": ["=", "<="], "sgn": ["+", "-"], "lo": -1004, "hi": 900}
    b = dict(a, obj="min", rel=["=", ">="], sgn=["f", "-"])

    c = dict(a, obj="min", rel=["<=", ">="], sgn=["f", "f"], lo=-3)
    d = dict(b, rel=[">=", "="], sgn=["-", "+"], hi=7)
    sp = [[-5, 9]] * 9

    def rec(*ds, full=1, use=1, spread=sp, codes=()):
        return {"codes": [list(v) for v in codes], "m": 2, "n": 2, "g": 1000, "full": full, "ds": list(ds), "use": use, "spread": spread}
    import random
    r = random.Random(5)
    codes = [[r.choice([1, 2])] + [r.choice([1, 2, 3]) for _ in range(4)] + [r.choice([-1, 0, 1]) for _ in range(9)] for _ in range(300)]
    tied = [[v[0], v[1], v[1]] + v[3:] for v in codes]
    bent = [v[:9] + [abs(v[9]) if v[0] == 1 else v[9]] + v[10:] for v in codes]
    same = [v[:-1] + [-v[-2]] for v in codes]
    return [(rec(a, c, d, codes=tied), "combinations"), (rec(a, c, d, codes=bent), "combinations"), (rec(a, c, d, codes=same), "combinations"), (rec(a, c), "coverage"), (rec(a, c, dict(d, rel=[">=", "<="])), "coverage"), (rec(a, c, dict(d, sgn=["+", "+"])), "coverage"), (rec(a, dict(c, obj="max"), dict(d, obj="max")), "coverage"), (rec(a, c, dict(d, hi=1006)), "drawn"),
            (rec(a, c, dict(d, lo=-1010)), "drawn"), (rec(a, c, dict(d, m=3)), "drawn"), (rec(a, c, dict(d, rel=["="], obj="x"), full=0), "drawn"), (rec(a, c, dict(d, k="exc")), "outcome-exc"), (rec(a, c, d, use=0), "unusable"),
            (rec(dict(a, hi=0, lo=-5), dict(c, hi=0), dict(d, hi=0)), "coverage"), (rec(a, c, d, spread=sp[:8]), "coverage"), (rec(a, c, d, spread=sp[:8] + [[0, 9]]), "coverage"), (rec(a, c, d, spread=sp[:8] + [[-3, 0]]), "coverage")]
