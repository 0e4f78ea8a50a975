"""G05 - the stable-set formulation: every 0/1 and other small integral point decided against UGraphOps!Stable."""
from vf import lpio
from vf.gen import attempt, name_table, rng
from vf.graphs import build, shapes, warm

TRACE_MODULE = "TraceStable"
RULE = "vertex-weighted graphs up to 11 vertices, edgeless ones included; every 0/1 vector and every vector with one entry -1 or 2 (n <= 4: all of {-1,0,1,2}^n)"
ASSUMPTIONS = ["vertex weights are multiples of 1/s, s in {1, 2, 10}, negative ones included through set_vertex_weight"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nW = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCStable", cfg % (3, 2))
    if not ctx.quick:
        ctx.tlc("MCStable", cfg % (4, 1), timeout=1500, heap="8g")


def cases(ctx):
    r = rng(ctx, "stable")
    out = []
    for k in range(ctx.pick(700, 6000)):
        n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 7] * 5 + [9, 11])
        s = r.choice([1, 1, 2, 10])
        names = name_table(r, n)
        if r.random() < .5:
            r.shuffle(names)
        out.append(warm(r, {"dir": 0, "n": n, "s": s, "arcs": [[a, b, r.choice([0, 1, s])] for a, b in shapes(r, n, 0)],
                    "vw": [r.choice([0, 1, 1, 2, 3, 5, 17] + ([-2] if k % 5 == 0 else [])) for _ in range(n)],
                    "names": names, "how": 2 + r.randrange(2), "extra": r.randint(0, 3), "solve": int(n <= 5)}))
    return out


def execute(case):
    names, s = case["names"], case["s"]
    ids = {x: k + 1 for k, x in enumerate(names)}
    g = build(case, names, lambda g: attempt(g.formulate_max_stable_set))
    before = (sorted(map(str, g.edges.items())), sorted(map(str, g.vertices.items())))
    k, v = attempt(g.formulate_max_stable_set)
    out = {"k": k, "p": {}, "map": [], "int": 0, "best": lpio.NOVEC}
    if k == "ok":
        from pytimize.programs import IntegerProgram
        ip, mapping = v
        out["p"] = next((q for q in (lpio.read(ip, s * t) for t in (1, 12, 2520)) if q["k"] == "ok"), lpio.read(ip, s))
        out["map"] = [[ids.get(x, 0), int(c) + 1] for x, c in mapping.items()]
        out["int"] = int(isinstance(ip, IntegerProgram) and not getattr(ip, "_integral_variables", None))
        if case["solve"]:
            k2, x = attempt(ip.branch_and_bound)
            out["best"] = lpio.snap(x) if k2 == "ok" else {"k": k2, "num": [], "den": 1}
    out["same"] = int(before == (sorted(map(str, g.edges.items())), sorted(map(str, g.vertices.items()))))
    return out


def record(case, obs):
    base = {"n": case["n"], "s": case["s"], "arcs": case["arcs"], "vw": case["vw"], "solve": case["solve"]}
    if "crash" in obs:
        return dict(base, k=obs["crash"], p={}, map=[], int=0, best=dict(lpio.NOVEC), same=1)
    return dict(base, **obs)


def canaries():
    p = {"k": "ok", "m": 5, "n": 3, "s": 1, "A": [[1, 1, 0], [0, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]], "b": [1] * 5, "c": [2, 3, 2], "z": 0,
         "obj": "max", "rel": ["<="] * 5, "sgn": ["+"] * 3}

    def rec(p=p, mp=((1, 1), (2, 2), (3, 3)), best=(1, 0, 1), same=1, arcs=((1, 2, 0), (3, 2, 1)), integer=1):
        return {"n": 3, "s": 1, "arcs": [list(x) for x in arcs], "vw": [2, 3, 2], "solve": 1, "k": "ok", "p": p, "map": [list(x) for x in mp], "int": integer,
                "best": {"k": "vec", "num": list(best), "den": 1}, "same": same}
    return [(rec(p=dict(p, A=[[1, 1, 0], [1, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]])), "stable"), (rec(arcs=((1, 2, 0), (3, 2, 1), (1, 3, 1))), "stable"),
            (rec(p=dict(p, b=[1, 2, 1, 1, 1])), "stable"), (rec(p=dict(p, rel=["<="] * 4 + [">="])), "stable"), (rec(p=dict(p, c=[2, 2, 3])), "weight"),
            (rec(p=dict(p, obj="min")), "weight"), (rec(mp=((1, 1), (2, 3), (3, 2))), "stable"), (rec(mp=((1, 1), (2, 2), (3, 2))), "mapping"), (rec(best=(0, 1, 0)), "optimum"),
            (rec(same=0), "graph"), (rec(p=dict(p, sgn=["f", "+", "+"])), "stable"), (rec(integer=0), "integral")]
