"""L09 - programs are independent values: histories over a store, judged by Store.tla."""
from vf import lpgen, store
from vf.gen import rng

TRACE_MODULE = "TraceStore"
RULE = "random histories of 4 to 12 operations (in place and not, well-formed and malformed, queries, comparisons, the caller reusing its arrays) over up to 6 linear and integer programs (a few with up to 11 rows and 16 columns) built from lists and arrays, some from the same ones"
ASSUMPTIONS = ["the result of an operation on a program whose data left the lattice of 1/s is checked for its dimensions and bystanders only"]
execute, record = store.run, store.record


def design(ctx):
    ctx.tlc("MCStore", "SPECIFICATION Spec\nCONSTANTS Progs = {1, 2, 3}\nCells = {1, 2, 3, 4, 5%s}\nVals = {1, 2}\nINVARIANT Safe\nPROPERTY OneAtATime\nCHECK_DEADLOCK FALSE\n" % ("" if ctx.quick else ", 6"), timeout=2000)


OPS = ["copy"] * 4 + ["row"] * 5 + ["var"] * 4 + ["sef"] * 4 + ["dual"] * 3 + ["relax", "clear", "clear", "aux"] + ["canon"] * 3 + ["iter"] * 3 + ["ask"] * 7 + ["eq"] * 4 + ["poke"] * 2


def edit(r, op, m, n, big=False):
    a = 3
    small = lambda k: [r.choice([0, 0, 0, 1, -1]) for _ in range(k)] if big else [r.randint(-a, a) for _ in range(k)]
    if op == "row":
        e = {"a": small(n), "rel": r.choice(["=", "<=", ">="]), "t": r.randint(-6, 6), "nd": r.randint(0, 1), "bad": 0}
        z = r.random()
        if z < .06:
            e["a"] = e["a"][:-1] if r.random() < .5 else e["a"] + [1]
        elif z < .1:
            e.update(bad=1, rel=r.choice(["<", "==", "", "=<", ">"]))
        elif z < .15:
            e.update(bad=1, how=r.choice(["value", "matrix", "string"]), nd=0)
        return e
    e = {"a": small(m), "t": r.randint(-6, 6), "nd": r.randint(0, 1), "bad": 0, "nocol": int(r.random() < .2), "free": 0, "neg": 0}
    z = r.random()
    if z < .28:
        e["free"] = 1
    elif z < .56:
        e["neg"] = 1
    elif z < .6:
        e["free"] = e["neg"] = 1
    z = r.random()
    if z < .09:
        e["a"] = e["a"][:-1] if r.random() < .5 else e["a"] + [1]
        e["nocol"] = 0
    elif z < .15:
        e["bad"] = 1
    return e


def history(r, ops=OPS, length=None, sef=None):
    s = r.choice([1, 1, 2])
    big = r.random() < .06                           # many rows and columns, in small entries
    init, dims = [], []
    for k in range(r.choice([1, 1, 2])):
        p = lpgen.network(r, (r.random() < .45) if sef is None else sef, s) if big else lpgen.program(r, sef=(r.random() < .45) if sef is None else sef, m=r.choice([1, 2, 2, 3]), n=r.choice([2, 3, 3, 4]), s=s)
        while not big and max(abs(v) for row in p["A"] for v in row) > (5 if p["m"] < 3 else 3):    # rows are added later: determinants stay small
            p = lpgen.program(r, sef=(r.random() < .45) if sef is None else sef, m=p["m"], n=r.choice([2, 3, 3, 4]), s=s)
        share = k > 0 and r.random() < .6
        init.append({"p": init[0]["p"] if share else p, "kind": r.choice(["LP", "LP", "IP"]), "nd": r.randint(0, 1), "share": int(share)})
        q = init[-1]["p"]
        init[-1]["ints"] = r.sample(range(1, q["n"] + 1), r.randint(1, min(3, q["n"]))) if init[-1]["kind"] == "IP" and r.random() < .5 else []
        dims.append([q["m"], q["n"], list(q["rel"]), list(q["sgn"]), q["obj"]])
    out = []
    for _ in range(length or r.randint(4, 12)):
        op = r.choice(ops)
        i = r.randrange(len(dims))
        m, n, rel, sgn, obj = dims[i]
        inp = int(r.random() < .5)
        e = {"op": op, "r": i + 1, "inp": inp if op in ("row", "var", "sef", "canon", "iter", "clear") else 0}
        new = None
        issef = obj == "max" and all(x == "=" for x in rel) and all(g == "+" for g in sgn)
        if op in ("copy", "relax", "clear"):
            new = dims[i]
        elif op == "dual":
            if (n > 4 or m > 5) and not big:
                continue
            new = [n, m, ["="] * n if set(sgn) == {"f"} else ["?"] * n, ["?"] * m, "?"]
        elif op == "aux":
            if m + n > 7 and not big or m + n > 30:
                continue
            new = [m, n + m, ["="] * m, ["+"] * (n + m), "min"] if issef else None
        elif op == "sef":
            k = sum(g == "f" for g in sgn) + sum(x != "=" for x in rel)
            if n + k > (30 if big else 8) or "?" in rel or "?" in sgn:
                continue
            new = [m, n + k, ["="] * m, ["+"] * (n + k), "max"]
        elif op in ("row", "var"):
            if (op == "row" and m > (13 if big else 3)) or (op == "var" and n > (18 if big else 7)):
                continue
            e.update(edit(r, op, m, n, big))
            okrow = op == "row" and not e["bad"] and len(e["a"]) == n
            okvar = op == "var" and not e["bad"] and (e["nocol"] or len(e["a"]) == m) and not (e["free"] and e["neg"])
            if okrow:
                new = [m + 1, n, rel + [e["rel"]], sgn, obj]
            elif okvar:
                new = [m, n + 1, rel, sgn + ["f" if e["free"] else "-" if e["neg"] else "+"], obj]
        elif op in ("canon", "iter"):
            if n < m or (not issef and r.random() < .8):
                continue
            e["B"] = r.sample(range(1, n + 1), m)
            if r.random() < .1:
                e["B"][0] = r.choice([0, n + 1, e["B"][-1]])
            if not e["inp"]:
                continue                    # success is not known here: no program may be numbered after it
        elif op == "ask":
            e["what"] = r.choice(sorted(store.ASKS))
            k = m if e["what"] in ("infeasibility", "optimality") else n
            e.update(a=[r.randint(-2, 4) for _ in range(k)], nd=r.randint(0, 1), B=r.sample(range(1, n + 1), min(m, n)))
        elif op == "eq":
            j = r.randrange(len(dims))
            if init and (j < len(init)) and False:
                continue
            e["q"] = j + 1
        if new is not None:
            if e["inp"]:
                dims[i] = list(new)
            elif len(dims) < 6:
                dims.append(list(new))
            else:
                continue
        elif op in ("row", "var", "aux") and not e["inp"] and len(dims) >= 6:
            continue
        out.append(e)
    return {"s": s, "init": init, "ops": out}


def cases(ctx):
    r = rng(ctx, "store")
    return [history(r) for _ in range(ctx.pick(1500, 15000))]


def coverage(done):
    n = {}
    for c, o in done:
        for e in o.get("ev", []):
            k = "%s%s:%s" % (e["op"], "!" if e["inp"] else "", e["k"])
            n[k] = n.get(k, 0) + 1
    return {"operations": n}


def canaries():
    P = {"k": "ok", "m": 1, "n": 1, "s": 1, "A": [[2]], "b": [4], "c": [3], "z": 0, "obj": "max", "rel": ["<="], "sgn": ["+"]}

    def tab(*ps):
        return [{"kind": "LP", "ints": [], "p": p, "r": {"k": "ok", "m": p["m"], "n": p["n"], "obj": p["obj"], "rel": p["rel"], "sgn": p["sgn"], "rows": [], "cost": {}}} for p in ps]
    R = dict(P, m=2, A=[[2], [1]], b=[4, 1], rel=["<=", "="])
    V = dict(P, n=2, A=[[2, 0]], c=[3, 5], sgn=["+", "-"])
    S = dict(P, n=2, A=[[2, 1]], c=[3, 0], sgn=["+", "+"], rel=["="])
    D = dict(P, A=[[2]], b=[3], c=[4], obj="min", rel=[">="])

    def ev(op, after, k="ok", inp=0, self=None, args=1, **kw):
        return dict({"op": op, "r": 1, "inp": inp, "k": k, "self": inp if self is None else self, "after": after, "args": args}, **kw)
    row = {"a": [1], "rel": "=", "t": 1, "bad": 0}
    var = {"a": [], "nocol": 1, "free": 0, "neg": 1, "t": 5, "bad": 0}

    def rec(t, *evs):
        return {"tab": tab(*t), "init": [1], "ev": list(evs)}
    return [(rec([P, R], ev("row", [2, 2], **row)), "bystander-row"), (rec([P, R], ev("row", [1], inp=1, **row)), "result-row"), (rec([P, dict(R, b=[4, 2])], ev("row", [1, 2], **row)), "result-row"),
            (rec([P], ev("row", [1], k="exc", **row)), "outcome-row"), (rec([P, R], ev("row", [1, 2], **dict(row, bad=1))), "outcome-row"), (rec([P, R], ev("row", [2], k="exc", inp=1, **dict(row, bad=1))), "failed-row"),
            (rec([P, V], ev("var", [1, 2], **dict(var, neg=0))), "result-var"), (rec([P, V], ev("var", [1, 2], args=0, **var)), "arguments"), (rec([P, V], ev("var", [2], inp=1, self=0, **var)), "returned"),
            (rec([P, S], ev("sef", [1, 1])), "result-sef"), (rec([P, S], ev("sef", [2, 2])), "bystander-sef"), (rec([P, D], ev("dual", [1, 1])), "result-dual"), (rec([P, S], ev("copy", [1, 2])), "result-copy"),
            (rec([P], ev("copy", [1, 1]), ev("eq", [1, 1], q=2, v=0)), "equality"), (rec([P, R], ev("copy", [1, 1]), ev("row", [2, 1], inp=1, **row), ev("eq", [2, 1], q=2, v=1)), "equality"),
            (rec([P, S], ev("ask", [2])), "bystander-ask"), (rec([P, S], ev("poke", [2])), "bystander-poke"), (rec([P], ev("clear", [1, 1], n0=3, n1=0, n2=0)), "steps"), (rec([P], ev("aux", [1], k="ok")), "outcome-aux")]
