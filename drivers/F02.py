"""F02 - declaration histories against Declare.tla."""
from vf import lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceDeclare"
RULE = "random histories of up to 16 declarations (single, several at once, all at once, whereAll..., duplicated, contradictory, malformed), compilations, uses and in-place work on compiled programs, over two formulations made from the same objective and constraints, up to 5 variables"
ASSUMPTIONS = ["only variables of the formulation are declared"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\nH = %d\nMost = %d\nINVARIANT Safe\nPROPERTIES Keeps OneForm Snapshots\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCDeclare", cfg % ((2, 2, 2) if ctx.quick else (2, 2, 3)), timeout=2000)


def ev(op, h=1, ds=(), s="+", k=0):
    return {"op": op, "h": h, "ds": [{"j": j, "s": g} for j, g in ds], "s": s, "k": k}


def cases(ctx):
    r = rng(ctx, "decl")
    out = []
    for _ in range(ctx.pick(1200, 15000)):
        n, m = r.choice([1, 2, 3, 3, 4, 5] * 3 + [9, 12]), r.choice([1, 2, 3, 3, 5, 8])
        s = r.choice([1, 1, 2, 4])
        p = {"m": m, "n": n, "s": s, "A": [[r.randint(-5, 5) for _ in range(n)] for _ in range(m)], "b": [r.randint(-9, 9) for _ in range(m)],
             "c": [r.randint(-5, 5) for _ in range(n)], "z": r.choice([0, r.randint(-9, 9)]), "obj": r.choice(["max", "min"]), "rel": [r.choice(["=", "<=", ">="]) for _ in range(m)], "sgn": ["f"] * n}
        evs, compiled = [], []
        known = {1: set(), 2: set()}
        for _ in range(r.randint(2, 16)):
            h = r.choice([1, 1, 1, 2])
            op = r.choice(["where"] * 6 + ["all", "bad", "program", "program", "program", "use", "work"])
            if op == "where":
                size = r.choice([0, 1, 1, 1, 2, 2, 3, n])
                ds = []
                for _ in range(size):
                    rest = [j for j in range(1, n + 1) if j not in known[h] and j not in [d[0] for d in ds]]
                    if rest and r.random() < .8:
                        ds.append((r.choice(rest), r.choice("+-")))
                    else:
                        ds.append((r.randint(1, n), r.choice("+-")) if r.random() < .85 else (0, r.choice("+-")))
                if r.random() < .12:
                    ds = [(0, r.choice("+-"))] + (ds[:1] if r.random() < .3 else [])
                r.shuffle(ds)
                evs.append(ev("where", h, ds))
                # a guess, used to steer only
                js = [d[0] for d in ds]
                if len(set(js)) == len(js) and not set(js) & known[h] and (0 not in js or len(js) == 1 and not known[h]):
                    known[h] |= set(range(1, n + 1)) if 0 in js else set(js)
            elif op == "all":
                evs.append(ev("all", h, s=r.choice("+-")))
                if not known[h]:
                    known[h] = set(range(1, n + 1))
            elif op == "program":
                evs.append(ev("program", h))
                compiled.append(h)
            elif op == "work":
                if compiled:
                    evs.append(ev("work", 1, k=r.randint(1, len(compiled))))
            elif op == "bad":
                evs.append(ev("bad", h, [(r.randint(1, n), "+")] if r.random() < .6 else [], s=r.choice("+-")))
            else:
                evs.append(ev(op, h))
        if r.random() < .8:
            evs.append(ev("program", 1))
        out.append({"p": p, "evs": evs, "flavour": r.randint(0, 3), "work": r.randint(0, 4)})
    return out


def execute(case):
    from pytimize.formulations.linear import maximize, minimize, variables, x
    p = case["p"]
    n, s = p["n"], p["s"]
    vs = variables(n)
    num = lambda v: v // s if v % s == 0 else v / s

    def lin(cs):
        e = num(cs[0]) * vs[0]
        for j in range(1, n):
            e = e + num(cs[j]) * vs[j]
        return e
    rel = {"=": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
    cons = [rel[p["rel"][i]](lin(p["A"][i]), num(p["b"][i])) for i in range(p["m"])]
    obj = (maximize if p["obj"] == "max" else minimize)(lin(p["c"]) + num(p["z"]))
    forms = [obj.subject_to(*cons), obj.subject_to(*cons)]

    def decl(d):
        if d["j"] == 0:
            return x >= 0 if d["s"] == "+" else x <= 0
        v = vs[d["j"] - 1]
        if case["flavour"] % 2:
            return 0 <= v if d["s"] == "+" else 0 >= v
        return v >= 0 if d["s"] == "+" else v <= 0
    progs, out = [], []
    for e in case["evs"]:
        o = dict(e)
        f = forms[e["h"] - 1]
        if e["op"] == "where":
            k, v = attempt(lambda: f.where(*[decl(d) for d in e["ds"]]))
            if k == "ok" and case["flavour"] >= 2 and v is not None:     # chained style
                forms[e["h"] - 1] = v
        elif e["op"] == "all":
            k, v = attempt(f.whereAllPositive if e["s"] == "+" else f.whereAllNegative)
        elif e["op"] == "bad":
            ds = [decl(d) for d in e["ds"]]
            junk = cons[0] if e["s"] == "+" else 3
            k, v = attempt(lambda: f.where(*(ds + [junk])))
        elif e["op"] == "program":
            k, v = attempt(lambda: f.program)
            if k == "ok":
                progs.append(v)
        elif e["op"] == "use":
            k, v = attempt(lambda: (str(f), f.objective, f.is_sef, f.copy(), f.to_sef(), f.dual()))
        else:
            q = progs[e["k"] - 1]
            k, v = attempt([lambda: q.to_sef(in_place=True), lambda: q.add_constraint([1] * q.A.shape[1], "<=", 7, in_place=True), lambda: q.add_variable(1, [1] * q.A.shape[0], in_place=True),
                            lambda: setattr(q, "inequalities", ["="] * q.A.shape[0]), lambda: (q.to_sef(in_place=True), q.add_constraint([2] * q.A.shape[1], "=", 1, in_place=True))][case["work"]])
        o["kind"] = k
        o["post"] = [[t + 1, lpio.read(q, s)] for t, q in enumerate(progs)]
        out.append(o)
    return {"ev": out}


def record(case, obs):
    if "crash" in obs:
        return {"p": case["p"], "ev": [dict(ev("crash"), kind=obs["crash"], post=[])]}
    return {"p": case["p"], "ev": obs["ev"]}


def coverage(done):
    n = {}
    for _, o in done:
        for e in o.get("ev", []):
            q = n.setdefault(e["op"], [0, 0])
            q[0] += 1
            q[1] += int(e["kind"] != "ok")
    return {"events, refused": n}


def canaries():
    p = {"m": 1, "n": 2, "s": 1, "A": [[1, 2]], "b": [3], "c": [1, 1], "z": 0, "obj": "max", "rel": ["<="], "sgn": ["f", "f"]}

    def q(sgn, **kw):
        return dict(p, k="ok", sgn=list(sgn), **kw)

    def E(e, kind="ok", post=()):
        return dict(e, kind=kind, post=[list(t) for t in post])
    w1 = E(ev("where", 1, [(1, "+")]))
    pr = lambda *post: E(ev("program", 1), post=post)

    def rec(*evs):
        return {"p": p, "ev": list(evs)}
    return [(rec(w1, pr((1, q("ff")))), "program-after-program"), (rec(w1, pr((1, q("-f")))), "program-after-program"), (rec(w1, pr((1, q("+f", b=[4])))), "program-after-program"),
            (rec(w1, E(ev("where", 1, [(1, "-")]))), "outcome-of-where"), (rec(w1, E(ev("where", 1, [(1, "+")]))), "outcome-of-where"), (rec(w1, E(ev("where", 1, [(2, "-")]), "exc")), "outcome-of-where"),
            (rec(w1, E(ev("where", 1, [(2, "-"), (1, "+")]), "exc"), pr((1, q("+-")))), "program-after-program"), (rec(w1, E(ev("all", 1))), "outcome-of-all"), (rec(E(ev("all", 1), "exc")), "outcome-of-all"),
            (rec(E(ev("all", 1, s="-")), pr((1, q("-f")))), "program-after-program"), (rec(pr((1, q("ff"))), E(ev("where", 1, [(1, "+")]), post=[(1, q("+f"))])), "program-after-where"),
            (rec(pr((1, q("ff"))), E(ev("work", 1, k=1)), w1, pr((2, q("+f", m=2, A=[[1, 2], [1, 1]], b=[3, 7], rel=["<=", "<="])))), "program-after-program"),
            (rec(w1, E(ev("program", 2), post=[(1, q("+f"))])), "program-after-program"), (rec(E(ev("bad", 1))), "outcome-of-bad"), (rec(E(ev("where", 1, [(0, "+"), (1, "+")]))), "outcome-of-where"),
            (rec(E(ev("program", 1), "exc")), "outcome-of-program"), (rec(E(ev("use", 1), "exc")), "outcome-of-use")]
