"""D01 - disjoint sets: histories of create/find/union against DisjointSet.tla."""
from vf.gen import attempt, behaviours, enumerate_all, name_table, rng

TRACE_MODULE = "TraceDisjoint"
RULE = "call histories: TLC behaviours of GenDisjoint, all short union histories, seeded random histories up to 40 items"
ASSUMPTIONS = ["histories are sampled beyond 3 items; within 3 items all union sequences of length 3 are run"]


def design(ctx):
    n, ops = ctx.pick((4, 5), (5, 6))
    ctx.tlc("UnionFind", "SPECIFICATION Spec\nCONSTANTS N = %d\n MaxOps = %d\nINVARIANTS Faithful RankGrows SizeBound AbsInv\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n" % (n, ops))


def cases(ctx):
    out = []
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n Depth = %d\n Random = %s\nINVARIANTS IsPartition OneRepresentative RepresentativeInGroup\nCHECK_DEADLOCK FALSE\n%s"
    for h in enumerate_all(ctx, "GenDisjoint", cfg % (3, 3, "FALSE", "VIEW View\n")):
        out.append({"n": 3, "ops": h})
    for n, d, num in ((5, 14, ctx.pick(400, 4000)), (8, 30, ctx.pick(200, 2000))):
        for k, h in enumerate(behaviours(ctx, "GenDisjoint", cfg % (n, d, "TRUE", ""), num, d + 3, salt=n)):
            out.append({"n": n, "ops": h})
    r = rng(ctx, "hist")
    for _ in range(ctx.pick(400, 6000)):
        n = r.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 40])
        ops = [{"op": "create", "a": 0, "b": 0}]
        style = r.randrange(6)
        if style == 0:                       # balanced merges: deep ranks
            order = list(range(1, n + 1))
            r.shuffle(order)
            groups = [[x] for x in order]
            while len(groups) > 1:
                nxt = []
                for p in range(0, len(groups) - 1, 2):
                    ops.append({"op": "union", "a": r.choice(groups[p]), "b": r.choice(groups[p + 1])})
                    nxt.append(groups[p] + groups[p + 1])
                if len(groups) % 2:
                    nxt.append(groups[-1])
                groups = nxt
                if r.random() < .3:
                    ops.append({"op": "find", "a": r.randint(1, n), "b": 0})
        elif style == 5:                     # trees of different ranks, joined through any member
            order = list(range(1, n + 1))
            r.shuffle(order)
            groups = []
            while order:
                k = r.choice([1, 2, 4, 4, 8])
                g, order = order[:k], order[k:]
                b = [[t] for t in g]
                while len(b) > 1:
                    for u, v in zip(b[::2], b[1::2]):
                        ops.append({"op": "union", "a": u[0], "b": v[0]})
                    b = [sum(b[u:u + 2], []) for u in range(0, len(b), 2)]
                groups.append(g)
            while len(groups) > 1:
                g = groups.pop(r.randrange(len(groups)))
                h = r.randrange(len(groups))
                ops.append({"op": "union", "a": r.choice(g), "b": r.choice(groups[h])})
                groups[h] = groups[h] + g
                if r.random() < .2:
                    ops.append({"op": "find", "a": r.randint(1, n), "b": 0})
        elif style == 1:                     # chains
            order = list(range(1, n + 1))
            r.shuffle(order)
            for x, y in zip(order, order[1:]):
                ops.append({"op": "union", "a": x, "b": y} if r.random() < .5 else {"op": "union", "a": y, "b": x})
        else:
            for _ in range(r.randint(1, 3 * n)):
                lo = 0 if r.random() < .1 else 1
                if r.random() < .5:
                    ops.append({"op": "find", "a": r.randint(lo, n), "b": 0})
                else:
                    ops.append({"op": "union", "a": r.randint(lo, n), "b": r.randint(1, n)})
        fin = list(range(1, n + 1))
        r.shuffle(fin)
        ops += [{"op": "find", "a": x, "b": 0} for x in fin + fin[:3]]
        out.append({"n": n, "ops": ops})
    for k, c in enumerate(out):
        rr = rng(ctx, k)
        c["names"] = name_table(rr, c["n"])
        s = list(range(1, c["n"] + 1))
        rr.shuffle(s)
        if k % 17 == 5:                       # duplicates at construction
            s.insert(rr.randint(0, len(s)), rr.choice(s))
            c["ops"] = [{"op": "create", "a": 0, "b": 0}]
        c["s"] = s
        c["ops"] += [{"op": "find", "a": x, "b": 0} for x in range(1, c["n"] + 1)] if k % 17 != 5 else []
    return out


def execute(case):
    from pytimize.utilities import DisjointSet
    names = case["names"]
    ids = {n: k + 1 for k, n in enumerate(names)}

    def nm(k):
        return names[k - 1] if 1 <= k <= len(names) else "no such item"
    ev = []
    ds = None
    for o in case["ops"]:
        if o["op"] == "create":
            s = [nm(k) for k in case["s"]]
            k, v = attempt(DisjointSet, s)
            if k == "ok":
                ds = v
                if s != [nm(j) for j in case["s"]]:
                    k = "changed-input"
            r = {"k": k, "v": 0}
        elif o["op"] == "find":
            k, v = attempt(ds.find, nm(o["a"]))
            r = {"k": k, "v": ids.get(v, -1) if k == "ok" and isinstance(v, str) else 0}
        else:
            k, v = attempt(ds.union, nm(o["a"]), nm(o["b"]))
            r = {"k": k, "v": 0}
        ev.append(r)
        if ds is None:
            break
    return {"ret": ev}


def record(case, obs):
    if "crash" in obs:
        return {"ev": [{"op": "union", "a": 0, "b": 0, "s": [], "ret": {"k": obs["crash"], "v": 0}}]}
    ev = []
    for o, r in zip(case["ops"], obs["ret"]):
        ev.append({"op": o["op"], "a": o["a"], "b": o["b"], "s": case["s"] if o["op"] == "create" else [], "ret": r})
    return {"ev": ev}


def canaries():
    def h(*e):
        return {"ev": [{"op": "create", "a": 0, "b": 0, "s": [1, 2, 3], "ret": {"k": "ok", "v": 0}}]
                + [{"op": o, "a": a, "b": b, "s": [], "ret": {"k": k, "v": v}} for o, a, b, k, v in e]}
    return [
        (h(("union", 1, 2, "ok", 0), ("find", 1, 0, "ok", 1), ("find", 2, 0, "ok", 2)), "find"),
        (h(("find", 1, 0, "ok", 2)), "find"),
        (h(("union", 1, 9, "ok", 0)), "union"),
        ({"ev": [{"op": "create", "a": 0, "b": 0, "s": [1, 1], "ret": {"k": "ok", "v": 0}}]}, "create"),
    ]
