"""One-line permutations of fixed and growable size."""
import itertools


def start(c):
    c.design("Perms", "Perms_MC.cfg")


def hist(r, m, depth, kind):
    ops = [{"op": "points", "m": m, "kind": kind}]

    def lst():
        k = m if kind == "cperm" else r.randint(0, m)
        xs = list(range(k))
        if r.random() < .9:
            r.shuffle(xs)
        return xs
    for q in "abc":
        ops.append({"op": "list", "r": q, "xs": lst()})
    for _ in range(depth):
        q, a, b = (r.choice("abc") for _ in range(3))
        k = r.random()
        if k < .15:
            ops.append({"op": "list", "r": q, "xs": lst()})
        elif k < .2:
            ops.append({"op": "id", "r": q})
        elif k < .5:
            ops.append({"op": r.choice(["mul", "mulas"]), "r": q, "a": a, "b": b})
        elif k < .65:
            ops.append({"op": r.choice(["inv", "invgen"]), "r": q, "a": a})
        elif k < .72:
            ops.append({"op": "prod", "r": q, "xs": [r.choice("abc") for _ in range(r.randint(0, 4))]})
        elif k < .85 and m <= 20:                       # the order of many points can be astronomical
            ops.append({"op": "order", "a": a})
        else:
            ops.append({"op": r.choice(["eq", "isid"]), "a": a, "b": b})
    return {"kind": kind, "ops": ops}


def run(c):
    r, sc = c.rng, []
    for kind in ("cperm", "vperm"):
        for m in range(1, c.pick(5, 6) + 1):
            allp = list(itertools.permutations(range(m)))
            for p in allp:
                ops = [{"op": "points", "m": m, "kind": kind}, {"op": "list", "r": "a", "xs": list(p)},
                       {"op": "inv", "r": "b", "a": "a"}, {"op": "mul", "r": "c", "a": "a", "b": "b"}, {"op": "isid", "a": "c"},
                       {"op": "mul", "r": "c", "a": "b", "b": "a"}, {"op": "isid", "a": "c"}, {"op": "order", "a": "a"}]
                for q in (allp if m <= 4 else r.sample(allp, 6)):
                    ops += [{"op": "list", "r": "b", "xs": list(q)}, {"op": "mul", "r": "c", "a": "a", "b": "b"},
                            {"op": "eq", "a": "a", "b": "b"}]
                sc.append({"kind": kind, "ops": ops})
        for m in (2, 3, 6, 7, 8, 12, 17):
            sc += [hist(r, m, c.pick(30, 60), kind) for _ in range(c.pick(15, 200))]
        for m in (33, 70, 131):
            sc += [hist(r, m, 12, kind) for _ in range(c.pick(3, 30))]
    c.conform(sc, "Perms_Trace", "Perms_Trace.cfg", "dense",
              need=("list", "id", "mul", "mulas", "inv", "invgen", "prod", "order", "eq", "isid"),
              only=("mul", "inv", "order", "eq", "isid", "list"))
