"""Printed forms: matrices, sets, modules, symbolic functions."""
from .p21 import program, layered, leaves
import copy


def start(c):
    c.design("Texts_MC", "Texts_MC5.cfg" if c.thorough else "Texts_MC.cfg", workers=2, timeout=850)


def number(r, t):
    if t == "i":
        return [r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-2000000, 2000000)]), 1]
    if t == "q":
        from fractions import Fraction
        x = Fraction(r.randint(-60, 60), r.randint(1, 30))
        return [x.numerator, x.denominator]
    k = r.choice([0, 0, 1, 2, 3, 4, 6])
    n = r.choice([0, 1, -1, r.randint(-40, 40), r.randint(-30000, 30000)])
    while k and n % 2 == 0:
        n, k = n // 2, k - 1
    return [n, k]


def matrix(r):
    t = r.choice("iqfff")
    dbg = r.random() < .3
    n, m = r.choice([(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (r.randint(1, 5), r.randint(1, 12))])
    rows = [[number(r, t) for _ in range(m)] for _ in range(n)]
    if dbg and t == "f":     # all decimals are printed
        rows = [[[x[0] % 2000 - 1000, min(x[1], 4)] for x in y] for y in rows]
    for y in rows:
        for x in y:
            while t == "f" and x[1] and x[0] % 2 == 0:
                x[:] = [x[0] // 2, x[1] - 1]
    return {"op": "mat", "t": t, "dbg": dbg, "pad": r.choice([0, 0, 1, 2]), "p": -1 if dbg else r.choice([-1, -1, 0, 1, 2, 3, 4]), "rows": rows}


def module(r, t):
    divs, d = [], 1
    if r.random() < .2:
        divs.append([[1, 1], r.randint(1, 3)])
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        d *= r.randint(2, 4)
        divs.append([[d, 1], r.choice([1, 1, 2, 3, 12])])
    return {"free": r.choice([0, 0, 1, 2, 3, 10]), "divs": divs}


def near(r, m):
    m = copy.deepcopy(m)
    k = r.randrange(5)
    if k == 0:
        m["free"] += r.choice([1, -1]) if m["free"] else 1
    elif k == 1 and m["divs"]:
        r.choice(m["divs"])[1] += 1
    elif k == 2 and m["divs"]:
        m["divs"].pop()
    elif k == 3 and m["divs"]:
        m["divs"][-1][0][0] *= 2
    elif k == 4 and m["divs"]:     # factors 1 do not count
        m["divs"] = [[[1, 1], 2]] + [d for d in m["divs"] if d[0] != [1, 1]]
    return m


def corruptor(r, evs):
    """a printed function read as another one"""
    idx = [i for i, e in enumerate(evs) if e["op"] == "text" and e.get("sure")]
    if not idx:
        return None
    out = copy.deepcopy(evs[: r.choice(idx) + 1])
    one = {"k": "number", "v": [1, 1, 0]}
    out[-1]["ret"] = {"k": "sum", "s": [out[-1]["ret"], one]}
    return out


def run(c):
    r, sc = c.rng, []
    for _ in range(c.pick(500, 3000)):
        sc.append({"kind": "tx", "ops": [matrix(r) for _ in range(6)]})
    for n in list(range(0, 12)) + [63, 64, 65, 128, 130]:
        sc.append({"kind": "tx", "ops": [{"op": "pool", "len": n, "on": r.sample(range(n), r.randint(0, n))} for _ in range(3)]})
    for _ in range(c.pick(500, 3000)):
        t = r.choice("iiq")
        ms = [module(r, t) for _ in range(3)]
        ops = [{"op": "module", "t": t, "m": m} for m in ms] + [{"op": "trivial", "t": t}]
        for m in ms:
            ops.append({"op": "iso", "t": t, "m": m, "k": near(r, r.choice(ms) if r.random() < .3 else m)})
        sc.append({"kind": "tx", "ops": ops})
    c.conform(sc, "Texts_Trace", "Texts_Trace.cfg", "texts", need=("mat", "pool", "module", "iso", "trivial"), ncorrupt=30)
    sc = []
    for _ in range(c.pick(800, 4000)):
        s = program(r, r.randint(2, 12)) if r.random() < .6 else layered(r)
        made = [o for o in s["ops"] if o["op"] not in ("points", "jacobian", "multi")]
        s["ops"] = [s["ops"][0]] + made
        n = len(made)
        if n:
            s["ops"] += [{"op": "text", "a": a, "sure": made[a]["sure"]} for a in range(n)]
            s["ops"].append({"op": "mtext", "fs": [r.randrange(n) for _ in range(r.randint(1, 3))]})
            sc.append(s)
    c.conform(sc, "Symbolic_Trace", "Symbolic_Trace.cfg", "functions", need=("text", "mtext"), ncorrupt=20, corruptor=corruptor)
