"""The discrete Morse complex: critical cells, flow, boundary maps and homology."""
from .mgen import *
from .p16 import KNOWN, K5, WIDE, WIDER, renamed


def start(c):
    c.design("Cubical_MC", "Cubical_MC6.cfg" if c.thorough else "Cubical_MC.cfg", workers=3, timeout=850)


def flows(r):
    nv, es = dfs_graph(r, r.randint(3, 16), r.randint(0, 6))
    ops = []
    for _ in range(5):
        q = random_cube(r, nv, es, r.randint(1, min(7, max(1, nv // 2))), r.choice([.1, .3, .6]))
        if q:
            ops.append({"op": "flow", "nv": nv, "edges": es, "c": q})
    return ops


def run(c):
    r, sc = c.rng, []
    cap, full = c.pick(2500, 6000), c.pick(1400, 3000)
    bad = [["v1", "v2"], ["v1", "v3"], ["v3", "v3"], ["v2", "v1"], ["v0", "v3"]]
    two = [["v0", "v0"], ["v1", "v0"], ["v1", "v1"], ["v1", "v0"]]

    def add(ps, n, k, up=-1):
        sc.append({"kind": "cc", "w": k, "ops": [{"op": "morse", "pairs": ps, "n": n, "up": up, "hom": True, "full": up < 0 and k <= full}]})
    for ps, ns in KNOWN + [(bad, (2, 3)), (two, (2, 3)), (K5, (2,))]:
        for n in ns:
            k = sum(count_cells(*subdivide(ps, n), n))
            if k <= c.pick(2500, 8000):
                add(ps, n, k)
    for ps, n in WIDE + (WIDER if c.thorough else []):
        for _ in range(2):
            q = renamed(r, ps)
            add(q, n, sum(count_cells(*subdivide(q, n), n)))
    deep = [([["a", "a"], ["a", "b"], ["b", "b"], ["b", "c"], ["c", "c"], ["c", "d"], ["d", "d"]], 4), ([["o", "o"]] * 4, 4)]
    if c.thorough:
        deep += [([p for x in "abcd" for p in ([x, x], [x, "o"])], 4), ([["a", "a"], ["a", "b"], ["b", "b"], ["b", "c"], ["c", "c"]], 5)]
    for ps, n in deep:
        sc.append({"kind": "cc", "w": 9000, "ops": [{"op": "morse", "pairs": renamed(r, ps), "n": n, "up": -1, "hom": True, "full": False}]})
    want, tries = c.pick(260, 900), 0
    while want and tries < 10000:       # larger graphs and more tokens: critical cubes of higher dimension, the others are not listed
        tries += 1
        n = r.choice([3, 4, 4, 5, 5, 6])
        ps = big(r, n)
        nv, es, par = numbered(*subdivide(ps, n))
        cells, work = count_critical(nv, es, par, n, 20000)
        if not cells or sum(cells) > c.pick(160, 330) or (sum(cells) < 12 and r.random() < .6):
            continue
        if nv > 21 and n > 4 and sum(cells[n - 3:]) or nv > 21 and n == 6 and sum(cells[2:]):     # flows through too many cubes
            continue
        want -= 1
        sc.append({"kind": "cc", "w": 15 * sum(cells), "ops": [{"op": "morse", "pairs": ps, "n": n, "up": -1 if r.random() < .7 else r.randint(0, 4), "hom": True, "full": False}]})
    want, tries = c.pick(500, 2000), 0
    while want and tries < 20000:
        tries += 1
        nv = r.randint(1, 6)
        ps = random_graph(r, nv, nv - 1 + r.choice([0, 0, 1, 1, 2, 2, 3, 4]))
        n = r.choice([1, 2, 2, 3, 3, 3, 4])
        k = sum(count_cells(*subdivide(ps, n), n, cap + 1))
        if k > cap or (k > 250 and r.random() < .5):
            continue
        want -= 1
        add(ps, n, k, -1 if r.random() < .75 else r.randint(0, 3))
    for _ in range(c.pick(700, 5000)):
        sc.append({"kind": "cc", "w": 5, "ops": flows(r)})
    c.conform(sc, "Cubical_Trace", "Cubical_Trace.cfg", "morse", need=("morse", "flow"), ncorrupt=30, op_timeout=120,
              weight=lambda evs: sum(len(str(e["ret"])) + (3000 if e["op"] == "morse" and e["full"] else 30) for e in evs))
