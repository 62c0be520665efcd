"""C19: parameters, knots and tangents derived from data points."""
from .common import *
from .c15 import spread


def data_points(c, rng):
    n, kind = c["n"], c["kind"]
    q = spread(rng, n, kind if kind in ("planar", "corner", "line", "even") else "generic")
    if kind == "doubled" and n > 2:
        k = rng.randrange(1, n)
        q[k] = list(q[k - 1])
    if kind == "twice" and n > 5:
        q[1] = list(q[0])
        q[-2] = list(q[-1])
    elif kind == "twice" and n > 2:
        q[-1] = list(q[-2])
    if kind == "same":
        q = [[1.5, -2.0, 0.25]] * n
    if kind == "far":
        q = [[4096 + x, -2048 + y, 512 + z] for x, y, z in q]
    if kind == "small":
        q = [[x / 64, y / 64, z / 64] for x, y, z in q]
    return q


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def fam(f, seeds, most=None):
        nonlocal st
        cs, s = cases(f, seeds)
        st = add_stats(st, s)
        return stride(cs, most, f) if most and quick else cs

    for c in fam("params", 6 if quick else 40):
        rng = vp.rng_for("c19", ckey("params", c))
        out.append({"key": ckey("params", c), "ev": [{"op": "Params", "q": vp.hx(data_points(c, rng))}]})
    for c in fam("knotpar", 4 if quick else 30):
        rng = vp.rng_for("c19k", ckey("knotpar", c))
        n = c["n"]
        g = [0.0]
        for _ in range(n - 1):
            g.append(g[-1] + (1 if c["kind"] == "even" else rng.choice([1, 2, 3, 5, 8])))
        if c["kind"] == "end":
            g = [v ** 2 for v in g]
        u = [v / g[-1] for v in g]
        e = {"op": "Knots", "u": vp.hx(u), "ps": [p for p in range(1, 8) if p < n], "pn": [[p, k] for p in range(1, 6) for k in range(p + 1, n + 1)]}
        if c["kind"] == "skew":
            e["u"], e["pn"] = vp.hx([-3 + 7.5 * v for v in u]), []
        out.append({"key": ckey("knotpar", c), "ev": [e]})
    for c in fam("meshpar", 3 if quick else 30):
        rng = vp.rng_for("c19m", ckey("meshpar", c))
        n, m, k = c["n"], c["m"], c["kind"]
        q = [[[i + rng.uniform(-0.3, 0.3), j * 1.5 + rng.uniform(-0.3, 0.3), rng.uniform(-1, 1)] for j in range(m)] for i in range(n)]
        if k == "grid":
            q = [[[float(i), 2.0 * j, 0.0] for j in range(m)] for i in range(n)]
        if k in ("pole", "poles"):
            q[0] = [list(q[0][0])] * m
        if k == "poles":
            q[-1] = [list(q[-1][0])] * m
        if k == "seam":
            for r in q:
                r[1:] = [list(r[0]) for _ in r[1:]]
        if k == "same":
            q = [[[1.0, 2.0, 3.0]] * m] * n
        out.append({"key": ckey("meshpar", c), "ev": [{"op": "MeshParams", "q": vp.hx(q)}]})
    return {"module": "TraceFit", "scenarios": out, "stats": st}
