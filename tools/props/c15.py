"""C15: curves interpolating points (and derivatives)."""
from .common import *


def spread(rng, n, kind="generic"):
    """points to pass through: consecutive ones apart"""
    if kind == "line":
        d = [rng.randint(-8, 8) / 8 + 0.0625, 1.0, -0.5]
        t, res = 0.0, []
        for _ in range(n):
            res.append([1 + t * d[0], 2 + t * d[1], t * d[2]])
            t += rng.choice([0.5, 1.0, 2.0])
        return res
    # a walk whose steps have comparable lengths, so that interpolation is well conditioned
    p, a, b, res = [rng.randint(-16, 16) / 8 for _ in range(3)], rng.uniform(0, 6), rng.uniform(-0.5, 0.5), []
    for i in range(n):
        res.append([round(v * 64) / 64 for v in p])
        l = rng.choice([1.0, 1.5, 2.5]) if kind != "even" else 1.5
        a += rng.uniform(-0.9, 0.9) if kind != "corner" or i % 3 else 1.57
        b = 0.0 if kind == "planar" else b + rng.uniform(-0.4, 0.4)
        p = [p[0] + l * math.cos(a) * math.cos(b), p[1] + l * math.sin(a) * math.cos(b), p[2] + l * math.sin(b)]
    return res


def plan(tier):
    quick = tier == "quick"
    out = []
    st = {"generated": 0, "distinct": 0}
    N = 2 if quick else 8

    def take(fam, n, seeds=N):
        nonlocal st
        cs, s = cases(fam, seeds)
        st = add_stats(st, s)
        return stride(cs, n if quick else 8 * n, "c15" + fam)

    for c in take("interp", 260):
        rng = vp.rng_for("c15", str(c))
        q = spread(rng, c["n"], ["generic", "planar", "corner", "line"][(c["seed"] + c["n"]) % 4])
        if c["n"] % 5 == 0:
            q[-1] = list(q[0])
        e = {"op": "Interp", "p": c["p"], "q": vp.hx(q)}
        if c["par"] != "chord":
            lo, hi = (0.0, 1.0) if c["par"] == "given" else (-1.5, 4.0)
            g = [0.0]
            for _ in range(c["n"] - 1):
                g.append(g[-1] + rng.choice([2, 3, 4]))
            e["par"] = vp.hx([lo + (hi - lo) * v / g[-1] for v in g])
        out.append({"key": ckey("interp", c), "ev": [e]})
    for c in take("interptan", 60):
        rng = vp.rng_for("c15t", str(c))
        q = spread(rng, c["n"])
        t = [[rng.uniform(-1, 1) for _ in range(3)] for _ in q]
        out.append({"key": ckey("interptan", c), "ev": [{"op": "InterpTan", "p": c["p"], "q": vp.hx(q), "t": vp.hx(t), "f": vp.hexf(c["f"] / 8)}]})
    for c in take("local", 60):
        rng = vp.rng_for("c15l", str(c))
        q = spread(rng, c["n"], c["kind"])
        out.append({"key": ckey("local", c), "ev": [{"op": "CubicLocal", "q": vp.hx(q)}]})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
