"""S04: surfaces interpolating or approximating grids of points."""
from .common import *


def grid(rng, m, n, kind):
    """m rows of n points"""
    if kind in ("sum", "sumflat"):
        a = [[1.5 * j + rng.randint(-3, 3) / 8, rng.randint(-2, 2) / 8, 0.0 if kind == "sumflat" else rng.randint(-8, 8) / 8] for j in range(n)]
        b = [[rng.randint(-2, 2) / 8, 1.25 * i + rng.randint(-3, 3) / 8, 0.0 if kind == "sumflat" else rng.randint(-8, 8) / 8] for i in range(m)]
        return [[[a[j][k] + b[i][k] for k in range(3)] for j in range(n)] for i in range(m)]
    res = []
    for i in range(m):
        row = []
        for j in range(n):
            x, y = 1.5 * j, 2.0 * i
            if kind != "grid":
                x += rng.randint(-3, 3) / 8
                y += rng.randint(-3, 3) / 8
            z = {"sheet": rng.randint(-8, 8) / 8, "fold": 1.5 * abs(j - n / 2) + 0.5 * (i % 2), "flat": 0.5 * x - y, "grid": 0.0}[kind]
            row.append([x, y, z])
        res.append(row)
    return res


def plan(tier):
    quick = tier == "quick"
    out = []
    st = {"generated": 0, "distinct": 0}

    def take(fam, n, seeds=2 if quick else 4):
        nonlocal st
        cs, s = cases(fam, seeds)
        st = add_stats(st, s)
        return [(c, vp.rng_for("s04", fam, str(c))) for c in stride(cs, n if quick else 8 * n, "s04" + fam)]

    for c, rng in take("sinterp", 110):
        m, n = c["pv"] + 1 + c["m"], c["pu"] + 1 + c["n"]
        out.append({"key": ckey("sinterp", c), "ev": [{"op": "SInterp", "q": vp.hx(grid(rng, m, n, c["kind"])), "pu": c["pu"], "pv": c["pv"]}]})
    for c, rng in take("slocal", 60):
        out.append({"key": ckey("slocal", c), "ev": [{"op": "SLocal", "q": vp.hx(grid(rng, c["m"], c["n"], c["kind"]))}]})
    for c, rng in take("sapprox", 90):
        nu, nv = c["pv"] + 1 + c["nu"], c["pu"] + 1 + c["nv"]
        e = {"op": "SApprox", "q": vp.hx(grid(rng, nu + c["m"], nv + c["n"], c["kind"])), "pu": c["pu"], "pv": c["pv"], "nu": nu, "nv": nv}
        if c["kind"] != "sheet":
            e["sum"] = 1
        out.append({"key": ckey("sapprox", c), "ev": [e]})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
