"""S07: profiles swept along trajectories."""
from .common import *


def de_boor(p, U, P, t):
    """homogeneous point"""
    n = len(P)
    k = p
    while k < n - 1 and U[k + 1] <= t:
        k += 1
    d = [list(P[j]) for j in range(k - p, k + 1)]
    for r in range(1, p + 1):
        for j in range(p, r - 1, -1):
            i = k - p + j
            a = (t - U[i]) / (U[i + p - r + 1] - U[i])
            d[j] = [(1 - a) * x + a * y for x, y in zip(d[j - 1], d[j])]
    return [x / d[p][3] for x in d[p][:3]]


def equal_steps(p, U, pts, ws, n, fine=4000):
    """fractions of the domain that cut the curve into n pieces of equal length (the specification checks them)"""
    P = [[w * x for x in q] + [w] for q, w in zip(pts, ws)]
    lo, hi = U[0], U[-1]
    X = [de_boor(p, U, P, lo + (hi - lo) * i / fine) for i in range(fine + 1)]
    L = [0.0]
    for a, b in zip(X, X[1:]):
        L.append(L[-1] + math.dist(a, b))
    ts, i = [0.0], 0
    for k in range(1, n):
        g = L[-1] * k / n
        while L[i + 1] < g:
            i += 1
        ts.append((i + (g - L[i]) / (L[i + 1] - L[i])) / fine)
    return ts + [1.0]


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, s0 = shapes(1, 4, 4, offs="{3}")
    smooth = []
    for p, K, spans, e, us in by_shape(sh):
        m = [K.count(x) for x in sorted(set(K))[1:-1]]
        if all(v < p or p == 1 and False for v in m):
            smooth.append((p, K, spans, e, us))
    profs = stride(by_shape(sh), 24, "s07p")
    trajs = stride(smooth, 24, "s07t")
    cs, s1 = cases("profsweep", 1 if quick else 4)
    for c in stride(cs, 110 if quick else 1500, "s07"):
        rng = vp.rng_for("s07", ckey("profsweep", c))
        p, K, spans, e, us = profs[(c["a"] - 1) % len(profs)]
        g = gridmap("int" if c["a"] % 2 else "uneven", spans) if "uneven" in VARIANTS else gridmap("int", spans)
        U = [float(g(x)) for x in K]
        m = len(U) - p - 1
        pts = [[1.5 * i / max(1, m - 1) - 0.5 + rng.uniform(-0.1, 0.1), rng.uniform(-0.5, 0.5), 0.0] for i in range(m)]
        ws = [rng.choice([0.75, 1.0, 1.5]) if c["k"] == "rat" else 1.0 for _ in pts]
        A = {"op": "DefCurve", "c0": curve(p, U, pts, ws)}
        p2, K2, sp2, _, _ = trajs[(c["b"] - 1) % len(trajs)]
        g = gridmap("int", sp2)
        V = [float(g(x)) for x in K2]
        m = len(V) - p2 - 1
        x, y, o = frame_of(rng, c["seed"] + c["b"] % 3)
        z = cross(x, y)
        if c["k"] in ("line", "uneven"):
            gr = [sum(V[i + 1:i + p2 + 1]) / p2 for i in range(m)]
            f = [(t - V[0]) / (V[-1] - V[0]) for t in gr]
            if c["k"] == "uneven":
                f = [t ** 1.5 for t in f]
            L = rng.choice([2.0, 5.0, 10.0])
            loc = [[L * t, 0.0, 0.0] for t in f]
        elif c["k"] == "helix":
            loc = [[4 * math.cos(0.6 * i), 4 * math.sin(0.6 * i), 0.8 * i] for i in range(m)]
        else:
            b = rng.uniform(0.3, 0.7)
            loc = [[3.0 * i + rng.uniform(-0.4, 0.4), 2.5 * math.sin(b * i), (1.5 * math.cos(0.8 * i) if c["k"] == "space" else 0.0)] for i in range(m)]
        tp = [[o[k] + q[0] * x[k] + q[1] * y[k] + q[2] * z[k] for k in range(3)] for q in loc]
        tw = [rng.choice([1.0, 1.25, 1.5]) if c["k"] == "rat" else 1.0 for _ in tp]
        B = {"op": "DefCurve", "c0": curve(p2, V, tp, tw)}
        n = c["n"]
        if c["q"]:
            n = max(n, c["q"])
            ev = {"op": "Sweep2", "c1": 1, "c2": 2, "n": n, "q": c["q"], "ts": vp.hx(equal_steps(p2, V, tp, tw, n))}
        else:
            ev = {"op": "Sweep1", "c1": 1, "c2": 2, "n": max(n, p)}
        out.append({"key": ckey("profsweep", c), "ev": [A, B, ev]})
    return {"module": "TraceSurface", "scenarios": out, "stats": add_stats(s0, s1)}
