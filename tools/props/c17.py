"""C17: tessellation of curves."""
from .common import *
from .c15 import spread


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, st = shapes(1, 5, 3, offs="{3, 5}")
    lg, st2 = longshapes(20 if quick else 200, minp=1, maxp=7, spans=6, seed=17)
    st = add_stats(st, st2)
    todo = stride(by_shape(sh), 90 if quick else 900, "c17") + lg
    kinds = ("generic", "planar", "rat", "even", "closed", "line", "s", "rats")
    for i, (p, K, spans, e, us) in enumerate(todo):
        v = anyvar(i)
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c17", i)
        kind = kinds[i % len(kinds)]
        n = len(U) - p - 1
        if kind in ("s", "rats"):
            # point symmetric: the middle of the curve is the middle of its chord
            h = spread(rng, n, "even")
            c = [sum(x) / n for x in zip(*h)]
            pts = [[(a - b) / 2 + m for a, b, m in zip(h[k], h[n - 1 - k], c)] for k in range(n)]
            K2 = [Fr(U[0] + U[-1]) - Fr(x) for x in reversed(U)]
            U = [float((Fr(a) + b) / 2) for a, b in zip(U, K2)]
        else:
            pts = spread(rng, n, kind)
        if kind == "closed":
            pts[-1] = list(pts[0])
        ws = [1.0] * n
        if kind in ("rat", "closed"):
            ws = [rng.choice([0.5, 0.75, 1.0, 1.5, 2.0]) for _ in pts]
        if kind == "rats":
            ws = [1.0 + abs(2 * k - n + 1) / n for k in range(n)]
        ev = [{"op": "DefCurve", "c0": curve(p, U, pts, ws)}]
        # how far a polyline with 96 edges per span is from the curve
        B = sorted(set(U))
        vt = 1e-6
        for a, b in zip(B, B[1:]):
            q = [point_of(ev[0], [a + (b - a) * k / 190]) for k in range(190)]
            for x, m, y in zip(q[::2], q[1::2], q[2::2]):
                vt = max(vt, 2.5 * math.dist(m, [(s + t) / 2 for s, t in zip(x, y)]))
        ev += [{"op": "EqTess", "c": 1}, {"op": "Tess", "c": 1, "vt": vp.hexf(vt)}]
        out.append({"key": f"tess {kkey(p, K)} {v} {kind}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
