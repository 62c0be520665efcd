"""Curvature, torsion, normal and binormal."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(2, 5, 2, ends='{"clamped"}')
    if not quick:
        c, st3 = shapes(2, 7, 3, ends='{"clamped"}')
        a, st = a + c, add_stats(st, st3)
    out = []
    for i, (p, K, spans, e, us) in enumerate(by_shape(a)):
        v = VARIANTS[i % 5]
        g = gridmap(v, spans)
        for k in range(3 if quick else 6):
            style = ("poly", "rat", "same", "planar", "small", "rat")[(i + k) % 6]
            rng = vp.rng_for("c03", i, k)
            ev = [styled_curve(p, [g(x) for x in K], rng, style)]
            ev += [{"op": "Frenet", "c": 1, "u": vp.hexf(float(g(u)))} for u in us]
            ev.append({"op": "ProjNormals", "c": 1})
            out.append({"key": f"{kkey(p, K)} {v} {style}", "ev": ev})
    lg, st9 = longshapes(40 if quick else 300, minp=2, spans=10, seed=14)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(lg):
        v, style = VARIANTS[i % 5], ("poly", "rat", "same", "planar")[i % 4]
        g = gridmap(v, spans)
        ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c03l", i), style)]
        ev += [{"op": "Frenet", "c": 1, "u": vp.hexf(float(g(u)))} for u in us]
        ev.append({"op": "ProjNormals", "c": 1})
        out.append({"key": f"{kkey(p, K)} long {v} {style}", "ev": ev})
    # closed curves: full circles and ellipses, and closed smooth splines
    for k in range(12 if quick else 60):
        rng = vp.rng_for("c03c", k)
        x, y, o = frame_of(rng, k)
        if k % 2:
            ev = [{"op": "Arc", "o": vp.hx(o), "xa": vp.hx(x), "ya": vp.hx(y), "a0": vp.hexf(0.0), "a1": vp.hexf(2 * math.pi), "rx": vp.hexf(2.5), "ry": vp.hexf(2.5 if k % 4 == 1 else 1.25)}]
        else:
            p, n = 2 + k % 3, 8
            pts = points(rng, n)
            pts[-1] = list(pts[0])
            pts[-2] = [2 * a - b for a, b in zip(pts[0], pts[1])]
            U = [0.0] * (p + 1) + [float(j) for j in range(1, n - p)] + [float(n - p)] * (p + 1)
            ev = [{"op": "DefCurve", "c0": curve(p, U, pts, [1.0] * n)}]
        out.append({"key": f"closed {k}", "ev": ev + [{"op": "ProjNormals", "c": 1}]})
    # unit speed at an end without being parametrized by arc length
    for p in range(2, 8):
        for k in range(4):
            rng = vp.rng_for("c03u", p, k)
            pts = points(rng, p + 1)
            ax = k % 3
            pts[1] = list(pts[0])
            pts[1][ax] += 1.0 / p if k != 3 else -1.0 / p
            ev = [{"op": "DefCurve", "c0": curve(p, [0.0] * (p + 1) + [1.0] * (p + 1), pts, [1.0] * (p + 1))},
                  {"op": "Frenet", "c": 1, "u": vp.hexf(0.0)}, {"op": "Frenet", "c": 1, "u": vp.hexf(0.5)}]
            out.append({"key": f"unit-speed start p{p} {k}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
