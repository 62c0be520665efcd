"""Decomposition into Bezier segments."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(1, 4, 4 if not quick else 3, offs="{}", ends='{"clamped"}')
    b, st2 = shapes(5, 7, 2, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st2)
    c, st3 = shapes(1, 2, 5, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st3)
    lg, st9 = longshapes(120 if quick else 900, spans=14, seed=18)
    st = add_stats(st, st9)
    out = []
    for i, (p, K, spans, e, us) in enumerate(lg):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        g = gridmap(v, spans)
        ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c07l", i), style), {"op": "Decompose", "c": 1}]
        out.append({"key": f"{kkey(p, K)} long {v} {style}", "ev": ev})
    for i, (p, K, spans, e, us) in enumerate(by_shape(a + b + c)):
        for k in range(5 if quick else 10):
            v, style = VARIANTS[(i + k) % 5], STYLES[(i + 3 * k) % len(STYLES)]
            g = gridmap(v, spans)
            ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c07", i, k), style), {"op": "Decompose", "c": 1}]
            out.append({"key": f"{kkey(p, K)} {v} {style}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
