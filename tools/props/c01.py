"""Curve evaluation: every evaluator returns the point the definition gives."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(1, 4, 3, ends='{"clamped"}')
    b, st2 = shapes(5, 7, 2, ends='{"clamped"}')
    st = add_stats(st, st2)
    if not quick:
        c, st3 = shapes(5, 7, 3, ends='{"clamped"}')
        d, st4 = shapes(1, 3, 5, offs="{1, 3, 5, 7}", ends='{"clamped"}')
        b, st = b + c + d, add_stats(st, add_stats(st3, st4))
    out = []
    for i, (p, K, spans, e, us) in enumerate(by_shape(a + b)):
        g = gridmap(VARIANTS[i % 5], spans)
        for k in range(1 if quick else 3):
            style = STYLES[(i + 3 * k) % len(STYLES)]
            rng = vp.rng_for("c01", i, k)
            ev = [styled_curve(p, [g(x) for x in K], rng, style)]
            ev += [{"op": "Eval", "c": 1, "u": vp.hexf(float(g(u)))} for u in us]
            lo, hi = float(g(K[0])), float(g(K[-1]))
            # off-grid parameters, close to knots and generic
            for x in us:
                if rng.random() < 0.5 and x < K[-1]:
                    ev.append({"op": "Eval", "c": 1, "u": vp.hexf(min(hi, float(g(x)) + (hi - lo) * 2.0 ** -12))})
                if rng.random() < 0.5 and x > K[0]:
                    ev.append({"op": "Eval", "c": 1, "u": vp.hexf(max(lo, float(g(x)) - (hi - lo) * 2.0 ** -12))})
            ev += [{"op": "Eval", "c": 1, "u": vp.hexf(lo + (hi - lo) * rng.random())} for _ in range(2)]
            out.append({"key": f"{kkey(p, K)} {VARIANTS[i % 5]} {style}", "ev": ev})
    lg, st9 = longshapes(70 if quick else 500, spans=16, seed=12)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(lg):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        g = gridmap(v, spans)
        rng = vp.rng_for("c01l", i)
        U = [float(g(x)) for x in K]
        ev = [styled_curve(p, U, rng, style)]
        ps = [float(g(x)) for x in us] + [near(float(g(x)), U[0], U[-1], i + k) for k, x in enumerate(sorted(set(K)))]
        ev += [{"op": "Eval", "c": 1, "u": vp.hexf(x)} for x in ps]
        out.append({"key": f"{kkey(p, K)} long {v} {style}", "ev": ev})
    # unclamped curves over their domain
    o, st9 = shapes(1, 4, 2, ends='{"open", "half"}')
    o2, st8 = shapes(5, 7, 1 if quick else 2, ends='{"open"}')
    st = add_stats(st, add_stats(st8, st9))
    for i, (p, K, spans, e, us) in enumerate(by_shape(o + o2)):
        v, style = VARIANTS[i % 5], STYLES[i % len(STYLES)]
        g = wide(gridmap(v, spans), spans)
        ev = [styled_curve(p, [float(g(x)) for x in K], vp.rng_for("c01o", i), style)]
        ev += [{"op": "Eval", "c": 1, "u": vp.hexf(float(g(u)))} for u in us]
        out.append({"key": f"{kkey(p, K)} {e} {v} {style}", "ev": ev})
    for p in range(1, 8):
        for k in range(10):
            rng = vp.rng_for("c01b", p, k)
            pts, ws = data(rng, p + 1, STYLES[k])
            ev = [{"op": "DefCurve", "c0": curve(p, [0.0] * (p + 1) + [1.0] * (p + 1), pts, ws)}]
            ev += [{"op": "BezierEval", "c": 1, "u": vp.hexf(t)} for t in (0.0, 0.125, 0.3, 0.5, 0.77, 0.999, 1.0)]
            out.append({"key": f"bezier p{p} {STYLES[k]}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
