"""Derivatives of curves."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(1, 4, 3, ends='{"clamped"}')
    b, st2 = shapes(5, 7, 2, ends='{"clamped"}')
    st = add_stats(st, st2)
    if not quick:
        c, st3 = shapes(5, 7, 3, ends='{"clamped"}')
        d, st4 = shapes(1, 3, 5, offs="{1, 3, 5, 7}", ends='{"clamped"}')
        b, st = b + c + d, add_stats(st, add_stats(st3, st4))
    out = []
    for i, (p, K, spans, e, us) in enumerate(by_shape(a + b)):
        v = VARIANTS[i % 5]
        g = gridmap(v, spans)
        for k in range(1 if quick else 3):
            style = STYLES[(i + 3 * k) % len(STYLES)]
            far = style in ("large", "wide")
            rng = vp.rng_for("c02", i, k)
            ev = [styled_curve(p, [g(x) for x in K], rng, style)]
            if quick and len(us) > 6:
                us = sorted(set([us[0], us[-1]] + rng.sample(us, 5)))
            for j, u in enumerate(us):
                ev.append({"op": "Ders", "c": 1, "u": vp.hexf(float(g(u))), "d": 2 if far else (p + 2, p, 2, 3, 1)[(i + j) % 5]})
                ev.append({"op": "CanDer", "c": 1, "u": vp.hexf(float(g(u)))})
            lo, hi = float(g(K[0])), float(g(K[-1]))
            ev.append({"op": "Ders", "c": 1, "u": vp.hexf(lo + (hi - lo) * rng.random()), "d": 2 if far else p + 1})
            # a knot of full multiplicity where the curve stays smooth
            mid = lo + (hi - lo) * rng.choice([0.28125, 0.53125, 0.84375])
            if min(abs(mid - float(g(x))) for x in K) > 1e-3 * (hi - lo):
                ev.append({"op": "InsertKnot", "c": 1, "u": vp.hexf(mid), "t": p})
                ev.append({"op": "CanDer", "c": len(ev), "u": vp.hexf(mid)})
            out.append({"key": f"{kkey(p, K)} {v} {style}", "ev": ev})
    lg, st9 = longshapes(40 if quick else 400, spans=14, seed=13)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(lg):
        v, style = anyvar(i), ("poly", "rat", "same", "dup", "planar", "small")[i % 6]
        g = gridmap(v, spans)
        rng = vp.rng_for("c02l", i)
        U = [float(g(x)) for x in K]
        ev = [styled_curve(p, U, rng, style)]
        pick = rng.sample(us, min(len(us), 6)) + [K[0], K[-1]]
        ps = [float(g(x)) for x in pick] + [near(float(g(x)), U[0], U[-1], i + k) for k, x in enumerate(pick[:3])]
        ev += [{"op": "Ders", "c": 1, "u": vp.hexf(x), "d": (p, 2, p + 1, 3)[(i + k) % 4]} for k, x in enumerate(ps)]
        ev += [{"op": "CanDer", "c": 1, "u": vp.hexf(x)} for x in ps]
        out.append({"key": f"{kkey(p, K)} long {v} {style}", "ev": ev})
    # unclamped curves over their domain
    o, st9 = shapes(1, 4, 2, ends='{"open", "half"}')
    o2, st8 = shapes(5, 7, 1 if quick else 2, ends='{"open"}')
    st = add_stats(st, add_stats(st8, st9))
    for i, (p, K, spans, e, us) in enumerate(by_shape(o + o2)):
        v, style = VARIANTS[i % 5], ("poly", "rat", "same", "dup", "planar", "small")[i % 6]
        g = wide(gridmap(v, spans), spans)
        ev = [styled_curve(p, [float(g(x)) for x in K], vp.rng_for("c02o", i), style)]
        us = us if not quick else us[:: max(1, len(us) // 4)]
        ev += [{"op": "Ders", "c": 1, "u": vp.hexf(float(g(u))), "d": (p, 2, p + 1, 3)[(i + k) % 4]} for k, u in enumerate(us)]
        out.append({"key": f"{kkey(p, K)} {e} {v} {style}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
