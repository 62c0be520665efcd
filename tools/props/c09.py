"""Reversal, reparametrization (affine and linear rational), affine transformation."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = machine(["Reverse", "Reparam"], maxp=4, spans=3, depth=2)
    b, st2 = machine(["Reverse", "Reparam"], minp=5, maxp=7, spans=2, depth=2)
    st = add_stats(st, st2)
    scs = stride(a + b, 500, "c09") if quick else a + b
    lg, st9 = grown(["Reverse", "Reparam"], 80 if quick else 500, spans=12, depth=2, seed=21)
    st = add_stats(st, st9)
    scs = scs + lg
    out = []
    for i, s in enumerate(scs):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c09", i), True, style=style)})
    sh, st3 = shapes(1, 4, 3, offs="{}", ends='{"clamped"}')
    s7, st4 = shapes(5, 7, 2, offs="{}", ends='{"clamped"}')
    st = add_stats(st, add_stats(st3, st4))
    for i, (p, K, spans, e, us) in enumerate(by_shape(sh + s7)):
        for k in range(2 if quick else 8):
            rng = vp.rng_for("c09m", i, k)
            v, style = ("int", "nonuni", "unit")[(i + k) % 3], STYLES[(i + 3 * k) % len(STYLES)]
            g = gridmap(v, spans)
            ev = [styled_curve(p, [g(x) for x in K], rng, style)]
            # denominators positive on the domain [0, <= 7]
            al, be, ga, de = [(2, 1, 1, 3), (1, 0, 0.25, 1), (3, -1, -0.0625, 1), (1, 2, 0, 1), (2, 0, 0.5, 2), (5, 1, 1, 1)][(i + k) % 6]
            ev.append({"op": "Moebius", "c": 1, "al": vp.hexf(al), "be": vp.hexf(be), "ga": vp.hexf(ga), "de": vp.hexf(de)})
            m = [[rng.randint(-16, 16) / 8 for _ in range(4)] for _ in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
            ev.append({"op": "Transform", "c": 1, "m": vp.hx(m)})
            out.append({"key": f"{kkey(p, K)} moebius {al},{be},{ga},{de} {v} {style}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
