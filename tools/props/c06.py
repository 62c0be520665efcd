"""Degree elevation and reduction."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    el, st = machine(["Elevate"], maxp=3, spans=3, capp=6)
    e2, st2 = machine(["Elevate"], minp=4, maxp=6, spans=2, capp=7)
    rd, st3 = machine(["Elevate", "Reduce"], maxp=5, spans=1, depth=2)
    r3, st4 = machine(["Elevate", "Reduce"], maxp=3, spans=1, depth=3)
    for x in (st2, st3, st4):
        st = add_stats(st, x)
    scs = el + e2 + [s for s in rd + r3 if s["hist"][-1]["op"] == "Reduce"]
    if not quick:
        e3, st5 = machine(["Elevate"], maxp=4, spans=4, capp=7)
        scs, st = scs + e3, add_stats(st, st5)
    out = []
    lg, st9 = grown(["Elevate"], 70 if quick else 600, maxp=6, spans=9, seed=17)
    st = add_stats(st, st9)
    for i, s in enumerate(lg):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c06l", i), True, style=style)})
    for k in range(3 if quick else 10):
        for i, s in enumerate(scs):
            v, style = VARIANTS[(i + k) % 5], STYLES[(i + 3 * k) % len(STYLES)]
            out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c06", i, k), True, style=style)})
    # a general curve is either refused or reduced within tolerance; never mangled
    sh, st6 = shapes(1, 7, 2, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st6)
    for i, (p, K, spans, e, us) in enumerate(by_shape(sh)):
        g = gridmap(VARIANTS[i % 5], spans)
        ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c06r", i), "rat"), {"op": "Reduce", "c": 1, "must": False}]
        out.append({"key": f"{kkey(p, K)} reduce-general", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
