"""Histories: operations applied one after another to each other's results."""
from .common import *

OPS = ["Insert", "Refine", "Elevate", "Split", "Extract", "Reverse", "Reparam"]


def plan(tier):
    quick = tier == "quick"
    a, st = machine(OPS, maxp=4, spans=3, depth=4, simulate=250 if quick else 2500, seed=vp.SEED)
    b, st2 = grown(OPS, 120 if quick else 1200, spans=7, depth=5, seed=1)
    c, st3 = machine(["Insert", "Split", "Reverse"], maxp=2, spans=2, depth=2, offs="{3}")
    d, st4 = machine(OPS, maxp=3, spans=2, depth=8, simulate=60 if quick else 600, seed=vp.SEED + 7)
    st = add_stats(add_stats(st, st2), add_stats(st3, st4))
    scs = a + b + (stride(c, 150, "c10") if quick else c) + d
    out = []
    for i, s in enumerate(scs):
        v, style = (VARIANTS + ("rnd%d" % (i % 11),))[i % 6], STYLES[i % len(STYLES)]
        if style in ("wide",):
            style = "rat"
        out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c10", i), True, style=style)})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
