"""Knot insertion and refinement."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    scs, st = machine(["Insert"], maxp=5, spans=3)
    hi, st1 = machine(["Insert"], minp=6, maxp=7, spans=2, offs="{2, 5}")
    ref, st2 = machine(["Refine"], maxp=3, spans=2, offs="{2, 5}")
    rf5, st3 = machine(["Refine"], minp=4, maxp=5, spans=2, offs="{3}")
    for x in (st1, st2, st3):
        st = add_stats(st, x)
    if quick:
        scs, hi, ref, rf5 = stride(scs, 1500, "i"), stride(hi, 300, "h"), stride(ref, 600, "r"), stride(rf5, 300, "r5")
    lg, st9 = grown(["Insert", "Refine"], 250 if quick else 2000, spans=12, seed=15)
    st = add_stats(st, st9)
    out = []
    for i, s in enumerate(scs + hi + ref + rf5 + lg):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        rng = vp.rng_for("c04", i)
        out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, rng, True, style=style)})
    # more copies than the degree admits: the answer says how many were inserted
    sh, st4 = shapes(1, 4, 2, offs="{3}", ends='{"clamped"}')
    st = add_stats(st, st4)
    for i, s in enumerate(sh):
        p, K = s["p"], s["K"]
        g = gridmap(VARIANTS[i % 5], s["spans"])
        u = s["u"]
        for t in (1, p + 1, p + 2):
            if K.count(u) + t <= p:
                continue
            ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c04o", i), "rat"),
                  {"op": "InsertKnot", "c": 1, "u": vp.hexf(float(g(u))), "t": t, "over": True}]
            out.append({"key": f"{kkey(p, K)} over u={u} t={t}", "ev": ev})
    # new knots very close to existing ones
    sh, st8 = longshapes(60 if quick else 400, spans=5, seed=16)
    st = add_stats(st, st8)
    for i, (p, K, spans, e, us) in enumerate(sh):
        v = ("int", "nonuni", "unit", "rnd%d" % i)[i % 4]
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        X = sorted(near(float(g(x)), U[0], U[-1], i + k) for k, x in enumerate(sorted(set(K))[1:-1]) for _ in range(1 + (i + k) % p))
        ev = [styled_curve(p, U, vp.rng_for("c04n", i), STYLES[i % len(STYLES)])]
        if X:
            ev.append({"op": "Refine", "c": 1, "X": vp.hx(X)})
        ev.append({"op": "InsertKnot", "c": 1, "u": vp.hexf(near(U[-1], U[0], U[-1], i)), "t": 1 + i % p})
        ev.append({"op": "InsertKnot", "c": 1, "u": vp.hexf(near(float(g(K[len(K) // 2])), U[0], U[-1], i)), "t": 1 + i % p})
        out.append({"key": f"{kkey(p, K)} close {v}", "ev": ev})
    # a longer refinement list: every span at once
    sh, st5 = shapes(1, 7, 3, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st5)
    for i, (p, K, spans, e, us) in enumerate(by_shape(sh)):
        if quick and i % 3 and p > 3:
            continue
        g = gridmap(VARIANTS[i % 5], spans)
        rng = vp.rng_for("c04m", i)
        X = sorted(x for k in range(spans) for x in rng.sample(range(k * UNIT + 1, (k + 1) * UNIT), 2) for _ in range(rng.randint(1, p)))
        ev = [styled_curve(p, [g(x) for x in K], rng, STYLES[i % len(STYLES)]), {"op": "Refine", "c": 1, "X": vp.hx([float(g(x)) for x in X])}]
        out.append({"key": f"{kkey(p, K)} refine-many", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
