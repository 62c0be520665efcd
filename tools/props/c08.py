"""Split, extract, merge."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    sp, st = machine(["Split"], maxp=4, spans=3)
    s7, st2 = machine(["Split"], minp=5, maxp=7, spans=2, offs="{2, 5}")
    ex, st3 = machine(["Extract"], maxp=3, spans=3, offs="{2, 5}")
    e7, st4 = machine(["Extract"], minp=4, maxp=7, spans=2, offs="{3}")
    for x in (st2, st3, st4):
        st = add_stats(st, x)
    allsc = sp + s7 + ex + e7
    if quick:
        allsc = stride(sp, 500, "sp") + stride(s7, 200, "s7") + stride(ex, 500, "ex") + stride(e7, 200, "e7")
    lg, st9 = grown(["Split", "Extract"], 150 if quick else 1000, spans=12, seed=19)
    st = add_stats(st, st9)
    allsc = allsc + lg
    out = []
    for i, s in enumerate(allsc):
        v, style = anyvar(i), STYLES[i % len(STYLES)]
        out.append({"key": f"{shape_key(s)} {hist_key(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c08", i), True, style=style)})
    # very close to a knot or to an end
    sh, st8 = longshapes(60 if quick else 400, spans=5, seed=20)
    st = add_stats(st, st8)
    for i, (p, K, spans, e, us) in enumerate(sh):
        v = ("int", "nonuni", "unit", "rnd%d" % i)[i % 4]
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c08n", i)
        x = near(float(g(rng.choice(K))), U[0], U[-1], 4 * i + 1 + i % 3)
        ev = [styled_curve(p, U, rng, STYLES[i % len(STYLES)]), {"op": "Split", "c": 1, "u": vp.hexf(x), "right": True}]
        a, b = sorted(rng.sample(sorted(set(K)), 2))
        xa, xb = near(float(g(a)), U[0], U[-1], 1 + i % 3), near(float(g(b)), U[0], U[-1], 1 + (i + 1) % 3)
        if xa + 1e-3 < xb:
            ev.append({"op": "Extract", "c": 1, "lo": vp.hexf(xa), "hi": vp.hexf(xb)})
        out.append({"key": f"{kkey(p, K)} close {v}", "ev": ev})
    sh, st5 = shapes(1, 4, 2, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st5)
    base = by_shape(sh)
    k = 0
    for i, A in enumerate(base):
        for j, B in enumerate(base):
            k += 1
            if quick and k % 3:
                continue
            rng = vp.rng_for("merge", i, j)
            va, vb = VARIANTS[k % 5], VARIANTS[(k // 5) % 5]
            ga, gb = gridmap(va, A[2]), gridmap(vb, B[2])
            pa, wa = data(rng, len(A[1]) - A[0] - 1, STYLES[k % 5])
            pb, wb = data(rng, len(B[1]) - B[0] - 1, STYLES[(k + 1) % 5])
            meet = k % 7 != 0
            if meet:
                pb[0], wb[0] = list(pa[-1]), wa[-1]
            else:
                kind = ("far", "x", "y", "z", "weight", "homogeneous")[k // (21 if quick else 7) % 6]
                pb[0], wb[0] = list(pa[-1]), wa[-1]
                if kind == "far":
                    pb[0] = [x + 0.5 for x in pa[-1]]
                elif kind in "xyz":
                    pb[0]["xyz".index(kind)] += 0.01 * (1 + abs(pa[-1]["xyz".index(kind)])) / min(1, wa[-1])
                else:
                    wb[0] = wa[-1] * 1.5
                    meet = kind == "weight"  # the weights of the common point may differ
                    if not meet:
                        pb[0] = [(x or 1.0) / 1.5 for x in pa[-1]]
            ev = [{"op": "DefCurve", "c0": curve(A[0], [ga(x) for x in A[1]], pa, wa)},
                  {"op": "DefCurve", "c0": curve(B[0], [gb(x) for x in B[1]], pb, wb)},
                  {"op": "Merge", "c1": 1, "c2": 2, "expect": meet}]
            out.append({"key": f"merge {kkey(A[0], A[1])} {va} + {kkey(B[0], B[1])} {vb} {'meet' if k % 7 else kind}", "ev": ev})
    # not clamped where they would meet
    sh, st6 = shapes(1, 4, 3, offs="{}", ends='{"open", "half"}')
    st = add_stats(st, st6)
    un = by_shape(sh)
    for i, A in enumerate(un):
        for j, B in enumerate(b for b in base if b[0] == A[0]):
            rng = vp.rng_for("mergeu", i, j)
            ga, gb = wide(gridmap(VARIANTS[i % 5], A[2]), A[2]), gridmap(VARIANTS[j % 5], B[2])
            U = [ga(x) for x in A[1]]
            if quick and (i + j) % 4:
                continue
            pa, wa = data(rng, len(A[1]) - A[0] - 1, STYLES[i % 5])
            pb, wb = data(rng, len(B[1]) - B[0] - 1, STYLES[j % 5])
            first = U[-1] != U[-A[0] - 1] and (U[0] == U[A[0]] or (i + j) % 8 < 4)
            if first:
                pb[0], wb[0] = list(pa[-1]), wa[-1]
            else:
                pb[-1], wb[-1] = list(pa[0]), wa[0]
            ev = [{"op": "DefCurve", "c0": curve(A[0], U, pa, wa)},
                  {"op": "DefCurve", "c0": curve(B[0], [gb(x) for x in B[1]], pb, wb)},
                  {"op": "Merge", "c1": 1 if first else 2, "c2": 2 if first else 1, "expect": False}]
            out.append({"key": f"merge unclamped {'first' if first else 'second'} {kkey(A[0], A[1])} + {kkey(B[0], B[1])}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
