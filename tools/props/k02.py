"""Knot vector utilities."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(1, 4, 4, offs="{}", ends='{"clamped", "open", "half"}')
    b, st2 = shapes(5, 7, 2, offs="{}", ends='{"clamped", "open", "half"}')
    st = add_stats(st, st2)
    base = by_shape(a + b)
    if quick:
        base = stride(base, 400, "k02")
    out = []

    def vec(v, spans, K):
        g = wide(gridmap(v, spans), spans)
        return [float(g(x)) for x in K]
    for i, (p, K, spans, e, us) in enumerate(base):
        v = VARIANTS[i % 5]
        rng = vp.rng_for("k02", i)
        U = vec(v, spans, K)
        key = f"{kkey(p, K)} {e} {v}"
        ev = [{"op": "KvMaps", "U": vp.hx(U)}]
        for lo, hi in ((0.0, 1.0), (-3.0, 2.5), (10.0, 10.125), (U[0], U[-1])):
            ev.append({"op": "KvRescale", "U": vp.hx(U), "lo": vp.hexf(lo), "hi": vp.hexf(hi)})
        ev.append({"op": "KvClampInsert", "p": p, "U": vp.hx(U), "lo": vp.hexf(U[0]), "hi": vp.hexf(U[-1])})
        for k in (1, 2, 3, 5):
            ev.append({"op": "KvMidInsert", "U": vp.hx(U), "k": k})
        out.append({"key": key, "ev": ev})
    cl = [x for x in by_shape(a) if x[3] == "clamped"]
    bydeg = {}
    for x in cl:
        bydeg.setdefault(x[0], []).append(x)
    n = 0
    for p, xs in sorted(bydeg.items()):
        for i, A in enumerate(xs):
            for B in (xs if len(xs) < 25 else vp.rng_for("k02p", p, i).sample(xs, 12)):
                n += 1
                v = EXACT[n % 2]
                out.append({"key": f"merge2 {kkey(p, A[1])} {kkey(p, B[1])} {v}",
                            "ev": [{"op": "KvMerge2", "A": vp.hx(vec(v, A[2], A[1])), "B": vp.hx(vec(v, B[2], B[1]))}]})
        for k in range(60 if quick else 400):
            rng = vp.rng_for("k02m", p, k)
            L = [rng.choice(xs) for _ in range(rng.randint(2, 5))]
            out.append({"key": "mergeall " + " ".join(kkey(p, x[1]) for x in L),
                        "ev": [{"op": "KvMergeAll", "L": vp.hx([vec(EXACT[k % 2], x[2], x[1]) for x in L])}]})
    # vectors over one range that skip different knots
    sh, st9 = longshapes(80 if quick else 800, spans=6, seed=21)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(sh):
        rng = vp.rng_for("k02s", i)
        g = gridmap(VARIANTS[i % 5], spans)
        L = []
        for _ in range(2 + i % 3):
            inner = [x for x in sorted(set(K))[1:-1] if rng.random() < 0.6]
            L.append([float(g(x)) for x in [K[0]] * (p + 1) + sorted(x for x in inner for _ in range(rng.randint(1, p + 1))) + [K[-1]] * (p + 1)])
        key = f"skip {kkey(p, K)} {VARIANTS[i % 5]}"
        out.append({"key": key, "ev": [{"op": "KvMergeAll", "L": vp.hx(L)}, {"op": "KvMerge2", "A": vp.hx(L[0]), "B": vp.hx(L[1])},
                                       {"op": "KvMaps", "U": vp.hx(L[0])}]})
    for p in range(1, 8):
        for k in range(12 if quick else 60):
            rng = vp.rng_for("k02a", p, k)
            m = rng.randint(p + 1, p + 8)
            t = sorted(rng.sample(range(1, 1000), m - 2)) if m > 2 else []
            t = [0.0] + [x / 1000 for x in t] + [1.0]
            if k % 3 == 1:
                t = [x * 7.5 - 2 for x in t]
            out.append({"key": f"average p{p} m{m} {k}", "ev": [{"op": "KvAverage", "p": p, "t": vp.hx(t)}]})
    # counts of knots and control points that fit or do not; tolerance of modifications
    for p in range(1, 8):
        for n in range(1, 12 if quick else 30):
            rng = vp.rng_for("k02c", p, n)
            ev = []
            for k in range(max(0, n + p - 1), n + p + 4):
                sz = rng.choice((0.25, 1, 40))
                P = []
                for _ in range(1 + n % 5):
                    w = rng.choice((1.0, 0.25, 2.0, 8.0))
                    P.append([w * sz * rng.randint(-8, 8) / 4 for _ in range(3)] + [w])
                ev.append({"op": "Counts", "p": p, "k": k, "n": n, "P": vp.hx(P)})
            out.append({"key": f"counts p{p} n{n}", "ev": ev})
    return {"module": "TraceBasis", "scenarios": out, "stats": st}
