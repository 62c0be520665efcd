"""C13: arc length, and parameters at given lengths."""
from .common import *
from .c15 import spread


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, st = shapes(2, 5, 3, offs="{3, 5}")
    lg, st2 = longshapes(30 if quick else 300, minp=2, maxp=7, spans=8, seed=13)
    st = add_stats(st, st2)
    todo = stride(by_shape(sh), 80 if quick else 900, "c13") + lg
    kinds = ("generic", "planar", "corner", "even", "rat", "rat", "line", "closed")
    for i, (p, K, spans, e, us) in enumerate(todo):
        v = anyvar(i)
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c13", i)
        kind = kinds[i % len(kinds)]
        n = len(U) - p - 1
        pts = spread(rng, n, kind)
        if kind == "closed":
            r = rng.choice([1.0, 2.5])
            pts = [[r * math.cos(2 * math.pi * k / (n - 1)), 2 * r * math.sin(2 * math.pi * k / (n - 1)), 0.25 * (k % 2 if 0 < k < n - 1 else 0)] for k in range(n)]
            pts[-1] = list(pts[0])
        ws = [rng.choice([0.5, 0.75, 1.0, 1.5, 2.0]) for _ in pts] if kind in ("rat", "closed") else [1.0] * n
        s = [1.0, 4.0, 0.5][i % 3]
        pts = [[s * x for x in q] for q in pts]
        ev = [{"op": "DefCurve", "c0": curve(p, U, pts, ws)}]
        L = sum(math.dist(point_of(ev[0], [a]), point_of(ev[0], [b])) for a, b in
                zip([U[0] + (U[-1] - U[0]) * k / 256 for k in range(256)], [U[0] + (U[-1] - U[0]) * (k + 1) / 256 for k in range(256)]))
        for m in (0, 1, 2):
            ev.append({"op": "Length", "c": 1, "m": m})
        a, b = sorted(rng.sample(us, 2)) if len(us) > 1 else (us[0], us[-1])
        if a != b:
            ev.append({"op": "LengthRange", "c": 1, "lo": vp.hexf(float(g(a))), "hi": vp.hexf(float(g(b))), "m": 1 + i % 2})
        m = (1, 2)[i % 2]
        for f in (0.125, rng.uniform(0.1, 0.9), 0.5):
            ev.append({"op": "ParamByLength", "c": 1, "len": vp.hexf(f * L), "m": m})
        ev.append({"op": "ParamsByLength", "c": 1, "len": vp.hexf(L * rng.choice([0.22, 0.3, 0.37, 0.45])), "m": m})
        out.append({"key": f"length {kkey(p, K)} {v} {kind} m={m}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
