"""C12: point inversion on curves."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, st = shapes(1, 5, 3, offs="{3, 5}")
    lg, st2 = longshapes(40 if quick else 500, minp=1, maxp=7, spans=8, seed=12)
    st = add_stats(st, st2)
    todo = stride(by_shape(sh), 170 if quick else 1500, "c12") + lg
    styles = ("poly", "rat", "rat", "large", "small", "planar", "line", "closed")
    for i, (p, K, spans, e, us) in enumerate(todo):
        v = anyvar(i)
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c12", i)
        style = styles[i % len(styles)]
        n = len(U) - p - 1
        pts, ws = data(rng, n, "rat" if style == "closed" else style)
        if style == "closed" and n > 2:
            pts[-1] = list(pts[0])
            ws[-1] = ws[0]
        ev = [{"op": "DefCurve", "c0": curve(p, U, pts, ws)}]
        pick = sorted(set([us[0], us[-1]] + rng.sample(us, min(len(us), 4))))
        for u in pick:
            q = point_of(ev[0], [float(g(u))])
            ev.append({"op": "ParamOfPoint", "c": 1, "q": vp.hx(q), "on": 1})
            ev.append({"op": "AllParamsOfPoint", "c": 1, "q": vp.hx(q), "pre": vp.hx([float(g(u))])})
        sz = max(abs(x) for q in pts for x in q)
        for j in range(3):
            q = point_of(ev[0], [rng.uniform(U[0], U[-1])])
            d = [rng.uniform(-1, 1) * sz * [0.01, 0.2, 2.0][j] for _ in range(3)]
            ev.append({"op": "ParamOfPoint", "c": 1, "q": vp.hx([a + b for a, b in zip(q, d)])})
        out.append({"key": f"inversion {kkey(p, K)} {v} {style}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
