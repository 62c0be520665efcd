"""C11: clamping, unclamping, and what the curve predicates answer."""
import math
from .common import *


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, st = shapes(1, 5, 3, offs="{}", ends='{"open", "half", "clamped"}')
    sh2, st2 = shapes(6, 7, 2, offs="{}", ends='{"open", "half"}')
    st = add_stats(st, st2)
    todo = by_shape(sh + sh2)
    if quick:
        todo = stride(todo, 260, "c11")
    for i, (p, K, spans, e, us) in enumerate(todo):
        v = VARIANTS[i % 5]
        g = wide(gridmap(v, spans), spans)
        U = [float(g(x)) for x in K]
        style = STYLES[i % len(STYLES)]
        ev = [styled_curve(p, U, vp.rng_for("c11", i), style), {"op": "ToClamp", "c": 1}, {"op": "Predicates", "c": 1}]
        if style not in ("line", "dup"):
            ev[-1]["linear"] = p == 1 and len(U) == 4
        out.append({"key": f"clamp {e} {kkey(p, K)} {v} {style}", "ev": ev})
    # unclamping: simple interior knots, at least as many spans as the end knots need
    lg, st3 = longshapes(60 if quick else 800, minp=2, maxp=7, spans=12, seed=21)
    st = add_stats(st, st3)
    for i, (p, K, spans, e, us) in enumerate(lg):
        K = [0] * (p + 1) + sorted(set(K) - {K[0], K[-1]}) + [K[-1]] * (p + 1)
        if len(set(K)) - 1 < p:
            continue
        v = VARIANTS[i % 5]
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        out.append({"key": f"unclamp {kkey(p, K)} {v}", "ev": [styled_curve(p, U, vp.rng_for("c11u", i), STYLES[i % 4]),
                    {"op": "ToUnclamp", "c": 1}, {"op": "Predicates", "c": 2}, {"op": "ToClamp", "c": 2}]})
    # closed / linear / periodic
    sh3, st4 = shapes(1, 5, 3, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st4)
    for i, (p, K, spans, e, us) in enumerate(stride(by_shape(sh3), 90 if quick else 500, "c11b")):
        v = VARIANTS[i % 5]
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        n = len(U) - p - 1
        rng = vp.rng_for("c11c", i)
        pts, ws = data(rng, n, "rat")
        cl = [list(q) for q in pts]
        cl[-1] = list(cl[0])
        off = [list(q) for q in cl]
        off[-1][i % 3] += 1e-3
        # repeats its first control points but is clamped, so it is open
        rep = [list(q) for q in pts]
        if n >= 4:
            rep[-2], rep[-1] = list(rep[0]), list(rep[1])
        line = [[1 + 2 * k + rng.randint(0, 6) / 8, 0, 0] for k in range(n)]
        line = [[a, 3 - a / 2, a / 4] for a, _, _ in line]
        bent = [list(q) for q in line]
        bent[rng.randrange(n)][2] += 0.125
        ev = []
        for P, lin in ((cl, None), (off, None), (rep, None), (line, True), (bent, False if n > 2 else True)):
            ev.append({"op": "DefCurve", "c0": curve(p, U, P, ws)})
            q = {"op": "Predicates", "c": len(ev)}
            if lin is not None:
                q["linear"] = lin
            ev.append(q)
        out.append({"key": f"predicates {kkey(p, K)} {v}", "ev": ev})
    # periodic: uniform knots, wrapped control points
    for p in range(1, 6):
        for n in range(p + 2, p + 6):
            rng = vp.rng_for("c11p", p, n)
            pts, ws = data(rng, n, "rat")
            k = n + p
            for sc, t0 in ((1.0, 0.0), (0.25, -3.0)):
                U = [t0 + sc * j for j in range(k + p + 1)]
                P, W = pts + pts[:p], ws + ws[:p]
                Q = [list(x) for x in P]
                Q[-1][0] += 0.5
                ev = [{"op": "DefCurve", "c0": curve(p, U, P, W)}, {"op": "Predicates", "c": 1, "periodic": True},
                      {"op": "DefCurve", "c0": curve(p, U, Q, W)}, {"op": "Predicates", "c": 3, "periodic": False}]
                if p > 1:
                    ev.append({"op": "ToClamp", "c": 1})
                    ev.append({"op": "Predicates", "c": 5, "periodic": False})
                out.append({"key": f"periodic p{p} n{n} {sc}", "ev": ev})
    # arcs and circles are recognized, with centre and radius; ellipses and other curves are not
    k = 0
    for (a0, a1) in ((0, 45), (0, 90), (30, 150), (0, 180), (10, 250), (45, 315), (0, 360), (90, 450), (100, 300)):
        for (rx, ry) in ((1, 1), (2.5, 2.5), (40, 40), (2, 3), (5, 1)):
            k += 1
            rng = vp.rng_for("c11a", k)
            th = rng.uniform(0, 6)
            xa = [math.cos(th), math.sin(th), 0.0]
            ya = [0.0, 0.0, 1.0]
            o = [rng.randint(-40, 40) / 8 for _ in range(3)]
            arc = {"op": "Arc", "o": vp.hx(o), "xa": vp.hx(xa), "ya": vp.hx(ya), "a0": vp.hexf(math.radians(a0)), "a1": vp.hexf(math.radians(a1)), "rx": vp.hexf(rx), "ry": vp.hexf(ry)}
            ev = [arc, {"op": "IsArc", "c": 1, "expect": rx == ry, "radius": vp.hexf(rx), "center": vp.hx(o), "circle": a1 - a0 == 360},
                  {"op": "Elevate", "c": 1, "t": 1 + k % 3}, {"op": "IsArc", "c": 3, "expect": rx == ry, "radius": vp.hexf(rx), "center": vp.hx(o), "circle": a1 - a0 == 360}]
            out.append({"key": f"arc {a0}-{a1} {rx}x{ry}", "ev": ev})
    # validity check
    for i, (p, K, spans, e, us) in enumerate(stride(by_shape(sh3), 25 if quick else 150, "c11d")):
        g = gridmap(VARIANTS[i % 5], spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c11v", i)
        pts, ws = data(rng, len(U) - p - 1, "rat")
        good = curve(p, U, pts, ws)
        bads = [dict(good, P=good["P"][:-1]), dict(good, P=good["P"] + good["P"][-1:]), dict(good, p=p + 1), dict(good, p=0), dict(good, P=[]),
                dict(good, U=list(reversed(good["U"])))]
        ev = [{"op": "DefCurve", "c0": good}, {"op": "CheckCurve", "c": 1, "expect": ""}]
        for b in bads:
            ev.append({"op": "DefCurve", "c0": b})
            ev.append({"op": "CheckCurve", "c": len(ev), "expect": "invalid_argument"})
        out.append({"key": f"check {kkey(p, K)}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
