"""C14: lines, arcs, conics and Hermite curves are the curves asked for."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    out = []
    st = {"generated": 0, "distinct": 0}
    N = 3 if quick else 12

    def take(fam, n, seeds=N):
        nonlocal st
        cs, s = cases(fam, seeds)
        st = add_stats(st, s)
        return stride(cs, n if quick else 6 * n, "c14" + fam)

    for c in take("line", 30, 40):
        rng = vp.rng_for("c14l", c["seed"])
        a, b = points(rng, 2, lim=[1, 8, 300][c["seed"] % 3])
        out.append({"key": ckey("line", c), "ev": [{"op": "Line", "a": vp.hx(a), "b": vp.hx(b)}]})
    for c in take("arc", 420):
        rng = vp.rng_for("c14a", str(c))
        x, y, o = frame_of(rng, c["frame"])
        if c["frame"] >= 2:      # axes need not be unit vectors
            x = [2.5 * v for v in x]
            y = [0.375 * v for v in y]
        rx, ry = (v / 8 for v in c["r"])
        a0 = math.radians(c["a0"])
        out.append({"key": ckey("arc", c), "ev": [{"op": "Arc", "o": vp.hx(o), "xa": vp.hx(x), "ya": vp.hx(y), "a0": vp.hexf(a0),
                    "a1": vp.hexf(a0 + math.radians(c["sweep"]) if c["sweep"] < 360 else a0 + 2 * math.pi), "rx": vp.hexf(rx), "ry": vp.hexf(ry)}]})
    for c in take("conic", 260):
        rng = vp.rng_for("c14c", str(c))
        x, y, o = frame_of(rng, c["seed"])
        h = math.radians(c["ang"]) / 2
        l1, l2 = rng.choice([(3, 3), (2, 5), (6, 1.5)])
        a, b, m = [-l1 * math.sin(h), -l1 * math.cos(h)], [l2 * math.sin(h), -l2 * math.cos(h)], [0.0, 0.0]
        w, t = c["w"] / 8, c["at"] / 8
        d = (1 - t) ** 2 + 2 * t * (1 - t) * w + t * t
        if d < 0.05:
            continue
        q = [((1 - t) ** 2 * a[i] + 2 * t * (1 - t) * w * m[i] + t * t * b[i]) / d for i in (0, 1)]
        A, B, M, Q = (at(o, x, y, v) for v in (a, b, m, q))
        s1, s2 = rng.choice([(1, 1), (0.25, 3), (-1, 2), (0.5, -0.5)])
        f = {"a": vp.hx(A), "ta": vp.hx([s1 * (p - r) for p, r in zip(M, A)]), "b": vp.hx(B), "tb": vp.hx([s2 * (r - p) for p, r in zip(M, B)]), "q": vp.hx(Q), "pp": vp.hx(M)}
        out.append({"key": ckey("conic", c), "ev": [dict(f, op="ConicOpen"), dict(f, op="ConicOne", w=vp.hexf(w)),
                                                    {"op": "SplitArc", "a": f["a"], "b": f["b"], "pp": f["pp"], "w": vp.hexf(w)}]})
    for c in take("conicinf", 60):
        rng = vp.rng_for("c14i", str(c))
        x, y, o = frame_of(rng, c["seed"])
        l = rng.choice([1.0, 2.5, 6.0])
        a, b, v = [-l, rng.choice([0.0, 1.0])], [l, 0.0], [0.0, c["s"] / 8]
        t = c["at"] / 8
        d = (1 - t) ** 2 + t * t
        q = [((1 - t) ** 2 * a[i] + 2 * t * (1 - t) * v[i] + t * t * b[i]) / d for i in (0, 1)]
        A, B, Q = (at(o, x, y, p) for p in (a, b, q))
        V = at([0, 0, 0], x, y, v)
        s1, s2 = rng.choice([(1, 1), (0.25, 3), (-1, 2), (0.5, -0.5)])
        f = {"a": vp.hx(A), "ta": vp.hx([s1 * p for p in V]), "b": vp.hx(B), "tb": vp.hx([s2 * p for p in V]), "q": vp.hx(Q), "pp": vp.hx(V), "inf": 1}
        out.append({"key": ckey("conicinf", c), "ev": [dict(f, op="ConicOpen"), dict(f, op="ConicOne", w=vp.hexf(0.0)),
                                                       {"op": "SplitArc", "a": f["a"], "b": f["b"], "pp": f["pp"], "w": vp.hexf(0.0), "inf": 1}]})
    for c in take("hermite", 60, 3 * N):
        rng = vp.rng_for("c14h", str(c))
        q, t = points(rng, c["n"]), points(rng, c["n"], lim=30)
        if c["kind"] != "open":
            q[-1] = list(q[0])
        if c["kind"] == "cycle":
            t[-1] = list(t[0])
        out.append({"key": ckey("hermite", c), "ev": [{"op": "Hermite", "q": vp.hx(q), "t": vp.hx(t)}]})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
