"""S03: surfaces made of points, axes and curves."""
from .common import *
from .c15 import spread


def plan(tier):
    quick = tier == "quick"
    out = []
    st = {"generated": 0, "distinct": 0}
    sh, s0 = shapes(1, 5, 4, offs="{3}")
    pool = [s for s in stride(by_shape(sh), 24, "s03") ]
    lg, s1 = longshapes(12, minp=1, maxp=5, spans=6, seed=23)
    st = add_stats(s0, s1)
    pool = (pool + lg)[:36]
    rng0 = vp.rng_for("s03pool")
    rng0.shuffle(pool)
    pool = pool[:24]

    def take(fam, n, seeds=2 if quick else 6):
        nonlocal st
        cs, s = cases(fam, seeds)
        st = add_stats(st, s)
        return [(c, vp.rng_for("s03", fam, str(c))) for c in stride(cs, n if quick else 8 * n, "s03" + fam)]

    def knots(i, v, lohi=None):
        p, K, spans, e, us = pool[(i - 1) % len(pool)]
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        if lohi:
            lo, hi = lohi
            a, b = U[0], U[-1]
            U = [lo if u == a else hi if u == b else lo + (hi - lo) * (u - a) / (b - a) for u in U]
        return p, U

    def deff(p, U, pts, rng, rat):
        ws = [rng.choice([0.75, 1.0, 1.25, 1.5, 2.0]) if rat else 1.0 for _ in pts]
        return {"op": "DefCurve", "c0": curve(p, U, pts, ws)}

    def some(i, rng, rat, v="int", lohi=None, kind="generic"):
        p, U = knots(i, v, lohi)
        return deff(p, U, spread(rng, len(U) - p - 1, kind), rng, rat)

    for c, rng in take("bilinear", 20, 6):
        P = points(rng, 4)
        if c["kind"] == "flat":
            P = [[a, b, 2.0] for a, b, _ in P]
        elif c["kind"] == "triangle":
            P[1] = list(P[0])
        elif c["kind"] == "far":
            P = [[1000 + x for x in q] for q in P]
        elif c["kind"] == "twisted":
            P[2], P[3] = [P[1][0], P[1][1], 9.0], [P[0][0], P[0][1], -9.0]
        out.append({"key": ckey("bilinear", c), "ev": [dict(zip(("tl", "tr", "bl", "br"), vp.hx(P)), op="Bilinear")]})
    for c, rng in take("cylinder", 60):
        x, y, o = frame_of(rng, c["frame"])
        a0 = math.radians(c["a0"])
        out.append({"key": ckey("cylinder", c), "ev": [{"op": "Cylinder", "o": vp.hx(o), "xa": vp.hx(x), "ya": vp.hx(y), "a0": vp.hexf(a0), "a1": vp.hexf(a0 + math.radians(c["sweep"])),
                                                        "rad": vp.hexf(c["r"] / 8), "h": vp.hexf(c["h"] / 8)}]})
    for c, rng in take("ruled", 60):
        v = anyvar(c["a"] + c["b"])
        A = some(c["a"], rng, c["k"] & 1, v)
        U = vp.unhex(A["c0"]["U"])
        B = some(c["b"], rng, c["k"] & 2, anyvar(c["b"]), (U[0], U[-1]))
        out.append({"key": ckey("ruled", c), "ev": [A, B, {"op": "Ruled", "c1": 1, "c2": 2}]})
    for c, rng in take("revolved", 90):
        x, y, o = frame_of(rng, c["frame"])
        z = cross(x, y)
        p, U = knots(c["a"], anyvar(c["sweep"]))
        n = len(U) - p - 1
        # profile in the half plane of x and the axis z
        loc = [[2.0 + rng.randint(0, 24) / 8, -1.0 + i * 1.25 + rng.randint(0, 4) / 8, rng.uniform(-1, 1) if c["k"] == "skew" else 0.0] for i in range(n)]
        if c["k"] == "touch":
            loc[0] = [0.0, loc[0][1], 0.0]
            if c["sweep"] % 2:
                loc[-1] = [0.0, loc[-1][1], 0.0]
        pts = [[o[k] + q[0] * x[k] + q[1] * z[k] + q[2] * y[k] for k in range(3)] for q in loc]
        D = deff(p, U, pts, rng, c["k"] in ("rat", "skew") or c["k"] == "touch" and c["a"] % 3)
        out.append({"key": ckey("revolved", c), "ev": [D, {"op": "Revolved", "o": vp.hx(o), "ax": vp.hx([t * c["len"] / 8 for t in z]), "rad": vp.hexf(math.radians(c["sweep"])), "c": 1}]})
    for c, rng in take("nuscale", 16):
        (pu, U), (pv, V) = knots(c["a"], "int"), knots(c["b"], "unit")
        D = def_tensor([pu, pv], [U, V], rng, SSTYLES[c["a"] % len(SSTYLES)])
        f = [t / 8 for t in c["f"]]
        out.append({"key": ckey("nuscale", c), "ev": [D, {"op": "NUScale", "s": 1, "fx": vp.hexf(f[0]), "fy": vp.hexf(f[1]), "fz": vp.hexf(f[2]), "o": vp.hx(points(rng, 1)[0] if rng.random() < 0.7 else [0.0, 0.0, 0.0])}]})
    for c, rng in take("sweep", 40):
        A = some(c["a"], rng, c["k"], anyvar(c["a"]))
        B = some(c["b"], rng, c["k"], anyvar(c["b"] + 1))
        out.append({"key": ckey("sweep", c), "ev": [A, B, {"op": "TransSweep", "c1": 1, "c2": 2}]})
    for c, rng in take("loft", 110):
        ev = []
        q0 = c["q"]
        n = max(2, q0 + 1 + c["n"])
        k = c["k"]
        for i in range(n):
            idx = c["a"] + (i * 5 if k in ("degrees", "knots", "all") else 0)
            if k == "knots":
                # same degree, other knots
                p0 = pool[(c["a"] - 1) % len(pool)][0]
                same = [j + 1 for j, s in enumerate(pool) if s[0] == p0]
                idx = same[(i * 3 + 1) % len(same)]
            p, U = knots(idx, "int", (0.0, 1.0))
            m = len(U) - p - 1
            prof = [[2.0 * t / max(1, m - 1) * 3, rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5)] for t in range(m)]
            pts = [[a[0], a[1] + 0.3 * math.sin(i), a[2] + 1.5 * i + 0.25 * (i % 2)] for a in prof]
            # weights that vary along and across the sections, gently enough to stay positive between them
            ws = [(1 + (0.08 * math.sin(4 * t / max(1, m - 1)) if k == "all" else 0.25 * math.sin(1.7 * t + c["a"]))) * (1 + 0.06 * i) if k in ("rat", "all") else 1.0 for t in range(m)]
            ev.append({"op": "DefCurve", "c0": curve(p, U, pts, ws)})
        pm = max(d["c0"]["p"] for d in ev)
        e = {"op": "Loft", "cs": list(range(1, n + 1))}
        if c["kv"]:
            g = [0.0]
            for _ in range(n - 1):
                g.append(g[-1] + rng.choice([2, 3, 4]))
            e["kv"] = vp.hx([t / g[-1] for t in g])
            e["q"] = q0
        elif n <= pm:
            continue
        ev.append(e)
        out.append({"key": ckey("loft", c), "ev": ev})
    for c, rng in take("gordon", 60):
        m, n = c["pv"] + 1 + c["m"], c["pu"] + 1 + c["n"]      # curves along u: m, along v: n
        a = [[1.5 * j + rng.randint(-2, 2) / 8, rng.randint(-4, 4) / 8, rng.randint(-8, 8) / 8] for j in range(n)]
        b = [[rng.randint(-4, 4) / 8, 1.25 * i + rng.randint(-2, 2) / 8, rng.randint(-8, 8) / 8] for i in range(m)]
        Q = [[[a[j][k] + b[i][k] for k in range(3)] for j in range(n)] for i in range(m)]
        ev = []
        # the network curves are interpolated by the library itself (their exactness is C15's) and defined by what it returns
        for i in range(m):
            ev.append({"op": "Interp", "p": c["pu"] - (1 if c["k"] == "degrees" and c["pu"] > 1 and i % 2 else 0), "q": vp.hx(Q[i])})
        for j in range(n):
            ev.append({"op": "Interp", "p": c["pv"], "q": vp.hx([Q[i][j] for i in range(m)])})
        if c["k"] == "moved":
            for i in range(m):
                ev.append({"op": "Reparam", "c": i + 1, "lo": vp.hexf(-1.0), "hi": vp.hexf(2.5)})
            cu = list(range(m + n + 1, m + n + m + 1))
        else:
            cu = list(range(1, m + 1))
        cv = list(range(m + 1, m + n + 1))
        if c["k"] in ("raised", "vraised"):
            # some or all curves of one direction have a higher degree, also above the number of the others
            L = cu if c["k"] == "raised" else cv
            for i in range(len(L)):
                if c["m"] % 2 or i % 2:
                    ev.append({"op": "Elevate", "c": L[i], "t": 1 + c["n"] % 2})
                    L[i] = len(ev)
        elif c["k"] == "knots":
            for L in (cu, cv):
                for i in range(len(L)):
                    if rng.random() < 0.6:
                        ev.append({"op": "InsertKnot", "c": L[i], "u": vp.hexf(rng.choice((0.25, 0.375, 0.71875))), "t": 1})
                        L[i] = len(ev)
        ev.append({"op": "Gordon", "cu": cu, "cv": cv, "q": vp.hx(Q)})
        out.append({"key": ckey("gordon", c), "ev": ev})
    for c, rng in take("coons", 60):
        P = [[0.0, 0.0, 1.0], [6.0, 0.5, 0.0], [6.5, 5.0, 0.5], [-0.5, 4.5, 2.0]]      # bottom left, bottom right, top right, top left
        ends = [(3, 0), (0, 1), (1, 2), (2, 3)]
        ids = [c["a"], c["b"], c["a"] + 7 * (c["k"] % 2), c["b"] + 5 * (c["k"] // 2)]
        ev = []
        for (s, t), i in zip(ends, ids):
            p, U = knots(i, anyvar(i), (0.0, 1.0))
            m = len(U) - p - 1
            pts = [[P[s][k] + (P[t][k] - P[s][k]) * r / (m - 1) + (rng.uniform(-0.5, 0.5) if 0 < r < m - 1 else 0.0) for k in range(3)] for r in range(m)]
            pts[-1] = list(P[t])
            ev.append({"op": "DefCurve", "c0": curve(p, U, pts, [1.0] * m)})
        ev.append({"op": "Coons", "c1": 1, "c2": 2, "c3": 3, "c4": 4})
        out.append({"key": ckey("coons", c), "ev": ev})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
