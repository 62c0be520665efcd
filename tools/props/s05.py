"""S05: questions about a surface: nearest parameters, signed distance, area, closedness, oriented box."""
from .common import *


def normal_of(D, u, v, doms):
    """unit normal by differences (inside one span)"""
    (a, b), (c, d) = doms
    hu, hv = (b - a) * 1e-6, (d - c) * 1e-6
    su = [x - y for x, y in zip(point_of(D, [u + hu, v]), point_of(D, [u - hu, v]))]
    sv = [x - y for x, y in zip(point_of(D, [u, v + hv]), point_of(D, [u, v - hv]))]
    n = cross(su, sv)
    l = math.sqrt(sum(x * x for x in n))
    return [x / l for x in n]


def smooth(p, K):
    """twice differentiable over the whole domain"""
    return p >= 2 and all(K.count(x) <= p - 2 for x in set(K) if K[0] < x < K[-1])


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def surfs(n, seed, maxp=4, caps=3, minp=1):
        nonlocal st
        scs, s = tensor(2, [], minp=minp, maxp=maxp, depth=0, simulate=n if quick else 10 * n, seed=seed, caps=caps)
        st = add_stats(st, s)
        return scs

    def define(s, i, style):
        v = tvars(i)
        gs = [gridmap(v[j], d["K"][-1] // UNIT) for j, d in enumerate(s["shape"])]
        D = def_tensor([d["p"] for d in s["shape"]], [[g(x) for x in d["K"]] for d, g in zip(s["shape"], gs)], vp.rng_for("s05", i, style), style)
        return D, gs, f"{tkey(s)} {v[0]},{v[1]} {style}"

    # nearest parameters
    for i, s in enumerate(surfs(110, 51) + surfs(14, 54, minp=4, maxp=6, caps=2)):
        D, gs, key = define(s, i, ("sheet", "sheetrat", "tilt")[i % 3])
        rng = vp.rng_for("s05p", i)
        Ks = [d["K"] for d in s["shape"]]
        ev = [D]
        for _ in range(3):
            t = [float(g(rng.randint(K[0], K[-1]))) for g, K in zip(gs, Ks)]
            if _ == 2:
                # on an edge
                j = rng.randint(0, 1)
                t[j] = float(gs[j](rng.choice((Ks[j][0], Ks[j][-1]))))
                ev.append({"op": "SAllParams", "s": 1, "q": vp.hx(point_of(D, t)), "d": vp.hexf(0.0)})
            ev.append({"op": "SParam", "s": 1, "q": vp.hx(point_of(D, t)), "d": vp.hexf(0.0)})
        sm = all(smooth(d["p"], d["K"]) for d in s["shape"])
        for k in range(3):
            # inside a span
            x = [rng.randint(0, K[-1] // UNIT - 1) * UNIT + rng.randint(1, UNIT - 1) for K in Ks]
            t = [float(g(a)) for g, a in zip(gs, x)]
            X = point_of(D, t)
            ev.append({"op": "SAllParams", "s": 1, "q": vp.hx(X), "d": vp.hexf(0.0)})
            if sm:
                n = normal_of(D, t[0], t[1], [(float(g(a - 1)), float(g(a + 1))) for g, a in zip(gs, x)])
                d = rng.choice([0.05, -0.05, 0.2, -0.2, 0.01])
                q = [a + d * b for a, b in zip(X, n)]
                ev.append({"op": "SParam", "s": 1, "q": vp.hx(q), "d": vp.hexf(d)})
                ev.append({"op": "SSdf", "s": 1, "q": vp.hx(q), "d": vp.hexf(d)})
        out.append({"key": "param " + key, "ev": ev})
    # closed surfaces: tubes around an axis (the seam in either direction) and rings (closed both ways)
    C = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0)]
    CW = [1.0, math.sqrt(0.5)] * 4 + [1.0]
    CU = [0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4]
    for i in range(24 if quick else 160):
        rng = vp.rng_for("s05c", i)
        g = lambda x, a=(0.0, 0.0, -3.0, 1.5)[i % 4], b=(1.0, 0.25, 2.0, 0.5)[i % 4]: a + b * x
        U = [g(x) for x in CU]
        if i % 3 == 2:
            # ring: big radius R around z, small radius r; circle section in the other direction
            R, r = 3.0, 1.0
            P = [[[(R + r * b[0]) * a[0] * wa * wb, (R + r * b[0]) * a[1] * wa * wb, r * b[1] * wa * wb, wa * wb] for b, wb in zip(C, CW)] for a, wa in zip(C, CW)]
            pv, V, tube = 2, [x * 1.0 for x in CU], False
        else:
            h = [1.0 + rng.randint(0, 4) / 8 for _ in range(2)]
            P = [[[a[0] * h[k] * wa, a[1] * h[k] * wa, 2.0 * k * wa, wa] for k in range(2)] for a, wa in zip(C, CW)]
            pv, V, tube = 1, [0.0, 0.0, 1.0, 1.0], True
        swap = i % 2 == 1
        if swap:
            P = [[P[a][b] for a in range(len(P))] for b in range(len(P[0]))]
        D = {"op": "DefSurf", "s0": {"pu": pv if swap else 2, "pv": 2 if swap else pv, "U": vp.hx(V if swap else U), "V": vp.hx(U if swap else V), "P": vp.hx(P)}}
        ev = [D]
        for k in range(6):
            # mostly next to the seam
            x = (0.01, 3.996, 0.0, 2.37, 0.5, 3.6)[k] if k < 4 else rng.random() * 4
            y = (rng.choice([0.0, 0.4, 1.0, 0.83]) if tube else (3.997, 0.004, 1.3, 0.0, 2.2, 3.7)[k])
            a, b = g(x), y
            t = [b, a] if swap else [a, b]
            X = point_of(D, t)
            d = (0.0, 0.1, -0.1, 0.3, 0.02, -0.2)[(i + k) % 6]
            if tube:
                l = math.hypot(X[0], X[1])
                # the cone's normal
                sl = (h[1] - h[0]) / 2.0
                n = [X[0] / l, X[1] / l, -sl]
                m = math.sqrt(1 + sl * sl)
                n = [c / m for c in n]
            else:
                l = math.hypot(X[0], X[1])
                n = [X[0] - R * X[0] / l, X[1] - R * X[1] / l, X[2]]
                m = math.sqrt(sum(c * c for c in n))
                n = [c / m for c in n]
            q = [c + d * e for c, e in zip(X, n)]
            ev.append({"op": "SParam", "s": 1, "q": vp.hx(q), "d": vp.hexf(d)})
            if d == 0.0 or k == 3:
                ev.append({"op": "SAllParams", "s": 1, "q": vp.hx(X), "d": vp.hexf(0.0)})
        out.append({"key": f"closed {'tube' if tube else 'ring'} {i} {'swap' if swap else ''}", "ev": ev})
    # area
    for i, s in enumerate(surfs(60, 52, maxp=4, caps=2) + surfs(8, 55, minp=4, maxp=6, caps=2)):
        D, gs, key = define(s, i, ("sheet", "sheetrat", "tilt", "tiltrat")[i % 4])
        out.append({"key": "area " + key, "ev": [D] + [{"op": "SArea", "s": 1, "m": m} for m in (0, 1, 2)]})
    # boxes, closedness
    for i, s in enumerate(surfs(90, 53, caps=3) + surfs(12, 56, minp=4, maxp=7, caps=2)):
        D, gs, key = define(s, i, SSTYLES[i % len(SSTYLES)])
        P = D["s0"]["P"]
        how = ("open", "u", "v", "uv", "corners", "almost")[i % 6]
        m, n = len(P), len(P[0])
        if how in ("u", "uv"):
            P[-1] = [list(h) for h in P[0]]
        if how in ("v", "uv"):
            for r in P:
                r[-1] = list(r[0])
        if how == "corners":
            P[-1][0], P[-1][-1] = list(P[0][0]), list(P[0][-1])
        if how == "almost":
            P[-1] = [list(h) for h in P[0]]
            k = vp.rng_for("s05c", i).randint(0, n - 1)
            P[-1][k] = vp.hx([vp.unhex(P[-1][k])[0] + 1.0] + vp.unhex(P[-1][k])[1:])
        out.append({"key": f"box {how} " + key, "ev": [D, {"op": "SClosed", "s": 1}, {"op": "SOBB", "s": 1}]})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
