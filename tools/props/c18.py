"""C18: curve extension and shape modification."""
import json
from .common import *
from .c15 import spread


def influence(d, u):
    """rational basis functions at u"""
    c = json.loads(json.dumps(d))
    P = c["c0"]["P"]
    ws = [float.fromhex(q[3]) for q in P]
    res = []
    for i in range(len(P)):
        c["c0"]["P"] = [vp.hx([w if k == i else 0.0, 0.0, 0.0, w]) for k, w in enumerate(ws)]
        res.append(point_of(c, [u])[0])
    return res


def plan(tier):
    quick = tier == "quick"
    out = []
    sh, st = shapes(1, 5, 3, offs="{3, 5}")
    lg, st2 = longshapes(60 if quick else 500, minp=1, maxp=7, spans=9, seed=18)
    st = add_stats(st, st2)
    todo = stride(by_shape(sh), 110 if quick else 900, "c18") + lg
    kinds = ("generic", "planar", "rat", "rat", "even", "corner")
    for i, (p, K, spans, e, us) in enumerate(todo):
        v = anyvar(i)
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("c18", i)
        kind = kinds[i % len(kinds)]
        n = len(U) - p - 1
        pts = spread(rng, n, kind)
        ws = [rng.choice([0.5, 0.75, 1.0, 1.5, 2.0]) for _ in pts] if kind == "rat" else [1.0] * n
        D = {"op": "DefCurve", "c0": curve(p, U, pts, ws)}
        ev = [D]
        ins = [float(g(s * UNIT + k)) for s in range(spans) for k in (1, 3, 4, 6)]
        for u in rng.sample(ins, min(len(ins), 3)) + [U[0]] * (i % 7 == 0):
            inf = influence(D, u)
            good = [k for k in range(n) if inf[k] > 0.02]
            none = [k for k in range(n) if inf[k] == 0.0]
            k = rng.choice(good)
            dr = [rng.uniform(-1, 1) for _ in range(3)]
            ev.append({"op": "Reposition", "c": 1, "u": vp.hexf(u), "i": k, "dir": vp.hx(dr), "d": vp.hexf(rng.choice([0.25, 1.5, 4.0, -0.5]))})
            if none:
                ev.append({"op": "Reposition", "c": 1, "u": vp.hexf(u), "i": rng.choice(none), "dir": vp.hx(dr), "d": vp.hexf(1.0)})
            X = point_of(D, [u])
            good2 = [k for k in good if inf[k] < 0.98 and math.dist(X, pts[k]) > 0.05]
            if good2:
                k = rng.choice(good2)
                ev.append({"op": "WeightMod", "c": 1, "u": vp.hexf(u), "i": k, "d": vp.hexf(math.dist(X, pts[k]) * rng.choice([0.1, 0.5, 0.75, -0.25]))})
            legs = [k for k in range(n - 1) if inf[k] > 0.03 and inf[k + 1] > 0.03 and inf[k] + inf[k + 1] < 0.95]
            if legs:
                k = rng.choice(legs)
                Z = json.loads(json.dumps(D))
                for j in (k, k + 1):
                    Z["c0"]["P"][j] = vp.hx([0.0] * 4)
                Y = point_of(Z, [u])
                rp = math.dist(X, Y)
                s = inf[k] + inf[k + 1]
                if rp > 0.05:
                    # the leg, the curve point and Y span a plane only if they are not on one line
                    a, b = [x - y for x, y in zip(pts[k], Y)], [x - y for x, y in zip(pts[k + 1], Y)]
                    ar = math.hypot(*cross(a, b))
                    if ar > 0.05:
                        d = rng.choice([0.3 * (rp / s - rp), 0.6 * (rp / s - rp), -0.3 * rp])
                        ev.append({"op": "NeighborMod", "c": 1, "u": vp.hexf(u), "i": k, "d": vp.hexf(d), "sc": vp.hexf(1.0)})
        lo, hi = sorted(rng.sample(us, 2)) if len(us) > 1 else (us[0], us[-1])
        lo, hi = float(g(lo)), float(g(hi))
        if hi - lo < 1e-3:
            lo, hi = U[0], U[-1]
        if any(abs((lo + hi) / 2 - x) < 1e-6 for x in U):     # the tangent in the middle may jump at a knot
            lo = lo + (hi - lo) / 16
        nrm = [0.0, 0.0, 1.0] if kind == "planar" else [0.125, -0.25, 1.0]
        ev.append({"op": "Warp", "c": 1, "f": vp.hx([rng.randint(0, 8) / 4 for _ in pts]), "d": vp.hexf(rng.choice([0.5, 2.0, -1.25])), "nrm": vp.hx(nrm), "lo": vp.hexf(lo), "hi": vp.hexf(hi)})
        a, b = [-3.0, rng.uniform(-2, 2), -1.0], [6.0, 5.0, rng.uniform(-1, 2)]
        for (x, y) in ((lo, hi), (U[0], U[-1])):
            ev.append({"op": "Flatten", "c": 1, "a": vp.hx(a), "b": vp.hx(b), "lo": vp.hexf(x), "hi": vp.hexf(y)})
            ev.append({"op": "Bend", "c": 1, "lo": vp.hexf(x), "hi": vp.hexf(y), "o": vp.hx([20.25, -17.0, 3.0]), "rad": vp.hexf(rng.choice([4.0, 15.0])), "cr": vp.hexf(rng.choice([0.5, 1.0, 2.0, 3.0]))})
        if kind != "rat" and p >= 2:
            u1, u2 = rng.sample(ins, 2) if len(ins) > 1 else (ins[0], ins[0])
            cons = [(0, 0)] if i % 3 == 0 or n < 6 else [(0, 0), (0, 1)] if i % 3 == 1 else [(0, 0), (1, 0)]
            inf = influence(D, u1)
            order = sorted(range(n), key=lambda k: inf[k])
            fix = []
            if len(cons) == 1 and i % 2 == 0:
                fix = [order[-2]]
            # derivatives scale with the parametrization
            T = [[rng.uniform(-1, 1) / (1.0 if k == 0 else (U[-1] - U[0])) for _ in range(3)] for _, k in cons]
            if len(cons) == 1 or abs(u1 - u2) > 0.05 * (U[-1] - U[0]) or cons[1][1] == 1:
                ev.append({"op": "Constrain", "c": 1, "us": vp.hx([u1, u2]), "D": vp.hx(T), "Dr": [r for r, _ in cons], "Dk": [k for _, k in cons], "fix": fix})
        for stt in (True, False):
            for ty in (0, 1, 2):
                if (ty == 1 and p < 2) or (ty == 2 and kind == "rat"):
                    continue
                ev.append({"op": "Extend", "c": 1, "d": vp.hexf(rng.choice([0.25, 1.0])), "st": stt, "ty": ty})
        out.append({"key": f"modify {kkey(p, K)} {v} {kind}", "ev": ev})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
