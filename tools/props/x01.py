"""Curves through the C interface."""
from .common import *
from .viac import through_c

CAPI = True
SOURCES = {"c01": 12, "c02": 12, "c03": 10, "c05": 20, "c06": 25, "c07": 25, "c08": 20, "c09": 15, "c10": 2, "c11": 20, "c12": 15, "c13": 15,
           "c14": 20, "c15": 20, "c16": 20, "c17": 10, "c18": 20, "c20": 40}


def plan(tier):
    r = through_c(SOURCES, tier)
    r["scenarios"] += both_ways(tier)
    return r


def both_ways(tier):
    """functions whose yardstick is the library's own answer"""
    out = []
    sh, _ = longshapes(60 if tier == "quick" else 400, spans=5, seed=77)
    for i, (p, K, spans, e, us) in enumerate(sh):
        g = gridmap(VARIANTS[i % 5], spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("x01b", i)
        ev = [styled_curve(p, U, rng, ("poly", "rat", "planar")[i % 3])]
        ev.append({"op": "CSame", "f": "Offset", "c": 1, "d": vp.hexf(rng.choice((-0.5, 0.25, 1.0))), "ty": 0})
        ev.append({"op": "CSame", "f": "Excessive", "c": 1})
        for k in range(p + 1, len(U) - p - 1):
            if U[k] < U[k + 1]:
                ev.append({"op": "CSame", "f": "Bound", "c": 1, "i": k})
        ev += [{"op": "CSame", "f": "Room", "c": 1, "n": n} for n in (0, 1, 2, 3)]
        lo, hi = U[0], U[-1]
        ev += [{"op": "CSame", "f": "Chain", "c": 1, "u": vp.hexf(lo + (hi - lo) * t)} for t in (0.1875, 0.7)]
        ts = [U[0] + (U[-1] - U[0]) * t / 12 for t in range(13)]
        for d in (0.0001, 0.001):          # nothing is removed (see C05)
            ev.append({"op": "CSame", "f": "ByBound", "c": 1, "us": vp.hx(ts), "d": vp.hexf(d)})
        out.append({"key": f"both {kkey(p, K)} {i}", "ev": ev, "module": "TraceCurve"})
    # both kinds of offset, a gently bent plane curve
    for i in range(8):
        h = 0.5 + i / 4
        c = curve(2, [0.0] * 3 + [1.0] * 3, [[0.0, 0.0, 0.0], [2.0, h, 0.0], [4.0, 0.0, 0.0]], [1.0] * 3)
        ev = [{"op": "DefCurve", "c0": c}]
        ev += [{"op": "CSame", "f": "Offset", "c": 1, "d": vp.hexf(d), "ty": ty} for d in (0.25, -0.125) for ty in (0, 1)]
        out.append({"key": f"both offset {i}", "ev": ev, "module": "TraceCurve"})
    for i in range(40):
        rng = vp.rng_for("x01w", i)
        pt = lambda: vp.hx([rng.randint(-16, 16) / 4 for _ in range(3)])
        out.append({"key": f"both weight3 {i}", "ev": [{"op": "CSame", "f": "Weight3", "a": pt(), "b": pt(), "q": pt()} for _ in range(6)], "module": "TraceCurve"})
        p, n = 1 + i % 4, 6 + i % 3
        m = n + 4 + i % 5
        P = [[j + rng.random() / 2, rng.random() * 3, rng.random()] for j in range(m)]
        out.append({"key": f"both weighted {i}", "ev": [{"op": "CSame", "f": "Weighted", "p": p, "n": n, "P": vp.hx(P), "W": vp.hx([1.0] * m), "T": vp.hx([[1.0, 0.5, 0.0]]),
                                                        "I": [0], "V": vp.hx([-1.0])}], "module": "TraceCurve"})
    return out
