"""Surfaces through the C interface."""
from .common import *
from .viac import through_c

CAPI = True
SOURCES = {"s01": 20, "s02": 12, "s03": 8, "s04": 20, "s05": 15, "s06": 15, "s07": 12}


def plan(tier):
    r = through_c(SOURCES, tier)
    # functions whose yardstick is the library's own answer
    for i in range(30 if tier == "quick" else 200):
        rng = vp.rng_for("x02b", i)
        ev = []
        for _ in range(2):
            p = 1 + (i + _) % 3
            n = p + 1 + (i // 3 + _) % 3
            U = [0.0] * (p + 1) + [(k + 1) / (n - p) for k in range(n - p - 1)] + [1.0] * (p + 1)
            ev.append(styled_curve(p, U, rng, ("rat", "poly", "planar")[(i + _) % 3]))
        ev.append({"op": "CSame", "f": "Swung", "c": 1, "c2": 2, "d": vp.hexf(rng.choice((0.5, 1.0, 2.0)))})
        r["scenarios"].append({"key": f"both swung {i}", "ev": ev, "module": "TraceCurve"})
        deg = [1 + i % 3, 1 + (i // 3) % 3]
        kn = [[0.0] * (q + 1) + [0.25 * (k + 1) for k in range((i + j) % 3)] + [1.0] * (q + 1) for j, q in enumerate(deg)]
        ev = [def_tensor(deg, kn, rng, "rat")]
        ev += [{"op": "CSame", "f": "SChain", "s": 1, "dir": d} for d in (0, 1, 2)]
        ev.append({"op": "CSame", "f": "GSA", "s": 1, "q": vp.hx([rng.randint(-8, 8) / 2 for _ in range(3)])})
        r["scenarios"].append({"key": f"both chain {i}", "ev": ev, "module": "TraceSurface"})
        R, z = rng.choice((1.0, 2.0, 5.0)), rng.choice((0.0, -0.5, 0.75))
        t = rng.uniform(0, 6)
        Q = [[R * math.cos(t), R * math.sin(t), z], [R * (math.cos(t) - math.sin(t)), R * (math.sin(t) + math.cos(t)), z], [-R * math.sin(t), R * math.cos(t), z]]
        arc = {"op": "DefCurve", "c0": curve(2, [0.0] * 3 + [1.0] * 3, Q, [1.0, math.sqrt(0.5), 1.0])}
        r["scenarios"].append({"key": f"both fillet {i}", "ev": [arc, {"op": "CSame", "f": "Fillet", "c": 1}], "module": "TraceCurve"})
    return r
