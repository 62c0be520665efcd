"""S06: tessellation and triangulation of surfaces."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def surfs(n, seed, maxp=4, caps=3):
        nonlocal st
        scs, s = tensor(2, [], minp=1, maxp=maxp, depth=0, simulate=n if quick else 10 * n, seed=seed, caps=caps)
        st = add_stats(st, s)
        return scs

    for i, s in enumerate(surfs(70, 61, caps=3) + surfs(16, 63, maxp=2, caps=6)):
        v = tvars(i)
        gs = [gridmap(v[j], d["K"][-1] // UNIT) for j, d in enumerate(s["shape"])]
        D = def_tensor([d["p"] for d in s["shape"]], [[g(x) for x in d["K"]] for d, g in zip(s["shape"], gs)], vp.rng_for("s06", i), SSTYLES[i % len(SSTYLES)])
        ev = [D, {"op": "SEqTess", "s": 1, "step": (173, 331, 997)[i % 3]}]
        for a, b in ((2, 2), (3, 5), (6, 2), (4, 4)) if i % 2 else ((7, 3), (2, 4)):
            ev.append({"op": "STri", "s": 1, "nu": a, "nv": b, "del": False})
        out.append({"key": f"grid {tkey(s)} {v[0]},{v[1]}", "ev": ev})
    # graphs: control points at the Greville abscissae, flat border
    for i, s in enumerate(surfs(24, 62, maxp=3, caps=2)):
        gs = [gridmap(("int", "unit", "neg")[i % 3], d["K"][-1] // UNIT) for d in s["shape"]]
        if any(d["p"] < 2 for d in s["shape"]):
            continue
        rng = vp.rng_for("s06d", i)
        ps = [d["p"] for d in s["shape"]]
        Us = [[float(g(x)) for x in d["K"]] for d, g in zip(s["shape"], gs)]
        G = [[sum(U[k + 1:k + p + 1]) / p for k in range(len(U) - p - 1)] for p, U in zip(ps, Us)]
        flat = i % 4 == 0
        P = [[[x, y, 0.0 if flat or a in (0, len(G[0]) - 1) or b in (0, len(G[1]) - 1) else rng.randint(-8, 8) / 16, 1.0] for b, y in enumerate(G[1])] for a, x in enumerate(G[0])]
        D = {"op": "DefSurf", "s0": {"pu": ps[0], "pv": ps[1], "U": vp.hx(Us[0]), "V": vp.hx(Us[1]), "P": vp.hx(P)}}
        a, b = rng.choice([(3, 3), (4, 4), (5, 3), (3, 5)])
        out.append({"key": f"delaunay {tkey(s)} {a}x{b} {'flat' if flat else ''}", "ev": [D, {"op": "STri", "s": 1, "nu": a, "nv": b, "del": True}]})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
