"""S02: shape-preserving surface operations, and their composition."""
import vp
from props.common import *

OPS = ["Insert", "Refine", "Elevate", "Reverse", "Swap", "Reparam"]


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}
    groups = [("one", dict(minp=1, maxp=4, depth=1, simulate=250 if quick else 4000, seed=31, caps=3), OPS),
              ("seq", dict(minp=1, maxp=3, depth=3, simulate=120 if quick else 1500, seed=32, caps=3, capp=5), OPS),
              ("red", dict(minp=1, maxp=4, depth=2, simulate=60 if quick else 600, seed=34, caps=2, capp=6), ["Elevate", "Reduce"]),
              ("hi", dict(minp=4, maxp=7, depth=1, simulate=40 if quick else 300, seed=33, caps=2), OPS)]
    def removable(s):
        # the multiplicity of the knot equals the degree and at most two copies go (what curve knot removal is good for: C05)
        Ks = [list(d["K"]) for d in s["shape"]]
        seen = False
        for h in s["hist"]:
            K, p = Ks[h["d"] - 1], s["shape"][h["d"] - 1]["p"]
            if h["op"] == "Insert":
                K += [h["u"]] * h["t"]
            elif h["op"] == "Remove":
                seen = True
                if K.count(h["u"]) != p or h["t"] > 2:
                    return False
                for _ in range(h["t"]):
                    K.remove(h["u"])
        return seen

    groups.append(("rem", dict(minp=1, maxp=3, depth=2, simulate=400 if quick else 4000, seed=36, caps=2), ["Insert", "Remove"]))
    i = 0
    for name, kw, ops in groups:
        scs, s1 = tensor(2, ops, **kw)
        st = add_stats(st, s1)
        if name == "rem":
            scs = stride([s for s in scs if removable(s)], 40 if quick else 400, "s02rem")
        for s in scs:
            i += 1
            v = tvars(i)
            style = SSTYLES[i % len(SSTYLES)]
            ev = tensor_history(s, v, vp.rng_for("s02", i), style)
            if name == "one":
                ev.append({"op": "SDecompose", "s": 1})
                ev.append({"op": "SReverse", "s": 1, "dir": i % 3})
            out.append({"key": f"{name} {tkey(s)} {thist_key(s)} {v[0]},{v[1]} {style}", "ev": ev})
    # both directions at once, and parameters already in place
    scs, s1 = tensor(2, [], minp=1, maxp=3, depth=0, simulate=60 if quick else 500, seed=35, caps=3)
    st = add_stats(st, s1)
    for k, s in enumerate(scs):
        v = tvars(k)
        rng = vp.rng_for("s02r", k)
        gs = [gridmap(v[j], d["K"][-1] // UNIT) for j, d in enumerate(s["shape"])]
        ev = [def_tensor([d["p"] for d in s["shape"]], [[g(x) for x in d["K"]] for d, g in zip(s["shape"], gs)], rng, SSTYLES[k % len(SSTYLES)])]
        (a, b), (c, d) = [(float(g(q["K"][0])), float(g(q["K"][-1]))) for g, q in zip(gs, s["shape"])]
        for (p, q, r, t) in ((0.0, 1.0, 0.0, 1.0), (a, b, -1.0, 2.5), (3.0, 3.5, c, d), (-2.0, 5.0, 10.0, 12.0)):
            ev.append({"op": "SReparam", "s": 1, "ulo": vp.hexf(p), "uhi": vp.hexf(q), "vlo": vp.hexf(r), "vhi": vp.hexf(t)})
        out.append({"key": f"reparam {tkey(s)} {v[0]},{v[1]}", "ev": ev})
        # more copies asked for than the degree admits
        ev = ev[:1]
        for j, (g, q) in enumerate(zip(gs, s["shape"])):
            K = q["K"]
            for x in {rng.randint(K[0] + 1, K[-1] - 1), rng.choice([y for y in K if K[0] < y < K[-1]] or [K[0] + 1])}:
                ev.append({"op": "SInsert", "s": 1, "isu": j == 0, "u": vp.hexf(float(g(x))), "t": q["p"] - min(q["p"], K.count(x)) + rng.randint(1, 2), "over": True})
        out.append({"key": f"over {tkey(s)} {v[0]},{v[1]}", "ev": ev})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
