"""S01: surface evaluation, derivatives, normal, curvature, iso curves, tangent directions."""
import vp
from props.common import *


def plan(tier):
    quick = tier == "quick"
    scs, st = tensor(2, [], minp=1, maxp=2, spans=2, depth=0)
    rnd, st2 = tensor(2, [], minp=1, maxp=5, depth=0, simulate=200 if quick else 2500, seed=21, caps=4)
    hi, st3 = tensor(2, [], minp=4, maxp=7, depth=0, simulate=25 if quick else 300, seed=22, caps=2)
    st = add_stats(add_stats(st, st2), st3)
    out = []
    for i, s in enumerate(scs + rnd + hi):
        rng = vp.rng_for("s01", i)
        style = SSTYLES[i % len(SSTYLES)]
        v = tvars(i)
        ps = [d["p"] for d in s["shape"]]
        gs = [gridmap(v[k], d["K"][-1] // UNIT) for k, d in enumerate(s["shape"])]
        ev = [def_tensor(ps, [[g(x) for x in d["K"]] for d, g in zip(s["shape"], gs)], rng, style)]
        for k in range(3):
            u = tparams(rng, s["shape"][0]["K"], gs[0], 1)[0]
            w = tparams(rng, s["shape"][1]["K"], gs[1], 1)[0]
            if rng.random() < 0.15:
                U = [float(gs[0](x)) for x in s["shape"][0]["K"]]
                u = near(u, U[0], U[-1], rng.randint(0, 7))
            at = {"u": vp.hexf(u), "v": vp.hexf(w), "s": 1}
            ev.append(dict(at, op="SEval"))
            d = rng.randint(1, max(ps) + 1) if k == 0 else rng.randint(1, 3)
            ev.append(dict(at, op="SDers", d=min(d, 5)))
            ev.append(dict(at, op="SGeom"))
        ev.append({"op": "SIso", "s": 1, "isu": True, "w": vp.hexf(tparams(rng, s["shape"][1]["K"], gs[1], 1)[0])})
        ev.append({"op": "SIso", "s": 1, "isu": False, "w": vp.hexf(tparams(rng, s["shape"][0]["K"], gs[0], 1)[0])})
        out.append({"key": f"{tkey(s)} {v[0]},{v[1]} {style}", "ev": ev})
    for i, s in enumerate(stride(rnd, 40 if quick else 400, "t")):
        rng = vp.rng_for("s01t", i)
        v = tvars(i)
        style = ("tilt", "tiltrat")[i % 2]
        gs = [gridmap(v[k], d["K"][-1] // UNIT) for k, d in enumerate(s["shape"])]
        ev = [def_tensor([d["p"] for d in s["shape"]], [[g(x) for x in d["K"]] for d, g in zip(s["shape"], gs)], rng, style)]
        for _ in range(3):
            a, b = rng.choice([(1.0, 0.0), (0.0, 1.0), (0.5, -2.0), (-3.0, 0.25), (1.5, 1.5)])
            # inside spans: the surface is regular there
            u, w = [float(g(rng.randrange(d["K"][-1] // UNIT) * UNIT + rng.randint(1, 7))) for g, d in zip(gs, s["shape"])]
            ev.append({"op": "SUVTangent", "s": 1, "u": vp.hexf(u), "v": vp.hexf(w), "t": vp.hx([a, b, a / 2 - b / 4])})
        out.append({"key": f"tangent {tkey(s)} {v[0]},{v[1]} {style}", "ev": ev})
    for i in range(60 if quick else 400):
        rng = vp.rng_for("s01b", i)
        pu, pv = rng.randint(1, 7), rng.randint(1, 7)
        if quick and pu * pv > 24:
            pu, pv = pu % 4 + 1, pv % 4 + 1
        ev = [def_tensor([pu, pv], [[0] * (pu + 1) + [1] * (pu + 1), [0] * (pv + 1) + [1] * (pv + 1)], rng, SSTYLES[i % len(SSTYLES)])]
        for _ in range(3):
            ev.append({"op": "SBezEval", "s": 1, "u": vp.hexf(rng.choice([0.0, 1.0, rng.random(), 0.5])), "v": vp.hexf(rng.choice([0.0, 1.0, rng.random(), 0.25]))})
        out.append({"key": f"bezier {pu}x{pv} #{i}", "ev": ev})
    return {"module": "TraceSurface", "scenarios": out, "stats": st}
