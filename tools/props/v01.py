"""V01: volumes."""
import json
import vp
from props.common import *

OPS = ["Insert", "Refine", "Elevate", "Reverse", "Swap", "Split"]
VSTYLES = ("blockrat", "rat", "poly", "wide", "block", "dup", "large")


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}
    groups = [("one", dict(minp=1, maxp=3, depth=1, simulate=140 if quick else 2000, seed=41, caps=2), OPS),
              ("seq", dict(minp=1, maxp=2, depth=3, simulate=40 if quick else 600, seed=42, caps=2, capp=4), OPS),
              ("hi", dict(minp=2, maxp=7, depth=1, simulate=14 if quick else 150, seed=43, caps=2, capp=8), OPS),
              ("at", dict(minp=1, maxp=4, depth=0, simulate=70 if quick else 1000, seed=44, caps=3), []),
              ("at", dict(minp=4, maxp=7, depth=0, simulate=8 if quick else 100, seed=46, caps=2), [])]
    i = 0
    for name, kw, ops in groups:
        scs, s1 = tensor(3, ops, **kw)
        st = add_stats(st, s1)
        for s in scs:
            i += 1
            v = tvars(i)
            style = VSTYLES[i % len(VSTYLES)]
            rng = vp.rng_for("v01", i)
            ev = tensor_history(s, v, rng, style)
            if name == "at":
                gs = [gridmap(v[k], d["K"][-1] // UNIT) for k, d in enumerate(s["shape"])]
                for k in range(3):
                    at = {n: vp.hexf(tparams(rng, d["K"], g, 1)[0]) for n, d, g in zip(("u", "q", "w"), s["shape"], gs)}
                    ev.append(dict(at, op="VEval", v=1))
                    ev.append(dict(at, op="VDers", v=1, d=rng.randint(1, 2 if k else 3)))
                for k in range(3):
                    ev.append({"op": "VExtract", "v": 1, "dir": k, "u": vp.hexf(tparams(rng, s["shape"][k]["K"], gs[k], 1)[0])})
                    at = {n: vp.hexf(tparams(rng, d["K"], g, 1)[0]) for n, d, g in zip(("u", "q", "w"), s["shape"], gs)}
                    at[("u", "q", "w")[k]] = vp.hexf(-1.0)
                    # -1 marks the free direction: the fixed parameters must differ from it
                    if all(abs(float.fromhex(x) + 1) > 1e-3 for n, x in at.items() if n != ("u", "q", "w")[k]):
                        ev.append(dict(at, op="VIso", v=1, free=k))
            out.append({"key": f"{name} {tkey(s)} {thist_key(s)} {v[0]},{v[1]},{v[2]} {style}", "ev": ev})
    # point inversion in sheared, large blocks
    scs, s1 = tensor(3, [], minp=1, maxp=3, depth=0, simulate=10 if quick else 120, seed=46, caps=3)
    st = add_stats(st, s1)
    for i, s in enumerate(scs):
        v = tvars(i)
        rng = vp.rng_for("v01q", i)
        gs = [gridmap(v[k], d["K"][-1] // UNIT) for k, d in enumerate(s["shape"])]
        style = ("blockrat", "block")[i % 2]
        ks = [[float(g(x)) for x in d["K"]] for d, g in zip(s["shape"], gs)]
        d = def_tensor([d["p"] for d in s["shape"]], ks, rng, style)
        k, a, b, sc = i % 3, rng.uniform(0.8, 1.6) * rng.choice((-1, 1)), rng.uniform(0.8, 1.6) * rng.choice((-1, 1)), rng.choice((1.0, 10.0, 30.0))
        for r in d["v0"]["P"]:
            for c in r:
                for h in c:
                    x = [float.fromhex(t) for t in h]
                    x[k] += a * x[(k + 1) % 3] + b * x[(k + 2) % 3]
                    x[(k + 1) % 3] += b * x[(k + 2) % 3]
                    h[:] = vp.hx([sc * t for t in x[:3]] + [x[3]])
        ev = [d]
        for _ in range(3):
            us = [rng.choice((U[0], U[-1])) if rng.random() < 0.2 else rng.uniform(U[0], U[-1]) for U in ks]
            ev.append({"op": "VParam", "v": 1, "q": vp.hx(point_of(d, us))})
        out.append({"key": f"sheared {tkey(s)} {v[0]},{v[1]},{v[2]} {style}", "ev": ev})
    # closedness and point inversion
    scs, s1 = tensor(3, [], minp=1, maxp=2, depth=0, simulate=24 if quick else 200, seed=45, caps=2)
    st = add_stats(st, s1)
    for i, s in enumerate(scs):
        v = tvars(i)
        rng = vp.rng_for("v01p", i)
        gs = [gridmap(v[k], d["K"][-1] // UNIT) for k, d in enumerate(s["shape"])]
        style = ("block", "blockrat")[i % 2]
        ks = [[float(g(x)) for x in d["K"]] for d, g in zip(s["shape"], gs)]
        d = def_tensor([d["p"] for d in s["shape"]], ks, rng, style)
        ev = [d] + [{"op": "VClosed", "v": 1, "dir": k, "expect": False} for k in range(3)]
        if i % 2 == 0 or not quick:
            for k in range(2):
                us = [rng.choice((U[0], U[-1])) if rng.random() < 0.3 else rng.uniform(U[0], U[-1]) for U in ks]
                ev.append({"op": "VParam", "v": 1, "q": vp.hx(point_of(d, us))})
        # closed in direction k: last layer equals the first
        k = i % 3
        c = json.loads(json.dumps(d))
        P = c["v0"]["P"]
        nu, nv, nw = len(P), len(P[0]), len(P[0][0])
        if (nu, nv, nw)[k] > 2:
            if k == 0:
                P[-1] = P[0]
            elif k == 1:
                for r in P:
                    r[-1] = r[0]
            else:
                for r in P:
                    for q in r:
                        q[-1] = q[0]
            ev.append(c)
            n = len(ev)
            ev += [{"op": "VClosed", "v": n, "dir": a, "expect": a == k} for a in range(3)]
            # one corner off: not closed
            c2 = json.loads(json.dumps(c))
            a, b = rng.randrange((nv, nu, nu)[k]), rng.randrange((nw, nw, nv)[k])
            h = c2["v0"]["P"][-1][a][b] if k == 0 else c2["v0"]["P"][a][-1][b] if k == 1 else c2["v0"]["P"][a][b][-1]
            x = float.fromhex(h[0]) + float.fromhex(h[3]) * 0.01
            h[0] = vp.hexf(x)
            ev.append(c2)
            ev.append({"op": "VClosed", "v": len(ev), "dir": k, "expect": False})
        out.append({"key": f"param {tkey(s)} {v[0]},{v[1]},{v[2]} {style}", "ev": ev})
    return {"module": "TraceVolume", "scenarios": out, "stats": st}
