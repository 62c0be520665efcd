"""C16: least-squares and error-bounded approximation."""
from .common import *
from .c15 import spread


def plan(tier):
    quick = tier == "quick"
    out = []
    st = {"generated": 0, "distinct": 0}
    N = 2 if quick else 6

    def take(fam, n, seeds=N):
        nonlocal st
        cs, s = cases(fam, seeds)
        st = add_stats(st, s)
        return stride(cs, n if quick else 8 * n, "c16" + fam)

    kinds = ["generic", "planar", "corner", "even", "line"]
    for c in take("lsq", 180):
        rng = vp.rng_for("c16", str(c))
        q = spread(rng, c["m"], kinds[(c["seed"] + c["m"]) % 5])
        if c["m"] % 7 == 0:
            q[-1] = list(q[0])
        out.append({"key": ckey("lsq", c), "ev": [{"op": "LeastSquares", "p": c["p"], "n": c["n"], "q": vp.hx(q)}]})
    for c in take("wlsq", 100):
        rng = vp.rng_for("c16w", str(c))
        q = spread(rng, c["m"], kinds[c["seed"] % 4])
        w = [rng.choice([0.5, 1.0, 1.0, 2.0, 4.0]) for _ in q]
        t, ti, tw, fs, fe = [], [], [], 0, 0
        L = sum(math.dist(a, b) for a, b in zip(q, q[1:]))
        if c["k"] in ("ends", "both"):
            w[0] = w[-1] = -1.0
            fs = fe = 1
        if c["k"] in ("tangents", "both"):
            for i in sorted(rng.sample(range(1, c["m"] - 1), 3)):
                d = [(b - a) for a, b in zip(q[i - 1], q[i + 1])]
                s = L / math.hypot(*d)
                t.append([v * s for v in d])
                ti.append(i)
                tw.append(rng.choice([0.25, 1.0]))
        if c["k"] == "both" and c["p"] > 1:
            t.insert(0, [L * 0.5, -L * 0.25, 0.0])
            ti.insert(0, 0)
            tw.insert(0, -1.0)
            fs = 2
        if len(t) > 1 and c["seed"] % 2:       # any order
            z = list(zip(t, ti, tw))
            rng.shuffle(z)
            t, ti, tw = (list(v) for v in zip(*z))
        out.append({"key": ckey("wlsq", c), "ev": [{"op": "WLeastSquares", "p": c["p"], "n": c["n"], "q": vp.hx(q), "w": vp.hx(w), "t": vp.hx(t), "ti": ti, "tw": vp.hx(tw), "fs": fs, "fe": fe}]})
    for c in take("err", 60):
        rng = vp.rng_for("c16e", str(c))
        q = spread(rng, c["m"], kinds[c["seed"] % 5])
        out.append({"key": ckey("err", c), "ev": [{"op": "ErrApprox", "p": c["p"], "q": vp.hx(q), "eps": vp.hexf(c["eps"] / 80)}]})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
