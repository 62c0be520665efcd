"""M02: numbers, linear algebra, quadrature and transforms."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def fam(f, seeds=1, most=None):
        nonlocal st
        cs, s = cases(f, seeds)
        st = add_stats(st, s)
        return stride(cs, most, f) if most and quick else cs

    for c in fam("compare"):
        b = float(c["m"])
        t = c["t"] * 1e-7
        a = b + c["d"] / 100 * t * (1 + abs(b))
        vals = [(vp.hexf(a), vp.hexf(b))] if c["sp"] == "" else [(c["sp"], vp.hexf(b)), (vp.hexf(b), c["sp"]), (c["sp"], "inf")]
        out.append({"key": ckey("compare", c), "ev": [{"op": "Compare", "a": x, "b": y, "t": vp.hexf(t)} for x, y in vals]})
    for c in fam("numbers"):
        out.append({"key": ckey("numbers", c), "ev": [{"op": "Numbers", "n": c["n"], "t": vp.hexf(float(c["t"]))}]})
    # cubics with one real root, increasing or decreasing everywhere
    for i in range(60 if quick else 600):
        rng = vp.rng_for("m02c", i)
        r, s, q = rng.randint(-40, 40) / 8, rng.choice([1, -1, 2.5]), rng.randint(1, 40) / 8
        # s (t - r) (t^2 + q) is monotonic when r^2 < 3 q
        if r * r >= 3 * q:
            r = r / 16
        out.append({"key": f"cubic {i}", "ev": [{"op": "Cubic", "a": vp.hx([s, -s * r, s * q, -s * r * q])}]})
    # grids of control points, square or not
    for i in range(40 if quick else 300):
        rng = vp.rng_for("m02g", i)
        n, m, k, l = 1 + i % 4, 1 + (i // 4) % 5, 1 + (i // 7) % 4, 1 + (i // 3) % 4
        num = lambda r, c: [[rng.randint(-16, 16) / 8 for _ in range(c)] for _ in range(r)]
        P = [[[rng.randint(-40, 40) / 8 for _ in range(3)] + [rng.choice((1.0, 0.5, 3.0, -2.0))] for _ in range(m)] for _ in range(n)]
        out.append({"key": f"grid {n}x{m} {i}", "ev": [{"op": "CtrlGrid", "P": vp.hx(P), "a": vp.hx(num(k, n)), "b": vp.hx(num(m, l))}]})
    for c in fam("linear", 4 if quick else 25):
        rng = vp.rng_for("m02l", ckey("linear", c))
        n = c["n"]
        rows = n + 3 if c["k"] == "tall" else n
        A = [[rng.randint(-16, 16) / 8 for _ in range(n)] for _ in range(rows)]
        for i in range(rows):
            A[i][i % n] += rng.choice([5.0, -5.0])
        if c["k"] == "sparse":
            A = [[A[i][j] if i == j or rng.random() < 0.3 else 0.0 for j in range(n)] for i in range(n)]
        if c["k"] == "perm":
            rng.shuffle(A)
        if c["k"] == "scaled":
            A = [[x * 2.0 ** rng.randint(-4, 4) for x in r] for r in A]
        if c["k"] == "singular":
            if n == 1:
                A = [[0.0]]
            else:
                i, j = rng.sample(range(n), 2)
                A[i] = [2 * x for x in A[j]]
        B = [[rng.randint(-40, 40) / 8 for _ in range(c["m"])] for _ in range(rows)]
        C = [[rng.randint(-40, 40) / 8 for _ in range(c["m"])] for _ in range(n)]
        out.append({"key": ckey("linear", c), "ev": [{"op": "LinSolve", "a": vp.hx(A), "b": vp.hx(B)}, {"op": "LinMul", "a": vp.hx(A), "b": vp.hx(C)}]})
    for c in fam("banded", 2 if quick else 12):
        rng = vp.rng_for("m02b", ckey("banded", c))
        A = [[rng.randint(-8, 8) / 8 for _ in range(c["bw"])] for _ in range(c["n"])]
        for r in A:
            r[c["bw"] // 2] += rng.choice([8.0, -8.0])
        B = [[rng.randint(-40, 40) / 8 for _ in range(c["m"])] for _ in range(c["n"])]
        out.append({"key": ckey("banded", c), "ev": [{"op": "LinBand", "a": vp.hx(A), "b": vp.hx(B), "bw": c["bw"]}]})
    for c in fam("quad", 1 if quick else 6):
        rng = vp.rng_for("m02q", ckey("quad", c))
        a = [rng.randint(-40, 40) / 8 for _ in range(c["d"] + 1)]
        lo = c["lo"] / 8
        if abs(lo) > 10:
            a = a[:4]
        out.append({"key": ckey("quad", c), "ev": [{"op": "Quad1", "a": vp.hx(a), "lo": vp.hexf(lo), "hi": vp.hexf(lo + c["w"] / 8)}]})
    for c in fam("quad2", 1 if quick else 6):
        rng = vp.rng_for("m02r", ckey("quad2", c))
        a = [[rng.randint(-40, 40) / 8 for _ in range(c["f"] + 1)] for _ in range(c["d"] + 1)]
        lo = c["lo"] / 8
        out.append({"key": ckey("quad2", c), "ev": [{"op": "Quad2", "a": vp.hx(a), "box": vp.hx([lo, lo + c["w"] / 8, -lo, -lo + c["v"] / 8])}]})
    for c in fam("fft", 1 if quick else 5):
        rng = vp.rng_for("m02f", ckey("fft", c))
        n = c["n"]
        m = 2 * n if c["k"] == "cdft" else n + 1 if c["k"] == "dfct" else n
        a = {"generic": [rng.randint(-80, 80) / 8 for _ in range(m)],
             "pulse": [1.0 if j == rng.randint(0, m - 1) else 0.0 for j in range(m)],
             "wave": [math.cos(j * 2.1) for j in range(m)], "ones": [1.0] * m}[c["d"]]
        out.append({"key": ckey("fft", c), "ev": [{"op": "FFT", "k": c["k"], "s": c["s"], "n": n, "a": vp.hx(a)}]})
    return {"module": "TraceMath", "scenarios": out, "stats": st}
