"""M01: vectors, homogeneous points and transformation matrices."""
import math
from .common import *


def unit(rng):
    while True:
        v = [rng.uniform(-1, 1) for _ in range(3)]
        if 0.1 < sum(x * x for x in v) <= 1:
            return v


def make(rng, k, t):
    """the event that makes a matrix of kind k, angle t (degrees)"""
    rad = math.radians(t)
    a = [x * rng.choice([0.25, 1.0, 8.0]) for x in unit(rng)]
    if rng.random() < 0.3:
        a = [0.0, 0.0, 0.0]
        a[rng.randint(0, 2)] = rng.choice([1.0, -1.0, 2.5])
    e = {"op": "MatMake", "k": k, "a": vp.hx(a), "o": vp.hx([rng.randint(-80, 80) / 8 for _ in range(3)]), "t": vp.hexf(rad), "g": []}
    if k == "translation" and rng.random() < 0.2:
        # entries that cancel
        e["a"] = vp.hx([3.0, -3.0, 0.0])
    if k == "scale":
        e["a"] = vp.hx([rng.choice([0.5, 1.0, 2.0, -1.0, -3.0, 4.0]) for _ in range(3)])
    if k == "reflectionAt":
        e["t"] = vp.hexf(rng.choice([0.0, 1.0, -2.5, 4.25]))
    if k in ("basis", "setters"):
        e["g"] = vp.hx([[rng.randint(-16, 16) / 8 for _ in range(3)] for _ in range(4)])
    if k in ("elements", "each", "projective", "singular", "shear", "antisym"):
        M = [[rng.randint(-16, 16) / 8 for _ in range(4)] for _ in range(4)]
        for i in range(4):
            M[i][i] += rng.choice([4.0, -4.0]) if k != "singular" else 0.0
        if k in ("elements", "each"):
            M[3] = [0.0, 0.0, 0.0, 1.0]
        if k == "singular":
            i, j = rng.sample(range(4), 2)
            M[i] = [x * 2 for x in M[j]]
        if k in ("shear", "antisym"):
            M = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
            i, j = rng.sample(range(3), 2)
            M[i][j] = 0.75
            if k == "antisym":
                # off-diagonal entries that add up to zero
                M[j][i] = -0.75
        e["k"] = "elements" if k != "each" else "each"
        e["g"] = vp.hx(M)
    return e


def plan(tier):
    quick = tier == "quick"
    out = []
    cs, st = cases("matrix", 1 if quick else 4)
    if quick:
        cs = stride(cs, 1400, "m01")
    else:
        cs = stride(cs, 14000, "m01")
    for i, c in enumerate(cs):
        rng = vp.rng_for("m01", ckey("matrix", c))
        ev = [make(rng, c["a"], c["t"]), make(rng, c["b"], c["t"])]

        def ask(n):
            ev.append({"op": "MatAsk", "a": n})
            for _ in range(2):
                q = [rng.randint(-80, 80) / 8 for _ in range(3)]
                ev.append({"op": "MatApply", "a": n, "q": vp.hx(q), "w": vp.hexf(rng.choice([1.0, 0.5, 3.0]))})
        ask(1)
        ask(2)
        sing = c["a"] == "singular"

        def do(op, **k):
            ev.append(dict({"op": op}, **k))
            return len(ev)
        if c["c"] == "mul":
            n = do("MatMul", a=1, b=2)
            ask(n)
        if c["c"] == "inv":
            n = do("MatInv", a=1)
            if not sing and c["a"] not in ("basis", "setters"):
                ask(n)
        if c["c"] == "trans":
            n = do("MatT", a=1)
            ask(n)
        if c["c"] == "invmul" and not sing and c["a"] not in ("basis", "setters"):
            n = do("MatInv", a=1)
            n = do("MatMul", a=n, b=2)
            ask(n)
        if c["c"] == "mulinv":
            n = do("MatMul", a=1, b=2)
            if "singular" not in (c["a"], c["b"]):
                do("MatT", a=n)
        if c["c"] == "transinv":
            n = do("MatT", a=1)
            if not sing:
                do("MatInv", a=n)
        if c["c"] == "chain":
            n = do("MatMul", a=1, b=2)
            n = do("MatMul", a=n, b=1)
            n = do("MatMul", a=2, b=n)
            ask(n)
        out.append({"key": ckey("matrix", c), "ev": ev})
    cs, s2 = cases("vec", 4 if quick else 30)
    st = add_stats(st, s2)
    for c in cs:
        rng = vp.rng_for("m01v", ckey("vec", c))
        gen = lambda: [rng.randint(-800, 800) / 80 for _ in range(4)]
        a = gen()
        if c["a"] == "axis":
            a = [0.0] * 4
            a[rng.randint(0, 2)] = rng.choice([1.0, 5.0])
        if c["a"] == "neg":
            a = [-abs(x) - 1 for x in a]
        if c["a"] == "tiny":
            a = [x * 1e-3 for x in a]
        if c["a"] == "huge":
            a = [x * 1e5 for x in a]
        if c["a"] == "zero":
            a = [0.0] * 4
        if c["a"] == "unit":
            a = [0.0, 0.0, 0.0, 0.0]
            j = rng.randint(0, 2)
            a[j], a[(j + 1) % 3] = 0.6, -0.8
        if c["a"] == "diag":
            a = [rng.choice([1.0, -1.0]) * 2.0 for _ in range(4)]
        a[3] = rng.choice([1.0, 0.5, 2.0, 7.0, -2.0])
        b = gen()
        if c["b"] == "same":
            b = list(a)
        if c["b"] == "near":
            b = [x * (1 + 1e-9) for x in a]
        if c["b"] == "opposite":
            b = [-x for x in a]
        if c["b"] == "multiple":
            b = [3 * x for x in a]
        if c["b"] == "orthogonal":
            b = cross(a[:3], b[:3]) + [b[3]]
        if c["b"] == "zero":
            b = [0.0] * 3 + [1.0]
        if c["b"] not in ("same", "near", "multiple", "opposite"):
            b[3] = rng.choice([1.0, 0.25, 3.0])
        out.append({"key": ckey("vec", c), "ev": [{"op": "Vec", "a": vp.hx(a), "b": vp.hx(b), "k": vp.hexf(c["k"] / 8)}]})
    # predicates with a tolerance of the caller's: short, nearly unit, nearly equal vectors, 3 and 2 coordinates
    for i in range(120 if tier == "quick" else 1200):
        rng = vp.rng_for("m01t", i)
        eps = (0.5, 0.1, 0.01, 1e-3, 1e-9)[i % 5]
        n = 3 - i // 5 % 2
        d = [rng.gauss(0, 1) for _ in range(n)]
        l = math.sqrt(sum(x * x for x in d))
        size = rng.choice((0.25 * eps, 3 * eps, math.sqrt(1 + 0.4 * eps * eps), math.sqrt(1 - 0.4 * eps * eps), 1 + 3 * eps, 0.3))
        a = [x / l * size for x in d] + [0.0] * (3 - n)
        b = list(a)
        k = rng.randrange(n)
        b[k] += rng.choice((0.4, -0.4, 10, -10)) * eps
        out.append({"key": f"vectol {i}", "ev": [{"op": "VecTol", "a": vp.hx(a), "b": vp.hx(b), "eps": vp.hexf(eps)}]})
    cs, s2 = cases("orth", 1)
    st = add_stats(st, s2)
    for c in cs:
        if c["x"] or c["y"] or c["z"]:
            out.append({"key": ckey("orth", c), "ev": [{"op": "Orth", "a": vp.hx([c["x"] / 8, c["y"] / 8, c["z"] / 8])}]})
    return {"module": "TraceMath", "scenarios": out, "stats": st}
