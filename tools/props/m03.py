"""M03: lines, planes, projections and neighbour search."""
from .common import *


def ints(rng, n=3, m=40):
    return [rng.randint(-m, m) / 8 for _ in range(n)]


def direction(rng):
    while True:
        v = ints(rng)
        if sum(x * x for x in v) > 1:
            return v


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def fam(f, seeds=1, most=None):
        nonlocal st
        cs, s = cases(f, seeds)
        st = add_stats(st, s)
        return stride(cs, most, f) if most and quick else cs

    # dyadic coordinates of few bits, so that crossing, parallel and coinciding lines are exactly that
    for c in fam("rays", 1 if quick else 6):
        rng = vp.rng_for("m03r", ckey("rays", c))
        v0 = [x * c["l0"] / 8 for x in direction(rng)]
        while True:
            v1 = [x * c["l1"] / 8 for x in direction(rng)]
            n = cross(v0, v1)
            if sum(x * x for x in n) > 0.01 * sum(x * x for x in v0) * sum(x * x for x in v1):
                break
        X = ints(rng)
        s, t = rng.randint(1, 16) / 4, rng.randint(1, 16) / 4
        k = c["k"]
        if k == "behind":
            s, t = -s, rng.choice([-t, t])
        p0 = [a - s * b for a, b in zip(X, v0)]
        p1 = [a - t * b for a, b in zip(X, v1)]
        f = rng.choice([1.0, -1.0, 2.0, -0.5])
        if k in ("parallel", "same", "samepoint"):
            v1 = [x * f for x in v0]
            p1 = [a + rng.choice([0.0, 1.5, -3.0]) * b for a, b in zip(p0, v0)] if k == "same" else list(p0)
            if k == "parallel":
                w = cross(v0, direction(rng))
                w = w if any(w) else cross(v0, [1.0, 2.5, -0.5])
                w = w if any(w) else cross(v0, [1.0, 0.0, 0.0])
                p1 = [a + b + rng.choice([0.0, 2.0]) * d for a, b, d in zip(p0, w, v0)]
        if k == "skew":
            h = rng.choice([0.25, -1.0, 3.0])
            p1 = [a + h * b for a, b in zip(p1, n)]
        if k == "right":
            v1 = n
            p1 = [a - t * b for a, b in zip(X, v1)]
        if k == "opposite":
            p1, v1 = [a + 2 * b for a, b in zip(p0, v0)], [-x for x in v0]
        if k == "zero":
            if rng.random() < 0.5:
                v0 = [0.0] * 3
            else:
                v1 = [0.0] * 3
        out.append({"key": ckey("rays", c), "ev": [{"op": "Rays", "p0": vp.hx(p0), "v0": vp.hx(v0), "p1": vp.hx(p1), "v1": vp.hx(v1)}]})
    for c in fam("lineplane", 8 if quick else 60):
        rng = vp.rng_for("m03p", ckey("lineplane", c))
        n = [x * c["ln"] / 8 for x in direction(rng)]
        o = ints(rng)
        while True:
            d = direction(rng)
            if abs(sum(a * b for a, b in zip(n, d))) > 0.1:
                break
        q = ints(rng)
        if c["k"] != "cross":
            d = cross(n, d)
            while not any(d):
                d = cross(n, direction(rng))
            q = [a + rng.choice([0.0, 1.0, -2.5]) * b for a, b in zip(o, cross(n, d))] if c["k"] == "in" else [a + rng.choice([1.0, -2.0]) * b for a, b in zip(o, n)]
        d = [x * c["ld"] / 8 for x in d]
        out.append({"key": ckey("lineplane", c), "ev": [{"op": "LinePlane", "n": vp.hx(n), "o": vp.hx(o), "q": vp.hx(q), "d": vp.hx(d)}]})
    for c in fam("project", 4 if quick else 30):
        rng = vp.rng_for("m03j", ckey("project", c))
        a, d = ints(rng), [x * c["l"] / 8 for x in direction(rng)]
        b = [x + y for x, y in zip(a, d)]
        w = cross(d, direction(rng))
        l = math.sqrt(sum(x * x for x in w)) or 1.0
        q = [x + c["t"] / 8 * y + c["h"] / 8 * z / l for x, y, z in zip(a, d, w)]
        out.append({"key": ckey("project", c), "ev": [{"op": "Project", "a": vp.hx(a), "b": vp.hx(b), "q": vp.hx(q)}]})
    for c in fam("stereo"):
        r = c["r"] / 8
        p, l = math.radians(c["lat"]), math.radians(c["lon"])
        q = [r * math.cos(p) * math.cos(l), r * math.cos(p) * math.sin(l), r + r * math.sin(p)]
        out.append({"key": ckey("stereo", c), "ev": [{"op": "Stereo", "q": vp.hx(q), "t": vp.hexf(r)}]})
    for c in fam("octree", 1 if quick else 6):
        rng = vp.rng_for("m03o", ckey("octree", c))
        n, k = c["n"], c["k"]
        sc = {"small": 0.001, "far": 1000.0}.get(k, 1.0)
        pts = []
        for i in range(n):
            p = [rng.uniform(-4, 4) for _ in range(3)]
            if k == "grid":
                p = [float(rng.randint(-2, 2)) for _ in range(3)]
            if k == "line":
                p = [p[0], 1.0, 1.0]
            if k == "plane":
                p[2] = 0.5
            if k == "double" and pts and i % 2:
                p = list(pts[-1])
            if k == "clusters":
                b = [rng.choice([-4.0, 4.0]) for _ in range(3)]
                p = [x + 0.01 * y for x, y in zip(b, p)]
            pts.append([x * sc for x in p])
        Q = [list(rng.choice(pts)), [sc * rng.uniform(-4, 4) for _ in range(3)], [sc * rng.uniform(-9, 9) for _ in range(3)], [sc * x for x in (0.0, 0.0, 0.0)]]
        Q.append([x + sc * 0.3 * rng.uniform(-1, 1) for x in rng.choice(pts)])
        out.append({"key": ckey("octree", c), "ev": [{"op": "Octree", "P": vp.hx(pts), "leaf": c["leaf"], "ext": vp.hexf(c["ext"] / 8 * sc), "Q": vp.hx(Q),
                    "R": vp.hx([sc * x for x in (0.3, 1.1, 2.7, 6.3, 30.1)]), "K": [1, 2, 5, 9]}]})
    return {"module": "TraceMath", "scenarios": out, "stats": st}
