"""C20: fitting points with one conic or one cubic segment."""
from .common import *


def add(a, b, s=1.0):
    return [x + s * y for x, y in zip(a, b)]


def unit(v):
    l = math.hypot(*v)
    return [x / l for x in v]


def pad(q, pre, rng):
    """points before and after the fitted ones"""
    head, p = [], q[0]
    for _ in range(pre):
        p = add(p, [rng.uniform(1, 2), rng.uniform(-1, 1), rng.uniform(-1, 1)])
        head.insert(0, p)
    return head + q + ([add(q[-1], [rng.uniform(-1, 1), rng.uniform(1, 2), 0.5])] if pre else [])


def event(op, q, pre, rng, ts, te, eps, **kw):
    e = {"op": op, "q": vp.hx(pad(q, pre, rng)), "i": pre, "j": pre + len(q) - 1, "ts": vp.hx(ts), "te": vp.hx(te), "eps": vp.hexf(eps)}
    e.update(kw)
    return e


def plan(tier):
    quick = tier == "quick"
    out, st = [], {"generated": 0, "distinct": 0}

    def fam(f, seeds, most):
        nonlocal st
        cs, s = cases(f, seeds)
        st = add_stats(st, s)
        return stride(cs, most if quick else 8 * most, f)

    for c in fam("fitconic", 2, 320):
        rng = vp.rng_for("c20c", ckey("fitconic", c))
        x, y, o = frame_of(rng, c["seed"] + 1)
        P = lambda u, v: [o[i] + u * x[i] + v * y[i] for i in range(3)]
        l1, l2, an, w = rng.choice([1.0, 2.0, 3.5]), rng.choice([1.0, 2.0]), math.radians(c["ang"]), c["w"] / 8
        a2, r2, b2 = (0.0, 0.0), (l1, 0.0), (l1 - l2 * math.cos(an), l2 * math.sin(an))
        q2 = []
        ts = [(k + 1) / (c["k"] + 1) for k in range(c["k"])]
        for t in ts:
            t += rng.uniform(-0.04, 0.04)
            B = ((1 - t) ** 2, 2 * w * t * (1 - t), t * t)
            q2.append(tuple(sum(b * z[i] for b, z in zip(B, (a2, r2, b2))) / sum(B) for i in range(2)))
        size = math.dist(a2, b2)
        h = size / 50
        if c["kind"] == "near":
            q2 = [(u + rng.uniform(-h, h), v + rng.uniform(-h, h)) for u, v in q2]
        if c["kind"] == "off":
            q2 = [(u + rng.uniform(-4 * h, 4 * h), v + rng.uniform(-4 * h, 4 * h)) for u, v in q2]
        if c["kind"] == "one":
            k = rng.randrange(len(q2))
            q2[k] = tuple(z + 5 * h * rng.choice([1, -1]) for z in q2[k])
        q = [P(*a2)] + [P(*z) for z in q2] + [P(*b2)]
        kw = {}
        if c["kind"] == "on":
            kw = {"must": True, "is": vp.hx([[w * v for v in P(*r2)] + [w]])}
        s1, s2 = rng.choice([1.0, 1.0, 0.5, 3.0]), rng.choice([1.0, 2.0])
        td = [s1 * v for v in unit(add(P(*r2), P(*a2), -1))]
        te = [s2 * v for v in unit(add(P(*b2), P(*r2), -1))]
        eps = h if c["kind"] != "on" else size * 1e-3
        out.append({"key": ckey("fitconic", c), "ev": [event("FitConic", q, c["pre"], rng, td, te, eps, **kw)]})
    for c in fam("fittwo", 2, 220):
        rng = vp.rng_for("c20t", ckey("fittwo", c))
        x, y, o = frame_of(rng, c["seed"] + 1)
        z = cross(x, y)
        D = lambda u, v, s=0.0: [u * x[i] + v * y[i] + s * z[i] for i in range(3)]
        L = rng.choice([1.0, 2.0, 10.0])
        a, b = o, add(o, D(L, 0))
        f, g = rng.uniform(0.2, 1.2), rng.uniform(0.2, 1.2)
        if abs(f - g) < 0.05:
            g += 0.1
        k = c["kind"]
        if k == "iso":
            g = f
        if k == "quarter":
            f = g = math.pi / 4
        td, te = D(math.cos(f), math.sin(f)), D(math.cos(g), -math.sin(g))
        if k == "S":
            te = D(math.cos(g), math.sin(g))
        if k == "back":
            td = D(-math.cos(f), math.sin(f))
        if k == "parallel":
            te = td
        if k == "opposite":
            td, te = D(0, 1), D(0, -1)
        if k == "line":
            td = te = D(1, 0)
        if k == "skew":
            te = D(math.cos(g), -math.sin(g), rng.choice([0.5, -0.4]))
            te = unit(te)
        kw = {}
        if k in ("iso", "quarter"):       # symmetric directions: a circular arc
            kw = {"is": vp.hx([[math.cos(f) * v for v in add(a, D(L / 2, L / 2 * math.tan(f)))] + [math.cos(f)]])}
        for op in ("FitConic", "FitCubic"):
            pre = max(c["pre"], 1) if op == "FitCubic" else c["pre"]
            out.append({"key": op + " " + ckey("fittwo", c), "ev": [event(op, [a, b], pre, rng, td, te, L * c["al"] / 80, must=True, **(kw if op == "FitConic" else {}))]})
    for c in fam("fitcubic", 2, 320):
        rng = vp.rng_for("c20k", ckey("fitcubic", c))
        x, y, o = frame_of(rng, c["seed"] + 1)
        z = cross(x, y)
        D = lambda u, v, s=0.0: [u * x[i] + v * y[i] + s * z[i] for i in range(3)]
        L = rng.choice([1.0, 2.0, 5.0])
        a, b = o, add(o, D(L, 0))
        flat = c["kind"].startswith("planar")
        f, g = rng.uniform(0.3, 1.2), rng.uniform(0.3, 1.2)
        td = D(math.cos(f), math.sin(f))
        te = unit(D(math.cos(g), -math.sin(g), 0.0 if flat else rng.choice([0.7, -0.6, 1.0])))
        al, be = L * c["al"] / 16, L * c["be"] / 16
        p1, p2 = add(a, td, al), add(b, te, -be)
        kw = {}
        if c["kind"] == "line":
            td = te = D(1, 0)
            p1, p2 = add(a, td, L / 3), add(b, te, -L / 3)
            kw = {"must": True}
        q = []
        for k in range(c["k"]):
            t = (k + 1 + rng.uniform(-0.2, 0.2)) / (c["k"] + 1)
            B = ((1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t ** 3)
            q.append([sum(w * v[i] for w, v in zip(B, (a, p1, p2, b))) for i in range(3)])
        h = L / 50
        if c["kind"] == "on":
            kw = {"must": True, "is": vp.hx([p1 + [1.0], p2 + [1.0]])}
        if c["kind"] in ("near", "planarnear"):
            q = [add(v, D(rng.uniform(-h, h), rng.uniform(-h, h), 0.0 if flat else rng.uniform(-h, h))) for v in q]
        if c["kind"] == "off":
            q = [add(v, D(rng.uniform(-3 * h, 3 * h), rng.uniform(-3 * h, 3 * h), rng.uniform(-3 * h, 3 * h))) for v in q]
        if c["kind"] == "one":
            k = rng.randrange(len(q))
            q[k] = add(q[k], D(rng.choice([-4, 4]) * h, 3 * h, 2 * h))
        eps = h if c["kind"] != "on" else L * 1e-3
        out.append({"key": ckey("fitcubic", c), "ev": [event("FitCubic", [a] + q + [b], c["pre"], rng, td, te, eps, **kw)]})
    return {"module": "TraceFit", "scenarios": out, "stats": st}
