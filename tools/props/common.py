"""Concretization: abstract grids and shapes to doubles (the data refinement used by all generators)."""
import math, os, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp

UNIT = 8
EXACT = ("int", "nonuni")
VARIANTS = ("int", "nonuni", "unit", "neg", "big")


def gridmap(variant, spans):
    """monotone map from grid positions 0..spans*UNIT to numbers"""
    if variant == "int":
        return lambda x: Fr(x, UNIT)
    if variant == "nonuni":
        br = [Fr(0), Fr(1, 2), Fr(9, 4), Fr(5, 2), Fr(4), Fr(19, 4), Fr(7)] + [Fr(7) + Fr(k * k + k, 4) for k in range(1, 20)]

        def f(x):
            k, r = divmod(x, UNIT)
            return br[k] + (br[k + 1] - br[k]) * Fr(r, UNIT) if r else br[k]
        return f
    if variant == "unit":
        return lambda x: Fr(float(Fr(x, UNIT * spans)))
    if variant == "neg":
        return lambda x: Fr(-3.7 + 0.37 * float(Fr(x, UNIT)))
    if variant.startswith("rnd"):
        # spans of very different lengths, seeded
        r = vp.rng_for("gridmap", variant, spans)
        br = [Fr(r.choice([0.0, -2.5, 17.0]))]
        for _ in range(spans):
            br.append(br[-1] + Fr(r.choice([1, 1, 2, 3, 5, 8, 16, 64, 200])) / 64)

        def f(x):
            k, q = divmod(x, UNIT)
            return br[k] + (br[k + 1] - br[k]) * Fr(q, UNIT) if q else br[k]
        return f
    if variant.startswith("tight"):
        # spans down to 1e-3
        r = vp.rng_for("gridmap", variant, spans)
        br = [Fr(r.choice([0.0, -0.5, 3.0]))]
        for _ in range(spans):
            br.append(Fr(float(br[-1] + Fr(r.choice([1.0, 0.5, 0.1, 0.02, 0.005, 0.001])))))

        def f(x):
            k, q = divmod(x, UNIT)
            return br[k] + (br[k + 1] - br[k]) * Fr(q, UNIT) if q else br[k]
        return f
    if variant == "big":
        return lambda x: Fr(100 + 12.5 * float(Fr(x, UNIT)))
    raise ValueError(variant)


WEIGHTS = [0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0]


def points(rng, n, dim=3, lim=8):
    """n generic points, dyadic coordinates, consecutive ones apart"""
    res = []
    while len(res) < n:
        p = [rng.randint(-lim * 8, lim * 8) / 8.0 for _ in range(dim)]
        if not res or max(abs(a - b) for a, b in zip(p, res[-1])) > 0.5:
            res.append(p)
    return res


def weights(rng, n, rational):
    return [rng.choice(WEIGHTS) if rational else 1.0 for _ in range(n)]


def hom(pts, ws):
    return [[x * w for x in p] + [w] for p, w in zip(pts, ws)]


STYLES = ("poly", "rat", "rat", "wide", "same", "dup", "large", "small", "planar", "line")


def data(rng, n, style):
    """control points and weights in one of several regimes"""
    pts = points(rng, n)
    ws = [1.0] * n
    if style != "poly":
        ws = weights(rng, n, True)
    if style == "wide":
        ws = [rng.choice([1 / 64, 1 / 16, 0.25, 1.0, 4.0, 16.0, 50.0]) for _ in range(n)]
    elif style == "same":
        ws = [rng.choice([0.5, 2.0, 3.0])] * n
    elif style == "dup":
        for i in range(1, n):
            if rng.random() < 0.35:
                pts[i] = list(pts[i - 1])
    elif style == "large":
        pts = [[x * 512 + 4096 for x in q] for q in pts]
    elif style == "small":
        pts = [[x / 64 for x in q] for q in pts]
    elif style == "planar":
        pts = [[a, b, 1.5] for a, b, _ in pts]
    elif style == "line":
        pts = [[(i + rng.randint(0, 3) / 8) * 2, (i * 0.5), -i * 1.0] for i in range(n)]
    return pts, ws


def styled_curve(p, U, rng, style):
    n = len(U) - p - 1
    pts, ws = data(rng, n, style)
    return {"op": "DefCurve", "c0": curve(p, U, pts, ws)}


def by_shape(scs):
    """GenShapes scenarios grouped by knot vector: [(p, K, spans, ends, [positions])]"""
    d = {}
    for s in scs:
        d.setdefault((s["p"], tuple(s["K"]), s["spans"], s["e"]), []).append(s["u"])
    return [(k[0], list(k[1]), k[2], k[3], sorted(v)) for k, v in sorted(d.items())]


def curve(p, U, pts, ws):
    return {"p": p, "U": vp.hx([float(u) for u in U]), "P": vp.hx(hom(pts, ws))}


def def_curve(p, U, rng, rational, planar=False, lim=8):
    n = len(U) - p - 1
    pts = points(rng, n, lim=lim)
    if planar:
        pts = [[a, b, 0.0] for a, b, _ in pts]
    return {"op": "DefCurve", "c0": curve(p, U, pts, weights(rng, n, rational))}


def history(sc, variant, rng, rational, must=True, planar=False, style=None):
    """events for a Machine scenario"""
    K = sc["shape"]["K"]
    spans = K[-1] // UNIT
    g = gridmap(variant, spans)
    f = g
    if style:
        ev = [styled_curve(sc["shape"]["p"], [f(x) for x in K], rng, style)]
    else:
        ev = [def_curve(sc["shape"]["p"], [f(x) for x in K], rng, rational, planar=planar)]
    lo, hi = K[0], K[-1]
    for h in sc["hist"]:
        e = {"op": h["op"], "c": len(ev)}
        if h["op"] == "InsertKnot":
            e.update(u=vp.hexf(float(f(h["u"]))), t=h["t"])
        elif h["op"] == "RemoveKnot":
            e.update(u=vp.hexf(float(f(h["u"]))), t=h["t"], must=must)
        elif h["op"] == "Refine":
            e.update(X=vp.hx([float(f(x)) for x in h["X"]]))
        elif h["op"] == "Elevate":
            e.update(t=h["t"])
        elif h["op"] == "Reduce":
            e.update(must=must)
        elif h["op"] == "Split":
            e.update(u=vp.hexf(float(f(h["u"]))), right=h["right"])
            if h["right"]:
                lo = h["u"]
            else:
                hi = h["u"]
        elif h["op"] == "Extract":
            e.update(lo=vp.hexf(float(f(h["lo"]))), hi=vp.hexf(float(f(h["hi"]))))
            lo, hi = h["lo"], h["hi"]
        elif h["op"] == "Reverse":
            f0, a, b, s = f, f(lo), f(hi), lo + hi
            f = (lambda f0, a, b, s: lambda x: a + b - f0(s - x))(f0, a, b, s)
        elif h["op"] == "Reparam":
            a, b = f(lo), f(hi)
            na, nb = {"shift": (a + Fr(5, 2), b + Fr(5, 2)), "double": (a, a + 2 * (b - a)), "unit": (a - 1, a - 1 + (b - a) / 2)}[h["w"]]
            e.update(lo=vp.hexf(float(na)), hi=vp.hexf(float(nb)))
            f = (lambda f0, a, b, na, nb: lambda x: na + (f0(x) - a) * (nb - na) / (b - a))(f, a, b, na, nb)
        ev.append(e)
    return ev


def machine(opset, minp=1, maxp=5, spans=3, depth=1, capp=7, offs="{2, 4, 5}", simulate=None, seed=None, invs=None, grow=False):
    ops = "{" + ", ".join('"%s"' % o for o in opset) + "}"
    return vp.generate("Machine", dict(MaxP=maxp, MinP=minp, Spans=spans, Unit=UNIT, Offs=offs, Depth=depth, CapP=capp, OpSet=ops, Long=3 if simulate else 1000),
                       invariants=invs or (("Inv", "Emit") if simulate else ("Inv", "Laws", "Emit")), simulate=simulate, seed=seed, depth=depth + 3 + (spans if grow else 0), init="InitGrow" if grow else "Init")


def grown(opset, num, minp=1, maxp=7, spans=12, depth=1, seed=0, capp=7, offs="{2, 4, 5}"):
    """random walks of the machine from long random curves (TLC simulation mode)"""
    scs, st = machine(opset, minp=minp, maxp=maxp, spans=spans, depth=depth, capp=capp, offs=offs, simulate=num, seed=vp.SEED * 1000 + seed, grow=True)
    return scs, st


def longshapes(num, minp=1, maxp=7, spans=12, seed=0):
    """long random curves as by_shape gives them: [(p, K, spans, "clamped", positions)]"""
    scs, st = grown([], num, minp=minp, maxp=maxp, spans=spans, depth=0, seed=seed)
    res = []
    for s in scs:
        K = s["K"]
        sp = K[-1] // UNIT
        rng = vp.rng_for("long", seed, tuple(K))
        us = sorted(set(K) | {rng.randint(0, K[-1]) for _ in range(sp)})
        res.append((s["p"], K, sp, "clamped", us))
    return res, st


def anyvar(i):
    return (VARIANTS + ("rnd%d" % (i % 13), "tight%d" % (i % 17)))[i % 7]


NEAR = (2.5, 5, 15, 100)


def near(u, lo, hi, k):
    """a parameter very close to u, inside [lo, hi], but not within the library's tolerance for equal numbers,
    which is 1e-6 * (1 + max(|a|, |b|))"""
    eps = 1e-6 * (1 + max(abs(u), abs(lo), abs(hi)))
    d = NEAR[k % 4] * eps * (1 if (k // 4) % 2 else -1)
    x = u + d
    if x < lo + 2 * eps or x > hi - 2 * eps:
        x = u - d
    return x if lo < x < hi else u


def shape_key(sc):
    K = sc["shape"]["K"]
    return "p%d-K%s" % (sc["shape"]["p"], "".join(str(x // UNIT) if x % UNIT == 0 else "(%d)" % x for x in K))


def hist_key(sc):
    out = []
    for h in sc["hist"]:
        a = h["op"]
        for k in ("u", "t", "X", "right", "w", "lo", "hi"):
            if k in h:
                a += ":%s" % (h[k],)
        out.append(a)
    return "/".join(out)


def add_stats(a, b):
    return {"generated": a["generated"] + b["generated"], "distinct": a["distinct"] + b["distinct"]}


def stride(xs, n, key=""):
    """a deterministic, seed-dependent sample of n elements that keeps the order"""
    if len(xs) <= n:
        return list(xs)
    r = vp.rng_for("stride", key, len(xs), n)
    idx = sorted(r.sample(range(len(xs)), n))
    return [xs[i] for i in idx]


def shapes(minp=1, maxp=5, spans=3, offs="{2, 5}", ends='{"clamped"}', maxmult=9):
    return vp.generate("GenShapes", dict(MinP=minp, MaxP=maxp, Spans=spans, Unit=UNIT, Offs=offs, Ends=ends, MaxMult=maxmult))


def wide(g, spans):
    """extend a grid map beyond [0, spans*UNIT] by reflection of the first/last span length (for unclamped vectors)"""
    lo, hi = g(0), g(spans * UNIT)
    first, last = g(UNIT) - lo, hi - g((spans - 1) * UNIT)

    def f(x):
        if x < 0:
            return Fr(float(lo + first * Fr(x, UNIT)))
        if x > spans * UNIT:
            return Fr(float(hi + last * Fr(x - spans * UNIT, UNIT)))
        return g(x)
    return f


def kkey(p, K):
    return "p%d-K%s" % (p, ",".join(str(x // UNIT) if x % UNIT == 0 else "%d/%d" % (x, UNIT) for x in K))


# ---------------------------------------------------------------- tensor products
def tensor(ndim, opset, minp=1, maxp=3, spans=2, depth=1, capp=7, offs="{2, 4, 5}", simulate=None, seed=None, caps=3, long=3):
    """surfaces (2) or volumes (3) with operation histories: exhaustive, or simulated from random shapes"""
    ops = "{" + ", ".join('"%s"' % o for o in opset) + "}"
    grid = caps if simulate else spans
    return vp.generate("TensorMachine", dict(NDim=ndim, MinP=minp, MaxP=maxp, Spans=grid if simulate else spans, Unit=UNIT, Offs=offs, Depth=depth, CapP=capp,
                                             Long=long if simulate else 1000, OpSet=ops, Caps=caps),
                       simulate=simulate, seed=vp.SEED * 1000 + (seed or 0), depth=depth + 4 + ndim * grid, init="InitGrow" if simulate else "Init")


def grid_data(rng, dims, style):
    """control points over a grid, as nested lists of homogeneous points"""
    n = 1
    for d in dims:
        n *= d
    pts, ws = data(rng, n, style)
    if style in ("sheet", "sheetrat"):
        # a surface that looks like one: gently varying heights over a grid (regular everywhere)
        pts, k = [], 0
        for i in range(dims[0]):
            for j in range(dims[1]):
                pts.append([2.0 * i + rng.randint(-2, 2) / 8, 2.0 * j + rng.randint(-2, 2) / 8, rng.randint(-16, 16) / 8])
        ws = [1.0] * n if style == "sheet" else [rng.choice([0.75, 1.0, 1.25, 1.5]) for _ in range(n)]
    if style in ("tilt", "tiltrat"):
        # the plane z = x/2 - y/4
        pts = []
        for i in range(dims[0]):
            for j in range(dims[1]):
                x, y = 2.0 * i + rng.randint(-4, 4) / 8, 2.0 * j + rng.randint(-4, 4) / 8
                pts.append([x, y, x / 2 - y / 4])
        ws = [1.0] * n if style == "tilt" else [rng.choice([0.75, 1.0, 1.25, 1.5]) for _ in range(n)]
    if style in ("block", "blockrat"):
        pts = []
        for i in range(dims[0]):
            for j in range(dims[1]):
                for k in range(dims[2]):
                    pts.append([2.0 * i + rng.randint(-2, 2) / 8, 2.0 * j + rng.randint(-2, 2) / 8, 2.0 * k + rng.randint(-2, 2) / 8])
        ws = [1.0] * n if style == "block" else [rng.choice([0.75, 1.0, 1.25, 1.5]) for _ in range(n)]
    h = hom(pts, ws)

    def nest(flat, ds):
        if len(ds) == 1:
            return flat
        m = len(flat) // ds[0]
        return [nest(flat[i * m:(i + 1) * m], ds[1:]) for i in range(ds[0])]
    return nest(h, dims)


SSTYLES = ("sheet", "rat", "sheetrat", "poly", "wide", "sheetrat", "large", "dup", "sheet", "planar")


def def_tensor(degs, knots, rng, style):
    P = grid_data(rng, [len(U) - p - 1 for p, U in zip(degs, knots)], style)
    names = ("U", "V", "W")
    o = {"p" + a.lower(): p for a, p in zip(names, degs)}
    o.update({a: vp.hx([float(x) for x in U]) for a, U in zip(names, knots)})
    o["P"] = vp.hx(P)
    return {"op": "DefSurf", "s0": o} if len(degs) == 2 else {"op": "DefVol", "v0": o}


def tkey(sc):
    return " x ".join(kkey(d["p"], d["K"]) for d in sc["shape"])


def thist_key(sc):
    out = []
    for h in sc["hist"]:
        a = h["op"] + "uvw"[h["d"] - 1]
        for k in ("u", "t", "X", "right", "w", "d2"):
            if k in h:
                a += ":%s" % (h[k],)
        out.append(a)
    return "/".join(out)


def tensor_history(sc, variants, rng, style, must=True):
    """events for a TensorMachine scenario"""
    nd = len(sc["shape"])
    fs = [gridmap(variants[i], d["K"][-1] // UNIT) for i, d in enumerate(sc["shape"])]
    ev = [def_tensor([d["p"] for d in sc["shape"]], [[f(x) for x in d["K"]] for d, f in zip(sc["shape"], fs)], rng, style)]
    ends = [[d["K"][0], d["K"][-1]] for d in sc["shape"]]
    ref = "s" if nd == 2 else "v"
    pre = "S" if nd == 2 else "V"
    for h in sc["hist"]:
        i = h["d"] - 1
        f = fs[i]
        e = {"op": pre + h["op"], ref: len(ev)}
        if nd == 2:
            e["isu"] = i == 0
        else:
            e["dir"] = i
        if h["op"] in ("Insert", "Remove", "Split"):
            e["u"] = vp.hexf(float(f(h["u"])))
        if h["op"] in ("Insert", "Remove", "Elevate"):
            e["t"] = h["t"]
        if h["op"] in ("Remove", "Reduce"):
            e["must"] = must
        if h["op"] == "Refine":
            e["X"] = vp.hx([float(f(x)) for x in h["X"]])
        if h["op"] == "Split":
            e["right"] = h["right"]
            ends[i][0 if h["right"] else 1] = h["u"]
        if h["op"] == "Swap":
            j = h["d2"] - 1
            if nd == 3:
                e["dir2"] = j
            fs[i], fs[j] = fs[j], fs[i]
            ends[i], ends[j] = ends[j], ends[i]
        if h["op"] == "Reverse":
            lo, hi = ends[i]
            if nd == 2:
                e["dir"] = 1 if i == 0 else 2
            fs[i] = (lambda f0, a, b, s: lambda x: a + b - f0(s - x))(f, f(lo), f(hi), lo + hi)
        if h["op"] == "Reparam":
            lo, hi = ends[i]
            a, b = f(lo), f(hi)
            na, nb = {"shift": (a + Fr(5, 2), b + Fr(5, 2)), "double": (a, a + 2 * (b - a)), "unit": (a - 1, a - 1 + (b - a) / 2)}[h["w"]]
            j = 1 - i
            other = (fs[j](ends[j][0]), fs[j](ends[j][1]))
            both = {i: (na, nb), j: other}
            e.update(ulo=vp.hexf(float(both[0][0])), uhi=vp.hexf(float(both[0][1])), vlo=vp.hexf(float(both[1][0])), vhi=vp.hexf(float(both[1][1])))
            fs[i] = (lambda f0, a, b, na, nb: lambda x: na + (f0(x) - a) * (nb - na) / (b - a))(f, a, b, na, nb)
        ev.append(e)
    return ev


def tvars(i):
    return (anyvar(i), anyvar(i * 3 + 1), anyvar(i * 5 + 2))


def tparams(rng, K, g, n):
    """n parameters of one direction: ends, knots, span interiors"""
    lo, hi = K[0], K[-1]
    cand = sorted(set(K))
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.25:
            x = rng.choice((lo, hi))
        elif r < 0.55:
            x = rng.choice(cand)
        else:
            x = rng.randint(lo, hi)
        out.append(float(g(x)))
    return out


# ---------------------------------------------------------------- float evaluation (to choose arguments only, never to judge)
def basis_row(p, U, u):
    n = len(U) - p - 1
    k = n - 1
    if u < U[n]:
        k = max(i for i in range(p, n) if U[i] <= u)
    while U[k] == U[k + 1]:
        k -= 1
    N = [1.0]
    for d in range(1, p + 1):
        M = [0.0] * (d + 1)
        for j in range(d):
            i = k - d + 1 + j
            a, b = U[i], U[i + d]
            w = (u - a) / (b - a)
            M[j] += (1 - w) * N[j]
            M[j + 1] += w * N[j]
        N = M
    return k, N


def hom_eval(degs, knots, P, us):
    """homogeneous point of a tensor product (any number of directions)"""
    if not degs:
        return P
    k, N = basis_row(degs[0], knots[0], us[0])
    acc = [0.0] * 4
    for j, w in enumerate(N):
        h = hom_eval(degs[1:], knots[1:], P[k - degs[0] + j], us[1:])
        acc = [a + w * b for a, b in zip(acc, h)]
    return acc


def point_of(d, us):
    """point of a DefCurve / DefSurf / DefVol event"""
    o = d.get("c0") or d.get("s0") or d.get("v0")
    o = {k: vp.unhex(v) for k, v in o.items()}
    degs = [o[k] for k in (("p",) if "c0" in d else ("pu", "pv") if "s0" in d else ("pu", "pv", "pw"))]
    h = hom_eval(degs, [o[k] for k in "UVW"[:len(degs)]], o["P"], us)
    return [x / h[3] for x in h[:3]]


# ---------------------------------------------------------------- construction cases
def cases(family, seeds=2):
    """the abstract cases of a construction, enumerated by TLC"""
    scs, st = vp.generate("GenCases", dict(Family='"%s"' % family, NSeeds=seeds), invariants=("Emit",))
    return [s["c"] for s in scs], st


def ckey(family, c):
    return family + " " + " ".join("%s=%s" % (k, "x".join(map(str, v)) if isinstance(v, list) else v) for k, v in sorted(c.items()))


def frame_of(rng, k=0):
    """two orthonormal directions and an origin; k = 0: the coordinate axes at the origin"""
    if k == 0:
        return [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0]
    a, b, c = (rng.uniform(0, 6.28) for _ in range(3))
    x = [math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b)]
    y0 = [-math.sin(a), math.cos(a), 0.0]
    z0 = cross(x, y0)
    y = [math.cos(c) * p + math.sin(c) * q for p, q in zip(y0, z0)]
    return x, y, [rng.randint(-80, 80) / 8 for _ in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def at(o, x, y, p):
    return [o[i] + p[0] * x[i] + p[1] * y[i] for i in range(3)]
