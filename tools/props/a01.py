"""A01: malformed objects and parameters outside the domain; A02: senseless arguments of operations and constructions."""
from .common import *
from .c15 import spread

Z3 = [0.0, 0.0, 0.0]


def pts(rng, n):
    return [[i + rng.randint(-3, 3) / 16, rng.randint(-16, 16) / 8, rng.randint(-16, 16) / 8] for i in range(n)]


def knots(rng, p, spans, lo):
    U = [lo] * (p + 1)
    x = lo
    for _ in range(spans - 1):
        x += rng.choice([0.5, 1.0, 1.5])
        U += [x] * (1 if p == 1 else rng.choice([1, 1, 2]))
    return U + [x + 1.0] * (p + 1)


def acurve(rng, p=None, bezier=False, spans=None, lo=None):
    p = p or rng.randint(2, 4)
    lo = lo if lo is not None else rng.choice([0.0, -2.0, 1.0])
    U = knots(rng, p, 1 if bezier else spans or rng.randint(2, 4), lo)
    n = len(U) - p - 1
    return {"p": p, "U": U, "P": [[a, b, c, 1.0] for a, b, c in pts(rng, n)]}


def asurf(rng, bezier=False):
    pu, pv = rng.sample([1, 2, 3], 2)
    if not bezier:
        pu, pv = max(pu, 2), max(pv, 2)
    U, V = knots(rng, pu, 1 if bezier else rng.randint(2, 3), 0.0), knots(rng, pv, 1 if bezier else rng.randint(1, 3), -1.0)
    m, n = len(U) - pu - 1, len(V) - pv - 1
    return {"pu": pu, "pv": pv, "U": U, "V": V, "P": [[[float(i), float(j), rng.randint(-8, 8) / 8, 1.0] for j in range(n)] for i in range(m)]}


def off(k, lo, hi, rng, inner=None):
    """a parameter of kind k for the interval"""
    k = k.rstrip("2v") if k not in ("good2",) else k
    return {"first": lo, "last": hi, "knot": inner if inner is not None else lo, "below": lo - 2.0 ** -rng.randint(3, 12), "above": hi + 2.0 ** -rng.randint(3, 12),
            "farbelow": lo - 50.0, "farabove": hi + 50.0}.get(k, lo + (hi - lo) * rng.choice([0.25, 0.375, 0.625]))


def unsort(U, rng):
    """exchange two different neighbours, not the ends of the range"""
    i = [j for j in range(1, len(U) - 2) if U[j] != U[j + 1]]
    j = rng.choice(i)
    U[j], U[j + 1] = U[j + 1], U[j]


def event(c, rng):
    g, f, k = c["g"], c["f"], c["k"]
    e = {"op": "Call", "f": f}
    if g == "objects":
        C = acurve(rng, bezier=f == "CheckZ")
        if k == "degree0":
            C["p"] = 0
            if f == "CheckZ" and c["seed"] % 2:
                C["P"] = C["P"][:1]
        elif k == "degreeneg":
            C["p"] = -1
        elif k == "noknots":
            C["U"] = []
        elif k == "unsorted" and f != "CheckZ":
            unsort(C["U"], rng)
        elif k == "nopoints":
            C["P"] = []
        elif k == "morepoints":
            C["P"].append(C["P"][0])
        elif k == "fewerpoints":
            C["P"].pop()
        elif k == "moreknots":
            C["U"].append(C["U"][-1])
        elif k == "fewerknots":
            C["U"].pop()
        e["c"] = C
    elif g == "sobjects":
        S = asurf(rng, f == "SCheckZ")
        if k in ("degree0", "degree0v"):
            S["pu" if k == "degree0" else "pv"] = 0
        elif k == "degreeneg":
            S["pv" if c["seed"] % 2 else "pu"] = -1
        elif k in ("noknots", "noknotsv"):
            S["U" if k == "noknots" else "V"] = []
        elif k in ("unsorted", "unsortedv") and f != "SCheckZ":
            U = S["U" if k == "unsorted" else "V"]
            unsort(U, rng)
        elif k == "nopoints":
            S["P"] = []
        elif k == "morepoints":
            S["P"].append(S["P"][0])
        elif k == "fewerpoints":
            S["P"].pop()
        elif k == "morecolumns":
            S["P"] = [r + r[:1] for r in S["P"]]
        elif k in ("moreknots", "moreknotsv"):
            U = S["U" if k == "moreknots" else "V"]
            U.append(U[-1])
        elif k == "fewerknots":
            S["U"].pop()
        elif k == "ragged":
            i = rng.randint(1, len(S["P"]) - 1)
            S["P"][i] = S["P"][i][:-1]
        elif k == "raggedlast":
            S["P"][-1] = S["P"][-1] + S["P"][-1][:1]
        e["s"] = S
    elif g in ("params", "ders"):
        bz = f[0] == "Z"
        C = acurve(rng, p=3 if f in ("Torsion", "BDersAll") else None, bezier=bz)
        lo, hi = (0.0, 1.0) if bz else (C["U"][0], C["U"][-1])
        e["d"] = [off(k, lo, hi, rng, None if bz else C["U"][C["p"] + 1])]
        if k == "unsorted" and not bz:
            unsort(C["U"], rng)
        if g == "ders":
            e["i"] = [{"count0": 0, "countneg": -1}.get(k, rng.randint(1, 3 if f != "BDersAll" else C["p"]))]
        if f == "ZQuad":
            e["v"] = pts(rng, 3)
        else:
            e["c"] = C
    elif g in ("sparams", "sders"):
        S = asurf(rng, f == "SZCasteljau")
        a, b = ((0.0, 1.0), (0.0, 1.0)) if f == "SZCasteljau" else ((S["U"][0], S["U"][-1]), (S["V"][0], S["V"][-1]))
        e["s"] = S
        e["d"] = [off("good" if k[-1] == "v" else k, *a, rng), off(k if k[-1] == "v" or k in ("first", "last") else "good", *b, rng)]
        if g == "sders":
            e["i"] = [{"count0": 0, "countneg": -1}.get(k, rng.randint(1, 2))]
    elif g == "basis":
        p = rng.randint(1, 4)
        if f == "Horner":
            n = p + 1 + {"short": -1, "long": 1}.get(k, 0)
            e.update(i=[{"degree0": 0, "degreeneg": -1}.get(k, p)], L=[rng.randint(-8, 8) / 8 for _ in range(n)] if k != "empty" else [], d=[off("good", 0.0, 1.0, rng)])
            if k == "degree0":
                e["L"] = e["L"][:1]
        elif f == "Bernstein":
            e.update(i=[{"indexneg": -1, "indexhigh": p + 1}.get(k, rng.randint(0, p)), -1 if k == "degreeneg" else p], d=[off(k, 0.0, 1.0, rng)])
        elif f == "AllBernstein":
            e.update(i=[-1 if k == "degreeneg" else p], d=[off(k, 0.0, 1.0, rng)])
        else:
            U = knots(rng, p, rng.randint(2, 4), rng.choice([0.0, -3.0]))
            t = off(k, U[0], U[-1], rng, U[p + 1])
            sp = max(j for j in range(p, len(U) - p - 1) if U[j] <= t or j == p)
            if k == "unsorted":
                unsort(U, rng)
            q = {"degreeneg": -1, "degree0": 0}.get(k, p)
            if k == "degree8":
                q = 8
                U = knots(rng, 8, 2, 0.0)
                t = off("good", U[0], U[-1], rng)
                sp = max(j for j in range(8, len(U) - 9) if U[j] <= t)
            if k == "empty":
                U = []
            if f == "Multiplicity":
                e.update(L=U, d=[t])
            elif f in ("Span", "Continuity"):
                e.update(i=[q], L=U, d=[t])
            elif f == "KvClampInsert":
                lo, hi = (0.0, 2.0) if not U else (U[0], U[-1])
                x, y = lo + (hi - lo) / 4, lo + (hi - lo) * 3 / 4
                e.update(i=[p if k in ("degree0",) else q], L=U, d=[y, x] if k == "reversed" else [x, y])
            else:
                i = -1 if k == "indexneg" else sp
                e.update(i=[q, i, p + 1 if k == "order" else rng.randint(0, max(0, min(p, q)))], L=U, d=[t])
    elif g == "ops":
        C = acurve(rng, p=3 if f in ("RemoveErr",) else None, spans=3)
        U, n = C["U"], len(C["P"])
        lo, hi = U[0], U[-1]
        e["c"] = C
        a, b = lo + (hi - lo) / 4, lo + (hi - lo) * 3 / 4
        rg = {"below": [lo - 0.25, b], "above2": [a, hi + 0.25], "above": [hi + 0.125, hi + 0.5], "below2": [lo - 0.5, lo - 0.125], "reversed": [b, a], "same": [a, a], "good2": [lo, hi]}.get(k, [a, b])
        cnt = {"count0": 0, "countneg": -2}.get(k, 1)
        idx = {"indexneg": -1, "indexhigh": n}.get(k, n // 2)
        one = off(k if k in ("below", "above") else "good", lo, hi, rng)
        amt = 0.0 if k == "zero1" else 0.375
        if f == "InsertKnot":
            e.update(d=[{"first": lo, "last": hi}.get(k, one)], i=[cnt])
        elif f == "RemoveKnot":
            t = {"first": lo, "last": hi, "nonknot": rng.choice([lo + 0.125, hi - 0.125])}.get(k, one if k in ("below", "above") else U[C["p"] + 1])
            e.update(d=[t], i=[cnt])
        elif f == "Refine":
            L = [a, b]
            if k == "below":
                L = [lo - 0.25, b]
            if k == "above":
                L = [a, hi + 0.25]
            e.update(L=[] if k == "empty" else L)
        elif f == "Elevate":
            e.update(i=[cnt])
        elif f == "Moebius":
            e.update(d={"same": [2.0, 1.0, 4.0, 2.0], "neg": [1.0, 2.0, 1.0, 1.0], "zero1": [0.0, 0.0, 0.0, 0.0], "good2": [3.0, 0.0, 0.0, 2.0]}.get(k, [2.0, 1.0, 0.125, 3.0]))
        elif f == "Extract":
            e.update(d=rg)
        elif f == "RemovalError":
            e.update(i=[{"indexneg": -1, "indexhigh": len(U) + 1}.get(k, C["p"] + 1)])
        elif f == "RemoveErr":
            L = [a, (a + b) / 2, b]
            e.update(L=[] if k == "empty" else L, M=[0.0] * (0 if k == "empty" else {"short": 2, "long": 4}.get(k, 3)), d=[{"zero1": 0.0, "neg": -0.5}.get(k, 0.01)])
        elif f in ("Reposition", "WeightMod", "NeighborMod"):
            if idx < 0 or idx >= n:
                pass
            if k == "indexlast" and f == "NeighborMod":
                idx = n - 1
            t = one if k in ("below", "above") else sum(U[idx + 1: idx + C["p"] + 1]) / C["p"] if 0 <= idx < n else a
            t = min(max(t, lo), hi) if k not in ("below", "above") else t
            e.update(d=[t, amt / 16], i=[idx])
            if f == "Reposition":
                e["v"] = [Z3 if k == "zerovec" else [1.0, 2.0, 0.5]]
            if f == "NeighborMod":
                e["d"].append(0.0 if k == "zero2" else 0.25)
        elif f == "Warp":
            e.update(L=[0.5] * (n + {"short": -1, "long": 1}.get(k, 0)), d=[amt] + rg, v=[Z3 if k == "zerovec" else [0.0, 0.0, 1.0]])
        elif f == "Flatten":
            for q in C["P"]:
                q[2] = 0.0
            e.update(v=[[-1.0, -4.0, 0.0], [-1.0, -4.0, 0.0] if k == "zerovec" else [9.0, -4.5, 0.0]], d=rg)
        elif f == "Bend":
            e.update(d=rg + [3.0, 1.0], v=[[2.0, -9.0, 0.5]])
        elif f == "Constrain":
            e.update(L=[] if k == "empty" else [a], v=[] if k in ("zerovec", "empty") else [[0.25, 0.5, -0.25]], i=[0] if k != "short" else [], I=[0] if k not in ("long", "short") else [0, 0] if k == "long" else [])
    elif g == "make":
        v = pts(rng, {"few": 3, "none": 0}.get(k, 8))
        n = len(v)
        T = [[1.0, rng.randint(-4, 4) / 8, 0.25] for _ in v]
        if f == "Line":
            v = [v[0], v[0]] if k == "same" else pts(rng, 2)
            e.update(v=v)
        elif f == "Hermite":
            e.update(v=v, W=T[:-1] if k == "short" else T + T[:1] if k == "long" else T)
        elif f in ("Arc",):
            a0 = rng.choice([0.0, -0.5, 1.0])
            X, Y = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
            e.update(v=[[1.0, 2.0, 3.0], Z3 if k == "zerovec" else X, Z3 if k == "zerovec2" else Y],
                     d=[a0, a0 + {"reversed": -1.0, "equal": 0.0, "over": 6.5, "good2": 2 * math.pi - 0.0001}.get(k, 2.0), {"zero1": 0.0, "neg": -1.0}.get(k, 2.0), {"zero2": 0.0}.get(k, 3.0)])
        elif f in ("ConicOne", "ConicOpen"):
            e.update(v=[[0.0, 0.0, 0.0], Z3 if k == "zerovec" else [1.0, 2.0, 0.0], [4.0, 0.0, 0.0], Z3 if k == "zerovec2" else [1.0, -2.0, 0.0], [2.0, 1.0, 0.0]])
        elif f in ("Interp",):
            p = {"degreeneg": -1, "degree8": 8}.get(k, 3)
            if k == "degree8":
                v = pts(rng, 12)
            L = spread(rng, len(v), "generic") if k in ("short", "long") and False else []
            if k in ("short", "long", "good2"):
                L = [i / (len(v) - 1) for i in range(len(v))]
                L = L[:-1] if k == "short" else L + [1.0] if k == "long" else L
            e.update(i=[p], v=v, L=L)
        elif f == "InterpTan":
            e.update(i=[{"degreeneg": -1, "degree0": 0}.get(k, 3)], v=v, W=T[:-1] if k == "short" else T + T[:1] if k == "long" else T, d=[{"zero1": 0.0, "neg": -1.0}.get(k, 1.0)])
        elif f == "CubicLocal":
            e.update(v=v if k != "few" else pts(rng, 6))
        elif f == "LeastSquares":
            e.update(i=[{"degreeneg": -1, "degree8": 8}.get(k, 3), {"count0": 0, "countneg": -3}.get(k, 5)], v=pts(rng, 12))
        elif f == "WLeastSquares":
            v = pts(rng, 3 if k == "few" else 14)
            n = len(v)
            e.update(i=[{"degreeneg": -1, "degree0": 0}.get(k, 3), 6], v=v, L=[1.0] * (n + {"short": -1, "long": 1}.get(k, 0)),
                     W=[[1.0, 0.0, 0.0]] * (0 if k == "good2" else 2), I=[0, {"indexneg": -1, "indexhigh": n}.get(k, n - 1)] if k not in ("good2", "short2") else [], M=[1.0] * (0 if k == "good2" else 1 if k == "zero2" else 2))
        elif f == "ErrApprox":
            e.update(i=[{"degreeneg": -1, "degree0": 0}.get(k, 3)], v=v, d=[{"zero1": 0.0, "neg": -1.0}.get(k, 0.5)])
        elif f in ("FitConic", "FitCubic"):
            if k == "few":
                v = pts(rng, 2)
            n = len(v)
            a, b = {"indexneg": (-1, n - 1), "indexhigh": (n, n + 2), "indexhigh2": (0, n), "reversed": (4, 2), "equal": (3, 3)}.get(k, (0, n - 1 if n else 0))
            e.update(i=[a, b], v=v, W=[Z3 if k == "zerovec" else [1.0, 0.5, 0.0], Z3 if k == "zerovec2" else [1.0, -0.5, 0.0]], d=[0.1])
        elif f == "Rays":
            e.update(v=[[0.0, 0.0, 0.0], Z3 if k == "zerovec" else [1.0, 2.0, 0.0], [4.0, 0.0, 1.0], Z3 if k == "zerovec2" else [1.0, -2.0, 0.0]])
    elif g == "smake":
        S = asurf(rng)
        d = c["seed"] % 2
        U = S["U" if d else "V"]
        cnt = {"count0": 0, "countneg": -1}.get(k, 1)
        G = [[[float(i), float(j), rng.randint(-8, 8) / 16] for j in range(6)] for i in range(5)]
        if f in ("SInsert", "SRemove"):
            e.update(s=S, i=[cnt, d], d=[off(k if k in ("below", "above", "first", "last") else "good", U[0], U[-1], rng)])
            q = S["pu" if d else "pv"]
            if f == "SRemove" and k not in ("below", "above", "first", "last", "nonknot") and len(U) > 2 * q + 2:
                e["d"] = [U[q + 1]]
        elif f == "SRefine":
            L = [off("good", U[0], U[-1], rng)]
            L = [U[0] - 0.25] + L if k == "below" else L + [U[-1] + 0.25] if k == "above" else L
            e.update(s=S, L=[] if k == "empty" else L, i=[0, d])
        elif f == "SElevate":
            e.update(s=S, i=[cnt, d])
        elif f == "Cylinder":
            a0 = rng.choice([0.0, -0.5, 1.0])
            e.update(v=[[1.0, 2.0, 3.0], Z3 if k == "zerovec" else [1.0, 0.0, 0.0], Z3 if k == "zerovec2" else [0.0, 1.0, 0.0]],
                     d=[a0, a0 + {"reversed": -1.0, "equal": 0.0}.get(k, 2.0), {"zero1": 0.0, "neg": -1.0}.get(k, 2.0), {"zero2": 0.0}.get(k, 3.0)])
        elif f == "Ruled":
            C, D = acurve(rng, lo=0.0), acurve(rng, lo=0.0)
            h = C["U"][-1]
            D["U"] = [u / D["U"][-1] * h for u in D["U"]]
            D["U"] = [h if u == max(D["U"]) else u for u in D["U"]]
            if k == "domain":
                D["U"] = [u + 1.0 for u in D["U"]] if c["seed"] % 2 else [u * 2.0 for u in D["U"]]
            e.update(c=C, c2=D)
        elif f == "Revolved":
            C = acurve(rng)
            for q in C["P"]:
                q[0] += 5.0
            e.update(v=[Z3, Z3 if k == "zerovec" else [0.0, 0.0, 1.0]], d=[2.0], c=C)
        elif f in ("SInterp", "SLocal", "SApprox"):
            if k == "none":
                G = []
            elif k == "norow":
                G = [[], []]
            elif k == "ragged" and f == "SLocal":
                G[2] = G[2][:-1]
            elif k == "few":
                G = G[:3]
            elif k == "few2":
                G = [r[:3] for r in G]
            p, q = {"degreeneg": (-1, 2), "degree8": (8, 3), "degree0": (0, 2), "degree8v": (2, 8)}.get(k, (3, 3))
            if k in ("degree8", "degree8v"):
                G = [[[float(i), float(j), rng.randint(-8, 8) / 16] for j in range(12)] for i in range(12)]
            if f == "SInterp":
                e.update(G=G, i=[p, q])
                if k == "degree0":
                    e.update(i=[2, 2])
            elif f == "SLocal":
                e.update(G=G)
            else:
                # enough points for every number of control points
                if k not in ("none", "norow"):
                    G = [[[float(i), float(j), rng.randint(-8, 8) / 16] for j in range(12)] for i in range(11)]
                e.update(G=G, i=[p, q, {"few": q}.get(k, q + 2), {"few2": p}.get(k, p + 3)])
                if k == "degree0":
                    e["i"] = [0, 2, 4, 5]
    for x in ("c", "c2"):
        if x in e:
            e[x] = {"p": e[x]["p"], "U": vp.hx([float(u) for u in e[x]["U"]]), "P": vp.hx(e[x]["P"])}
    if "s" in e:
        S = e["s"]
        e["s"] = {"pu": S["pu"], "pv": S["pv"], "U": vp.hx(S["U"]), "V": vp.hx(S["V"]), "P": vp.hx(S["P"])}
    for x in ("d", "L", "M", "v", "W", "G"):
        if x in e:
            e[x] = vp.hx(e[x])
    return e


def calls(tier, groups, name):
    cs, st = cases("args", 6)
    if tier != "quick":
        cs = [dict(c, seed=c["seed"] + 6 * j) for c in cs for j in range(10)]
    out = []
    for c in cs:
        if c["g"] not in groups:
            continue
        e = event(c, vp.rng_for(name, ckey("args", c)))
        out.append({"key": ckey("args", c), "ev": [e]})
    return {"module": "TraceArgs", "scenarios": out, "stats": st}


def plan(tier):
    return calls(tier, ("objects", "sobjects", "params", "ders", "sparams", "sders", "basis"), "a01")
