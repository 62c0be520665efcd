"""Basis functions, spans, multiplicities."""
from .common import *


def plan(tier):
    quick = tier == "quick"
    a, st = shapes(1, 4, 3, ends='{"clamped", "open", "half"}')
    b, st2 = shapes(5, 7, 2, ends='{"clamped", "open", "half"}')
    st = add_stats(st, st2)
    if not quick:
        c, st3 = shapes(5, 7, 3, ends='{"clamped", "open"}', maxmult=7)
        st = add_stats(st, st3)
        b = b + c
        d, st3 = shapes(1, 3, 4, offs="{1, 2, 3, 4, 5, 6, 7}", ends='{"clamped", "open", "half"}')
        st = add_stats(st, st3)
        b = b + d
    base = a + b
    if quick:
        base = stride(base, 1500, "k01")
    out = []
    for i, s in enumerate(base):
        for v in ([VARIANTS[i % 5]] if quick else ["int", "nonuni", VARIANTS[2 + i % 3]]):
            g = wide(gridmap(v, s["spans"]), s["spans"])
            U = vp.hx([float(g(x)) for x in s["K"]])
            # one scenario carries one parameter; every derivative order up to the degree
            out.append({"key": f"{kkey(s['p'], s['K'])} u={s['u']} {v}",
                        "ev": [{"op": "Basis", "p": s["p"], "U": U, "u": vp.hexf(float(g(s["u"]))), "d": s["p"]}]})
    # long vectors, parameters at and next to knots
    lg, st9 = longshapes(80 if quick else 600, spans=16, seed=11)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(lg):
        v = anyvar(i)
        g = gridmap(v, spans)
        U = [float(g(x)) for x in K]
        rng = vp.rng_for("k01l", i)
        brk = sorted(set(K))
        pick = brk if not quick else rng.sample(brk, min(len(brk), 6))
        ps = [float(g(x)) for x in pick] + [near(float(g(x)), U[0], U[-1], i + k) for k, x in enumerate(pick[:3])]
        out.append({"key": f"{kkey(p, K)} long {v}", "ev": [{"op": "Basis", "p": p, "U": vp.hx(U), "u": vp.hexf(x), "d": p} for x in ps]})
    # span search, multiplicity and basis values on every vector of the enumeration, at every distinguished position
    for i, (p, K, spans, e, us) in enumerate(by_shape(a + b)):
        v = VARIANTS[i % 5]
        g = wide(gridmap(v, spans), spans)
        U = [float(g(x)) for x in K]
        ps = [float(g(x)) for x in us]
        ps += [near(x, U[p], U[-p - 1], i + k) for k, x in enumerate(ps[:2])]
        out.append({"key": f"{kkey(p, K)} spans {v}", "ev": [{"op": "Spans", "p": p, "U": vp.hx(U), "us": vp.hx(ps)}]})
    lg, st9 = longshapes(150 if quick else 2500, minp=1, spans=24, seed=12)
    st = add_stats(st, st9)
    for i, (p, K, spans, e, us) in enumerate(lg):
        v = anyvar(i)
        g = gridmap(v, spans)
        out.append({"key": f"{kkey(p, K)} longspans {v}", "ev": [{"op": "Spans", "p": p, "U": vp.hx([float(g(x)) for x in K]), "us": vp.hx([float(g(x)) for x in us])}]})
    for p in range(0, 8):
        for j in range(0, 9):
            out.append({"key": f"bernstein p{p} {j}/8", "ev": [{"op": "Bernstein", "p": p, "u": vp.hexf(j / 8)}]})
    for p in range(1, 8):
        rng = vp.rng_for("horner", p)
        a = [rng.randint(-40, 40) / 8 for _ in range(p + 1)]
        for t in (0.0, 0.25, 0.3, 1.0, -1.5, 2.0):
            out.append({"key": f"horner p{p} {t}", "ev": [{"op": "Horner", "p": p, "a": vp.hx(a), "u": vp.hexf(t)}]})
        out.append({"key": f"powermatrices p{p}", "ev": [{"op": "PowerMatrices", "p": p}]})
        for q in range(1, 5):
            m = [[rng.randint(-40, 40) / 8 for _ in range(q + 1)] for _ in range(p + 1)]
            for u, t in ((0.0, 1.0), (0.25, 0.5), (0.7, 0.3), (1.0, 0.0)):
                out.append({"key": f"horner2 p{p} q{q} {u},{t}", "ev": [{"op": "Horner2", "p": p, "q": q, "a": vp.hx(m), "u": vp.hexf(u), "t": vp.hexf(t)}]})
    return {"module": "TraceBasis", "scenarios": out, "stats": st}
