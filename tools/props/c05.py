"""Knot removal."""
from .common import *


def tag(p, m):
    return ("full" if m == p else "part") + ("-even" if (p - m) % 2 == 0 else "-odd")


def cls(sc):
    """multiplicity of the knot (as a fraction of the degree) and copies asked for, per removal"""
    K = list(sc["shape"]["K"])
    p = sc["shape"]["p"]
    out = []
    for h in sc["hist"]:
        if h["op"] == "InsertKnot":
            K = sorted(K + [h["u"]] * h["t"])
        elif h["op"] == "Refine":
            K = sorted(K + list(h["X"]))
        elif h["op"] == "RemoveKnot":
            m = K.count(h["u"])
            out.append(f"[{tag(p, m)} m{m} p{p} t{h['t']}]")
            for _ in range(h["t"]):
                K.remove(h["u"])
    return "".join(out)


def plan(tier):
    quick = tier == "quick"
    a, st = machine(["Insert", "Remove"], maxp=4, spans=2, depth=2, offs="{3}")
    b, st2 = machine(["Insert", "Remove"], minp=5, maxp=6, spans=1, depth=2, offs="{3}")
    st = add_stats(st, st2)
    scs = [s for s in a + b if s["hist"][1]["op"] == "RemoveKnot"]
    out = []
    for i, s in enumerate(scs):
        for k in range(2 if quick else 8):
            v, style = VARIANTS[(i + k) % 5], ("rat", "poly", "planar", "rat", "same")[(i + k) % 5]
            out.append({"key": f"{shape_key(s)} {hist_key(s)} {cls(s)} {v} {style}", "ev": history(s, v, vp.rng_for("c05", i, k), True, style=style)})
    # knots that are not redundant stay (the shape may not change), whatever is asked
    sh, st3 = shapes(1, 5, 3, offs="{}", ends='{"clamped"}')
    st = add_stats(st, st3)
    for i, (p, K, spans, e, us) in enumerate(by_shape(sh)):
        v = VARIANTS[i % 5]
        g = gridmap(v, spans)
        for u in sorted(set(K[p + 1:-p - 1])):
            for t in range(1, K.count(u) + 1):
                ev = [styled_curve(p, [g(x) for x in K], vp.rng_for("c05n", i, u), ("rat", "poly")[i % 2]),
                      {"op": "RemoveKnot", "c": 1, "u": vp.hexf(float(g(u))), "t": t, "must": False}]
                m = K.count(u)
                out.append({"key": f"{kkey(p, K)} keep u={u} [{tag(p, m)} m{m} p{p} t{t}] {v}", "ev": ev})
    # RemoveExcessiveKnots
    for i, s in enumerate(scs):
        if s["hist"][0]["op"] != "InsertKnot" or (quick and i % 3):
            continue
        h = history({"shape": s["shape"], "hist": s["hist"][:1]}, "int", vp.rng_for("c05x", i), True, style="rat")
        h.append({"op": "RemoveExcessive", "c": 2})
        m = s["shape"]["K"].count(s["hist"][0]["u"]) + s["hist"][0]["t"]
        out.append({"key": f"{shape_key(s)} {hist_key({'hist': s['hist'][:1]})} excessive [{tag(s['shape']['p'], m)} m{m} p{s['shape']['p']}]", "ev": h})
    return {"module": "TraceCurve", "scenarios": out, "stats": st}
