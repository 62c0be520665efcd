"""Questions of the other properties, asked through the C interface: a part of each property's scenarios, spread over
the kinds of operations in them and over their list."""
import importlib, multiprocessing, os, re
import vp

# what the C interface does not offer, or offers with other arguments
LIBRARY_ONLY = {"AllParamsOfPoint", "LengthRange", "CheckCurve", "WLeastSquares", "Extend", "KvClampInsert", "KvMidInsert", "KvMerge2", "KvMergeAll", "SIso", "SSdf", "SOBB",
                "SAllParams", "SCheck", "SParamGSA", "Octree"}


def _plan(a):
    name, tier = a
    r = importlib.import_module("props." + name).plan(tier)
    for s in r["scenarios"]:
        s["module"] = s.get("module", r.get("module"))
    return r["scenarios"], r.get("stats", {"generated": 0, "distinct": 0})


def known(name):
    """keys of other properties' known findings: their questions are not asked again"""
    fn = os.path.join(vp.VERIF, "known_findings.txt")
    return [re.compile(m.group(1)) for m in (re.match(r"KNOWN property=" + name.upper() + r" key=(\S+) fail", l) for l in open(fn)) if m]


def through_c(sources, tier):
    """sources: {property: scenarios per kind}"""
    quick = tier == "quick"
    with multiprocessing.get_context("fork").Pool(4) as pool:
        got = pool.map(_plan, [(n, "quick") for n in sources], chunksize=1)
    out, st = [], {"generated": 0, "distinct": 0}
    for (name, per), (scs, s) in zip(sources.items(), got):
        st = {k: st[k] + s[k] for k in st}
        no = known(name)
        kinds = {}
        for x in scs:
            ops = frozenset(e["op"] for e in x["ev"]) - {"DefCurve", "DefSurf"}
            if ops and not ops <= LIBRARY_ONLY and not any(r.search(x["key"]) for r in no):
                kinds.setdefault(ops, []).append(x)
        for ops, xs in sorted(kinds.items(), key=lambda k: sorted(k[0])):
            n = per if quick else len(xs)
            for j in sorted(vp.rng_for("viac", name, sorted(ops)).sample(range(len(xs)), min(n, len(xs)))):
                x = xs[j]
                out.append({"key": name.upper() + " " + x["key"], "ev": x["ev"], "module": x["module"]})
    return {"scenarios": out, "stats": st, "assumptions": ["the C interface's sources in dotnet/CAPI are compiled with the library's and the driver asks through them; what the C interface does not offer is asked of the library"]}
