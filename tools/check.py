#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decide one property on /repo's current tree."""
import importlib, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp

EVID = os.path.join(vp.VERIF, "evidence")


def load_known(prop):
    """known_findings.txt: lines  KNOWN property=<id> key=<regex> fail=<regex> :: text"""
    res = []
    fn = os.path.join(vp.VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) fail=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4).strip()))
    return res


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module("props." + prop.lower())
    try:
        driver = vp.build(capi=getattr(mod, "CAPI", False))
        run = mod.plan(tier)                 # -> dict(module=..., scenarios=[{key, ev}], stats=..., samples=...)
        scs = run["scenarios"]
        if not scs:
            raise vp.MachineryError("no scenarios generated")
        groups = {}
        for i, s in enumerate(scs):
            s["id"] = i + 1
            groups.setdefault(s.get("module", run.get("module")), []).append(s)
        fails, tstats = [], {"generated": 0, "distinct": 0}
        events = 0
        complete = True
        traces = {}
        t1 = time.time()
        for g, ss in groups.items():
            tr, full = vp.execute(driver, ss, limit=run.get("limit", 30))
            complete = complete and full
            for t in tr:
                traces[t["id"]] = t
            events += sum(len(t["ev"]) for t in tr)
            t2 = time.time()
            f, st = vp.judge(g, tr)
            vp.log(f"[{prop}] {g}: {len(tr)} scenarios, replay {t2 - t1:.1f}s, judged in {time.time() - t2:.1f}s")
            t1 = time.time()
            fails += [(g,) + x for x in f]
            tstats["generated"] += st["generated"]
            tstats["distinct"] += st["distinct"]
        by = {s["id"]: s for s in scs}
        known = load_known(prop)

        def match(key, name):
            return [k for k in known if k[0].search(key) and k[1].search(name)]
        # a rejection is reported only if it repeats; rejections no known finding explains come first
        confirmed = []
        if fails:
            for g in groups:
                fresh = sorted({f[1] for f in fails if f[0] == g and not match(by[f[1]]["key"], f[4])})
                old = sorted({f[1] for f in fails if f[0] == g} - set(fresh))
                ids = fresh[:300] + old
                if not ids:
                    continue
                again, _ = vp.execute(driver, [by[i] for i in ids], limit=run.get("limit", 30))
                f2, _ = vp.judge(g, again)
                rep = {(x[0], x[1]) for x in f2}
                confirmed += [f for f in fails if f[0] == g and (f[1], f[2]) in rep]
            if not confirmed:
                raise vp.MachineryError("rejections did not repeat: " + repr(fails[:5]))
        viol, kn = [], {}
        for g, sid, ev, op, name in confirmed:
            key = by[sid]["key"]
            hit = match(key, name)
            if hit:
                kn.setdefault(hit[0][2], []).append(key)
            else:
                viol.append((sid, ev, op, name))
        if os.environ.get("VP_ALL"):
            for sid, ev, op, name in viol:
                vp.log("ALL", by[sid]["key"], "ev", ev, op, name)
        if not complete and not confirmed:
            raise vp.MachineryError("driver stopped early without a rejected event")
        paths = []
        if viol:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for sid, ev, op, name in viol:
                if (op, name) in seen or len(paths) >= 20:
                    continue
                seen.add((op, name))
                p = os.path.join(rd, f"{prop}-{len(paths) + 1}.json")
                with open(p, "w") as f:
                    json.dump({"property": prop, "key": by[sid]["key"], "event": ev, "op": op, "failed": name,
                               "module": by[sid].get("module", run.get("module")),
                               "scenario": {"id": sid, "ev": by[sid]["ev"]}, "trace": traces.get(sid)}, f, indent=1)
                paths.append((p, by[sid]["key"], op, name))
        ms = run.get("stats", {"generated": 0, "distinct": 0})
        ev = {
            "property": prop, "tier": tier, "seed": vp.SEED, "level": run.get("level", "model_checking"),
            "coverage": {
                "states": ms["distinct"] + tstats["distinct"], "transitions": ms["generated"] + tstats["generated"],
                "traces_validated_against_impl": len(traces),
                "samples": [{"key": s["key"], "ops": [x["op"] for x in s["ev"]][:12]} for s in scs[:: max(1, len(scs) // 6)][:6]],
                "model_states": ms["distinct"], "events_judged": events,
                "by_operation": count_ops(scs), "known_findings_seen": {k: len(v) for k, v in kn.items()},
                "rejected": [{"replay": p, "key": k, "op": o, "failed": n} for p, k, o, n in paths],
            },
            "assumptions": run.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for text, keys in sorted(kn.items()):
            print(f"KNOWN-FINDING: property={prop} {text} [{len(keys)} scenario(s), e.g. {keys[0]}]")
        for p, k, o, n in paths:
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {o}: {n}  ({k})")
        print(f"{prop} {tier}: {len(traces)} traces, {events} events judged, {ms['distinct'] + tstats['distinct']} states, {time.time() - t0:.1f}s: "
              + ("VIOLATED" if viol else "held"))
        return 1 if viol else 0
    except vp.MachineryError as e:
        print("ERROR (no verdict): " + str(e), file=sys.stderr)
        return 2


def count_ops(scs):
    c = {}
    for s in scs:
        for e in s["ev"]:
            c[e["op"]] = c.get(e["op"], 0) + 1
    return c


if __name__ == "__main__":
    sys.exit(main())
