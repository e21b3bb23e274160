#!/usr/bin/env python3
"""check.py PROPERTY: decides one property; exit 0 held, 1 violated, 2 no answer."""
import importlib, json, os, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vlib

def replay(prop, path):
    """runs the scenario of a replay file again"""
    r = json.load(open(path))
    ctx = vlib.Ctx(prop, "quick", 1)
    try:
        t = ctx.run_driver([r["scenario"]], "replay")
        ok, matched, _, out = ctx.judge(r["spec"], r["config"], t)
        lines = open(t).read().splitlines()
        print("%d of %d events accepted by %s" % (len(lines) if ok else matched or 0, len(lines), r["spec"]))
        if not ok:
            print("rejected: " + (lines[matched] if matched is not None and matched < len(lines) else out[-1500:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 0 if ok else 1
    finally:
        ctx.close()

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    import props
    fn, level = props.CHECKS[prop]
    ctx = vlib.Ctx(prop, tier, seed)
    rc = 0
    try:
        fn(ctx)
    except vlib.Violation as v:
        ctx.violations.append(str(v))
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        ctx.close()
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if rc != 2:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
              "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                           "traces_validated_against_impl": ctx.traces, "impl_events": ctx.events,
                           "events_by_kind": ctx.event_counts, "models": ctx.models,
                           "samples": ctx.samples or ctx.violations, "notes": ctx.notes},
              "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d spec states, %d traces (%d events) accepted, %.1f s" % (
            prop, "violated" if rc else "held", ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    return rc

if __name__ == "__main__":
    sys.exit(main())
