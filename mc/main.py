import argparse
import importlib
import json
import os
import sys
import time

T0 = time.monotonic()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


def import_impl():
    import spherical_functions as sf
    if not os.path.realpath(sf.__file__).startswith("/repo/"):
        print(f"ERROR: imported {sf.__file__}, not /repo's working tree")
        sys.exit(2)
    return sf


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--family")
    args = ap.parse_args()
    pid = args.property
    os.makedirs(EVID, exist_ok=True)
    budget = float(os.environ.get("VERIF_BUDGET", "820" if args.tier == "quick" else "7000"))

    import warnings
    warnings.simplefilter("ignore")
    replay_path = os.path.join(EVID, f"{pid}.replay.json")

    def violation(fails, names):
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "tier": args.tier, "violations": fails}, f, indent=1)
        for v in fails[:5]:
            print(f"  {v['family']}: {json.dumps(v['item'])[:300]}: {v['message'][:1500]}")
        print(f"VIOLATION property={pid} replay={replay_path}")
        sys.stdout.flush()

    try:
        import_impl()
    except SystemExit:
        raise
    except BaseException as e:
        violation([{"family": "import", "item": "import spherical_functions", "message": f"{type(e).__name__}: {e}"}], None)
        sys.exit(1)
    t_import = time.monotonic() - T0

    from . import core
    mod = importlib.import_module(f"mc.{pid.lower()}")
    if args.replay:
        fams = {f.name: f for t in ("quick", "thorough") for f in mod.families(t)}
        with open(args.replay) as f:
            rp = json.load(f)
        bad = 0
        for v in rp["violations"]:
            fam = fams.get(v["family"])
            if fam is None:
                print("no family", v["family"])
                continue
            msg = core._execute(fam, v["item"], core.Recorder())
            print(f"{v['family']} {json.dumps(v['item'])[:300]}: {msg or 'holds'}")
            bad += msg is not None
        if bad:
            print(f"VIOLATION property={pid} replay={args.replay}")
        sys.exit(1 if bad else 0)

    fams = mod.families(args.tier)
    if args.family:
        fams = [f for f in fams if f.name == args.family]
    rec, done, total, error = core.explore(fams, T0 + budget)
    kf = known_findings(pid)
    fails, known_hit = [], []
    for f, k, msg in sorted(rec.fails, key=lambda x: (x[0], x[1])):
        v = {"family": fams[f].name, "item": fams[f].items[k], "message": msg}
        hit = [x for x in kf if x["family"] == v["family"] and x["item"] == json.loads(json.dumps(v["item"]))
               and x["message_contains"] in msg]
        (known_hit if hit else fails).append(v)
    for v in known_hit:
        print(f"KNOWN-FINDING: property={pid} {v['family']} {json.dumps(v['item'])}: {v['message'][:300]}")
    wall = time.monotonic() - T0
    nstates = rec.states + len(rec.state_keys)
    ev = {
        "property": pid, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": nstates, "transitions": rec.transitions, "traces_validated_against_impl": rec.traces,
            "observations_compared": rec.comparisons,
            "distinct_outcomes": len(rec.outcomes),
            "items_enumerated": total, "items_executed": done,
            "families": {f.name: {"items": len(f.items), "space": f.note, "worker_s": round(rec.seconds.get(i, 0.0), 1)} for i, f in enumerate(fams)},
            "samples": rec.samples[:8] or [json.dumps(fams[0].items[0])],
            "exhaustive": bool(done >= total and not error),
            "largest_error_over_tolerance": rec.maxerr, "largest_error_at": rec.maxerr_at,
            "import_s": round(t_import, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(fails),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {args.tier}: {done}/{total} items, {nstates} states, {rec.transitions} transitions, {rec.traces} traces, "
          f"{rec.comparisons} comparisons, {len(rec.outcomes)} outcomes, worst err/tol {rec.maxerr:.3g} "
          f"({rec.maxerr_at[:80]}), {wall:.1f} s")
    if fails:
        violation(fails, fams)
        sys.exit(1)
    if error:
        print("ERROR:", error[-3000:])
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
