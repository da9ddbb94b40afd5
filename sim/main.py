"""Entry point of every check: ``check Cxx [--replay FILE]``."""

import argparse
import importlib
import json
import os
import sys
import time
import traceback


def load(pid):
    return importlib.import_module(f"sim.checks.{pid.lower()}").CHECK


def known_findings(pid):
    from sim.boot import VERIF

    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [x for x in json.load(f)["findings"] if x.get("property") == pid]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of runs")
    ap.add_argument("--jobs-scale", type=float, default=1.0)
    ap.add_argument("--digests", help="write the event-log digest of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from sim import runner

    check = load(a.property)
    if a.replay:
        rec, got = runner.replay(check, a.replay)
        want = rec["violation"]
        same = got["kind"] == want["kind"] and got["msg"] == want["message"]
        exact = same and (rec["event_log_digest"] in (None, got["digest"]))
        if got["kind"]:
            print(f"{got['kind']}: {got['msg']}")
            print("reproduced exactly" if exact else "reproduced, but not identically")
            print(f"VIOLATION property={check.id} replay={a.replay}")
            sys.exit(1)
        print("the recorded violation does not occur on this tree" + (f" ({got['why']})" if got["why"] else ""))
        sys.exit(0)

    res = runner.run_check(check, a.tier, a.seed, a.scale, a.jobs_scale, bool(a.digests))
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump(res["digests"], f, sort_keys=True, indent=0)
    if not a.no_evidence:
        write_evidence(check, a, res, time.time() - t0)
    for k in known_findings(check.id):
        if k.get("status") == "known":
            print(f"KNOWN-FINDING: property={check.id} {k['what']}")
    print(
        f"{check.id} {check.title}: {res['runs']} runs, {res['states']} distinct tree states, "
        f"{sum(v for k, v in res['stats'].items() if k.startswith('fault_'))} faults fired, {time.time() - t0:.1f} s"
    )
    print("  legs: " + ", ".join(f"{k} {v['runs']} runs {v['wall_s']} s" for k, v in res["legs"].items()))
    if res["stops"]:
        print("  runs ended early by something outside this property:", json.dumps(res["stops"]), res.get("stop_samples", [])[:2])
    if res["violations"]:
        v = res["violations"][0]
        with open(res["replay"]) as f:
            rec = json.load(f)
        print(f"  {rec['violation']['kind']}: {rec['violation']['message']}")
        print(f"  leg {v['leg']}, seed {a.seed}, run {v['index']}, {len(rec['trace'].get('steps', []))} steps after minimising")
        print(f"VIOLATION property={check.id} replay={res['replay']}")
        sys.exit(1)
    sys.exit(0)


def write_evidence(check, a, res, wall):
    from sim.runner import EVIDENCE

    os.makedirs(EVIDENCE, exist_ok=True)
    st = res["stats"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault_")}
    ev = {
        "property": check.id,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "wall_s": round(wall, 2),
        "violations": len(res["violations"]),
        "assumptions": list(check.assumptions),
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": res["distinct_runs"],
            "rule": check.rule + " A run is counted as distinct and non-trivial when the digest of its event log "
            "(every statement kind and table, commit, rollback, fault and outcome, in order) is new in this invocation.",
            "samples": res["samples"][:3],
            "legs": res["legs"],
            "cut_short_by_wall_clock": res["cut"],
            "runs_per_hour": int(res["runs"] / max(wall, 0.001) * 3600),
            "seeds": f"derived from VERIF_SEED={a.seed}, the check, the leg and the run index: one per run",
            "simulated_time": {
                "unit": "database statements issued by the code under test (the code has no clocks or timers; a statement is the tick)",
                "ticks": st.get("sim_statements", 0),
                "requests": st.get("requests", 0),
            },
            "faults_fired": faults,
            "distinct_tree_states": res["states"],
            "state_measure": "family and decoded tree shape (parent/order structure with sort keys) after a request",
            "runs_ended_early_by_other_properties": res["stops"],
            "counters": {k: v for k, v in sorted(st.items()) if not k.startswith("fault_")},
            "real_code": check.real,
            "stubbed": check.stub,
        },
    }
    ev["coverage"].update(check.extra_evidence())
    with open(os.path.join(EVIDENCE, f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
