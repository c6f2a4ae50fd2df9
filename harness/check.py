"""check.py PROPERTY - decides one property.  Exit 0: it held; 1: VIOLATION; 2: the machinery failed."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import suites, tlc

VERIF = os.path.dirname(HERE)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = {}
    with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
        for line in f:
            d = json.loads(line)
            if d["status"] == "known":
                known[d["id"]] = d
    run = suites.Run(prop, tier, seed)
    suites.SUITES[prop](run)

    bad, seen = [], {}
    for m in run.marks:
        if prop not in m["blame"] and "*" not in m["blame"]:
            continue
        kf = m.get("kf", "")
        if kf and kf in known and prop == known[kf]["property"]:
            seen[kf] = seen.get(kf, 0) + 1
        else:
            bad.append(m)
    for kf in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {kf}: {known[kf]['what']} ({seen[kf]} times in this run)")
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
           "events_validated": run.events, "histories_from_model": run.from_model, "model_states": run.model_states,
           "samples": run.samples[:3], "known_findings_seen": seen, "detail": run.detail}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(bad), "assumptions": run.assumptions}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {run.traces} traces, {run.events} events, {run.states} states, {run.transitions} transitions, {time.time() - t0:.1f} s")
    if bad:
        bad.sort(key=lambda m: (m.get("i", 0), len(json.dumps(m.get("case")))))
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": len(bad), "first": bad[0], "others": [dict(m, case=None) for m in bad[1:40]]}, f, indent=1)
        m = bad[0]
        print(f"  {m['cl']} at step {m.get('i')} of {m.get('id')}: {str(m.get('detail'))[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except tlc.Machinery as e:
        print("MACHINERY:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
