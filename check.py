#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of redscript on /repo's working tree.

Each property is a list of stages (lib/stages.py). A stage runs TLC on a module of spec/ and binds it to the code: it replays
the behaviours TLC emits into the real code (harness/), or has TLC judge what the real code did.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed (no answer)."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import stages
from stages import VERIF, WORK


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ctx = stages.Ctx(prop, tier, seed)
    try:
        for st in stages.PROPS[prop]["stages"](tier):
            st(ctx)
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR property={prop} {e}")
        return 2
    known = stages.known_findings(prop)
    new, seen = [], {}
    for v in ctx.violations:
        k = next((k for k in known if k["match"](v)), None)
        if k:
            seen.setdefault(k["text"], 0)
            seen[k["text"]] += 1
        else:
            new.append(v)
    for text, n in seen.items():
        print(f"KNOWN-FINDING: property={prop} {text} ({n} cases)")
    cov = {
        "states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:6], "models": ctx.models,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": stages.PROPS[prop]["level"], "coverage": cov,
          "assumptions": stages.PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        d = os.path.join(WORK, "violations")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(new[:20], f, indent=1)
        for v in new[:5]:
            print("  " + v["stage"] + ": " + v["what"][:600])
        if len(new) > 5:
            print(f"  ... {len(new)} in all")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} tier={tier} states={ctx.states} traces={ctx.traces} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
