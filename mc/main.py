import importlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

from mc import core


def load_known():
    p = os.path.join(core.ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


def matches(f, v):
    if f["kind"] != v["kind"]:
        return False
    for k, want in f.get("match", {}).items():
        if v["context"].get(k) != want:
            return False
    return True


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fh:
            rep = json.load(fh)
        pid, tier = rep["property"], rep["tier"]
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.environ.get("MC_REPO", "/repo")
    np.seterr(all="ignore")
    import aerokit

    assert os.path.realpath(aerokit.__file__).startswith(os.path.realpath(repo) + "/"), aerokit.__file__
    mod = importlib.import_module("mc.checks." + pid.lower())
    ck = core.Check(pid, mod.LEVEL, tier, seed)
    core.arm(600 if tier == "quick" else 6000)
    try:
        with core.quiet():
            mod.run(ck)
        core.disarm()
    except Exception as e:  # the library raised where the check does not expect it
        core.disarm()
        ck.violation("uncaught", error="%s: %s" % (type(e).__name__, str(e)[:300]), where=traceback.format_exc(limit=-6)[-1500:])
    except core.Deadline as e:
        core.disarm()
        ck.violation("deadline", error=str(e), where=traceback.format_exc(limit=-6)[-1500:])
    known = [f for f in load_known() if f["property"] == pid]
    seen, new = [], []
    for v in ck.viol:
        for f in known:
            if matches(f, v):
                if f not in seen:
                    seen.append(f)
                break
        else:
            new.append(v)
    for f in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": ck.coverage(getattr(mod, "RULE", mod.PROP["quantifier"]["text"])),
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(time.time() - ck.t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    path = os.path.join(core.ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(core.jsonable(ev), f, indent=1)
    os.replace(path + ".tmp", path)
    cov = ev["coverage"]
    print("%s tier=%s evaluations=%d distinct=%d states=%s transitions=%s wall=%.1fs" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], cov.get("states"), cov.get("transitions"), ev["wall_s"]))
    if new:
        rp = os.path.join(core.ROOT, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": new,
                       "how": "./run.sh --replay %s repeats the same deterministic enumeration; each violation names the call, arguments or history that fails" % rp}, f, indent=1)
        for v in new[:8]:
            print("  %s %s" % (v["kind"], json.dumps(v["context"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
