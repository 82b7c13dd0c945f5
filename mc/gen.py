"""writes properties.jsonl and MANIFEST.json from the check modules (python -m mc.gen)"""
import glob
import importlib
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props, checks = [], []
    for f in sorted(glob.glob(os.path.join(ROOT, "mc", "checks", "c[0-9]*.py"))):
        m = importlib.import_module("mc.checks." + os.path.basename(f)[:-3])
        p = m.PROP
        assert len(p["title"]) <= 80, p["id"]
        props.append(p)
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.sh %s quick" % p["id"],
            "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": m.TECH,
            "level": m.LEVEL,
            "level_note": m.NOTE,
        })
    na = json.load(open(os.path.join(ROOT, "mc", "not_applicable.json")))
    props += [e["prop"] for e in na]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy' && mkdir -p evidence",
        "checks": checks,
        "not_applicable": [{"property": e["prop"]["id"], "reason": e["reason"]} for e in na],
        "notes": "Every check executes the unmodified code of /repo's working tree (pure Python, no hook). ./run.sh <ID> [quick|thorough]; ./run.sh --replay <file> repeats the deterministic enumeration that found a violation.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
