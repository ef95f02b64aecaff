"""Repeat a recorded violation:  python -m sim.replay FILE   (exit 1 = reproduced)."""
import json
import sys

from . import boot


def main():
    boot.boot()
    from . import runner
    from .main import get_check
    doc = json.load(open(sys.argv[1]))
    check = get_check(doc["property"])
    if doc["key"] == "hashseed":
        a = runner.digests_elsewhere(check, doc["seed"], doc["tier"], [doc["index"]], 1)
        b = runner.digests_elsewhere(check, doc["seed"], doc["tier"], [doc["index"]], 12345)
        print("digest with hash seed 1:", a, " with 12345:", b)
        return 1 if a != b else 0
    res = runner.run_case(check, doc["case"])
    hit = runner.same_violation(res, doc["key"])
    for v in res.get("violations", ()):
        print(f"violation {v['key']}: {v['msg']}")
    if doc.get("digest") and res.get("digest") != doc["digest"]:
        print(f"note: event digest {res.get('digest')} differs from recorded {doc['digest']}")
    print("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
