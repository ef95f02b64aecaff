import argparse
import json
import os
import sys

from . import boot


def get_check(cid):
    import importlib
    return importlib.import_module(f"sim.checks.{cid.lower()}").CHECK


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--digests")
    ap.add_argument("--case", type=int)
    ap.add_argument("--serve", action="store_true")
    a = ap.parse_args()
    boot.boot()
    from . import runner
    check = get_check(a.check)
    if a.serve:
        runner.serve(check)
        return 0
    if a.digests is not None:
        out = {}
        for i in map(int, filter(None, a.digests.split(","))):
            case = check.gen(runner.case_rng(a.seed, check.id, i), i, a.tier)
            out[str(i)] = runner.run_case(check, case).get("digest")
        print("DIGESTS " + json.dumps(out))
        return 0
    if a.case is not None:
        case = check.gen(runner.case_rng(a.seed, check.id, a.case), a.case, a.tier)
        print(json.dumps(case, indent=1))
        print(json.dumps(runner.run_case(check, case), indent=1))
        return 0
    return runner.main(check, a.seed, a.tier)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
