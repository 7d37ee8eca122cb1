"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])

from pbt import boot  # noqa: E402

boot.setup()

from pbt import runner  # noqa: E402


def main() -> int:
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--self-test", action="store_true", help="only check that everything can be imported")
    p.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    p.add_argument("--budget", type=float, help="seconds after which no further cases are generated")
    p.add_argument("--scale", type=float, default=1.0, help="factor for the number of cases")
    p.add_argument("--part", help="only run this part of the check")
    p.add_argument("--replay", metavar="FILE", help="run only the case in FILE")
    args = p.parse_args()
    if args.self_test:
        return runner.self_test()
    if args.property is None:
        p.error("which property?")
    if args.replay:
        return runner.replay(args.property, args.replay)
    budget = args.budget or (120.0 if args.tier == "quick" else 600.0)
    return runner.run_property(args.property, args.tier, args.seed, args.jobs, budget, args.scale, args.part)


if __name__ == "__main__":
    sys.exit(main())
