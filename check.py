#!/usr/bin/env python3
"""check.py P07 [--tier quick|thorough] [--seed N] [--budget S] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        from vf import core

        core.worker_main(sys.argv[2:])
        sys.exit(0)

    if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("VF_REEXEC"):
        os.environ["VF_REEXEC"] = "1"
        os.execv(PY, [PY, "-B", *sys.argv])

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ns = ap.parse_args()
    from vf import core

    sys.exit(core.master(ns.prop.upper(), ns.tier, ns.seed, ns.replay, ns.budget, ns.v))
