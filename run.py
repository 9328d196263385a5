#!/opt/venv/bin/python
"""Runs one check: run.py <property> [--tier quick|thorough] [--replay FILE]."""

import argparse
import importlib
import json
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=None)
    parser.add_argument("--replay")
    parser.add_argument("--shard", type=int)
    parser.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    args = parser.parse_args()

    if os.environ.get("PYTHONHASHSEED") != "0":  # deterministic set orders
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, *sys.argv])

    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"

    from mc import build, core

    sys.path.insert(0, str(build.build()))
    import pyvrp

    where = pathlib.Path(pyvrp.__file__)
    assert build.WORK in where.parents, where

    module = importlib.import_module(f"mc.props.{args.property.lower()}")
    only = args.shard
    if args.replay:
        replay = json.loads(pathlib.Path(args.replay).read_text())
        tier, only = replay["tier"], replay["shard"]

    budget = 700 if tier == "quick" else 12 * 3600
    hang = getattr(module, "HANG", 240)
    if tier == "thorough":
        hang *= 10
    res = core.explore(module, tier, seed, budget, args.jobs, hang, only)
    sys.exit(core.report(module, tier, seed, res))


if __name__ == "__main__":
    main()
