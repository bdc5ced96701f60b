"""check.py <property> [--tier quick|thorough] [--only harness] [-v]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--deadline", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from engine import runner
    import checks.all as allc

    allc.load(a.prop)
    sys.exit(
        runner.run_check(a.prop, a.tier, jobs=a.jobs, deadline_s=a.deadline or (780 if a.tier == "quick" else 3 * 3600), only=a.only, verbose=a.v)
    )
