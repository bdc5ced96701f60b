"""replay.py <file>: runs a recorded counterexample against the plain code of
/repo (no shims, no solver).  Exit 1 = it reproduces, 0 = it does not."""
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from engine import runner
    import checks.all as allc

    allc.load(json.load(open(sys.argv[1]))["property"])
    sys.exit(runner.replay_file(sys.argv[1]))
