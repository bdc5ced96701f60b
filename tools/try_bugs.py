"""Author's tool: apply each planted change to /repo in turn, run the check of its property
(or the ones named), undo.  usage: try_bugs.py [--props C07,C12] [ids...]"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args and args[0] == "--props":
    props = args[1].split(",")
    args = args[2:]
for b in sorted(os.listdir(VERIF + "/seeded")):
    d = os.path.join(VERIF, "seeded", b)
    if args and b not in args:
        continue
    meta = json.load(open(d + "/meta.json"))
    ps = props or [meta["property"]]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(b, "DOES NOT APPLY")
        continue
    try:
        for p in ps:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "check.py", p], cwd=VERIF, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-32s %s exit=%d %5.1fs %s" % (b, p, r.returncode, time.time() - t, (v or r.stdout.splitlines()[-2:] + r.stderr.splitlines()[-2:])[0][:200]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
