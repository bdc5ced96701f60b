"""Author's tool: turn a described change into /verif/seeded/<id>/ after confirming, in a
scratch copy of /repo, that it applies, passes the stable tests, and that the
demonstration passes without it and fails with it.  Not used by any check.

usage: plant.py SPECFILE     (python file defining BUGS = [dict(id, prop, file, edits=[(old, new[, nth])], needs, breaks, demo)])
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant_wt"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(f):
    """line texts that come from the base commit (blame)"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    out = sh("git -C /repo blame -s --abbrev=40 HEAD -- %s" % f).stdout.splitlines()
    return [l.split(")", 1)[0].lstrip("^")[:39] == base[:39] for l in out]


def tests(root):
    r = sh(
        "cd %s/MahjongAI/tests && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s CUDA_VISIBLE_DEVICES= /opt/venv/bin/python -m pytest -q -p no:cacheprovider test_naki.py" % (root, root)
    )
    return r.returncode == 0, r.stdout[-400:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        shutil.rmtree(WT, ignore_errors=True)
        sh("git -C /repo worktree prune")
        assert sh("cp -a /repo %s && git -C %s checkout -q -- ." % (WT, WT)).returncode == 0
        edits = b["edits"]
        bad = None
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(WT, f)
            s = open(p).read()
            n = s.count(old)
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None):
                bad = "%d matches in %s for %r" % (n, f, old[:60])
                break
            i = -1
            for _ in range((nth or 0) + 1):
                i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        if bad:
            print(b["id"], "FAIL", bad)
            continue
        diff = sh("git -C %s diff" % WT).stdout
        # removed lines must be original ones
        note = ""
        cur, ln, org = None, 0, []
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                org = original_lines(cur)
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:]) - 1
            elif l.startswith("-") and not l.startswith("---"):
                if not org[ln]:
                    note = " NOTE removes a line added by a fix: %s" % l
                ln += 1
            elif not l.startswith("+"):
                ln += 1
        d = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd = the repository; exit 0 = behaves as stated\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$(pwd)\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\ncd "$work"\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$repo" REPO="$repo"\n/opt/venv/bin/python "$here/demo.py"\n'
        )
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, out = tests(WT)
        r0 = sh("cd /repo && bash %s/demo.sh" % d)
        r1 = sh("cd %s && bash %s/demo.sh" % (WT, d))
        good = ok and r0.returncode == 0 and r1.returncode != 0
        print(b["id"], "OK" if good else "FAIL", "tests=%s clean=%d bug=%d" % (ok, r0.returncode, r1.returncode), note)
        if not good:
            print(out if not ok else "", r0.stderr[-600:], "|", r1.stderr[-300:])
        if good:
            print("   ", (r1.stderr.strip().splitlines() or ["?"])[-1][:200])
        if not good:
            shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)


main()
