#!/usr/bin/env python3
"""Plant bugs: plant.py BATCH.py [ids..] -- define seeded/<id>/ from a batch file, confirm and check them.

A batch file defines BUGS = {id: dict(prop=, file=, edits=[(old, new)..], needs=, breaks=, demo=)}."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import os\nimport sys\n\nsys.path.insert(0, os.path.join(os.getcwd(), \"src\"))\nimport numpy as np  # noqa: E402\n\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def retest(want):
    """Run the checks against the planted bugs."""
    root = os.path.join(HERE, "seeded")
    for bid in sorted(os.listdir(root)):
        if want and not any(bid.startswith(x) for x in want):
            continue
        w = "/tmp/plant-" + bid
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        try:
            p = sh(["git", "-C", w, "apply", os.path.join(root, bid, "patch.diff")])
            prop = json.load(open(os.path.join(root, bid, "meta.json")))["property"]
            check(bid + " " + p.stderr, prop, w)
        finally:
            shutil.rmtree(w, ignore_errors=True)


def check(label, prop, w):
    e = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    c = sh(["python3", HERE + "/run.py", prop, "quick"], cwd=HERE, env=e)
    caught = c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
    print("   ", label, "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, c.stdout.strip()[-900:] if not caught else
          c.stdout.strip().splitlines()[0][:200], c.stderr[-400:] if not caught else "", flush=True)


def main():
    if sys.argv[1] == "seeded":
        return retest(sys.argv[2:])
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for bid, b in bugs.items():
        if want and bid not in want:
            continue
        w = "/tmp/plant-" + bid
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        try:
            one(bid, b, w)
        finally:
            shutil.rmtree(w, ignore_errors=True)


def one(bid, b, w):
    edits = b["edits"]
    for f, old, new in [(b["file"], *e) if len(e) == 2 else e for e in edits]:
        p = os.path.join(w, "src/hyperelastic", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "EDIT MATCHES", s.count(old), "TIMES:", old)
            return
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(HERE, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "-C", w, "diff"]).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    # lines removed have to be lines of the original repository
    base = sh(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    for f in {b["file"]} | {e[0] for e in edits if len(e) == 3}:
        orig = sh(["git", "-C", w, "show", "%s:src/hyperelastic/%s" % (base, f)]).stdout.splitlines()
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in orig \
                    and len({e[0] for e in edits if len(e) == 3}) == 0:
                print(bid, "NOTE: not an original line:", line)
    good = sh(["bash", d + "/demo.sh"], cwd="/repo")
    bad = sh(["bash", d + "/demo.sh"], cwd=w)
    t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], cwd=w,
           env=dict(os.environ, PYTHONPATH=w + "/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
    ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
    print(bid, "demo %d/%d tests %d" % (good.returncode, bad.returncode, t.returncode), "VALID" if ok else "INVALID", flush=True)
    if not ok:
        print(good.stdout[-500:], good.stderr[-1500:], bad.stdout[-300:], t.stdout[-800:] if t.returncode else "")
        shutil.rmtree(d)
        return
    check("", b["prop"], w)


if __name__ == "__main__":
    main()
