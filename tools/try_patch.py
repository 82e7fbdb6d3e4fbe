"""Run checks against a scratch copy of /repo with a patch applied (nothing here is used
by the registered commands).

    tools/try_patch.py fixes             revert each fix listed in KNOWN_FINDINGS.txt
    tools/try_patch.py seeded [ID ...]   apply each planted bug of /verif/seeded
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def run_check(pid, repo, extra=()):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    p = subprocess.run(
        [sys.executable, "run.py", pid, "--tier", "quick", "--no-evidence", *extra], cwd=HERE,
        env=env, capture_output=True, text=True)
    violations = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
    return p.returncode, violations, p.stdout[-300:] + p.stderr[-300:]


def with_copy(function):
    top = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        copy = os.path.join(top, "repo")
        shutil.copytree(REPO, copy, symlinks=True)
        return function(copy)
    finally:
        shutil.rmtree(top)


def main():
    todo = []
    if sys.argv[1] == "fixes":
        by_commit = {}
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"fixed: property=(\S+) (\S+)", line)
            if m:
                by_commit.setdefault(m.group(2), []).append(m.group(1))
        todo = [(c, pids) for c, pids in by_commit.items()
                if len(sys.argv) < 3 or c in sys.argv[2:]]
    else:
        for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
            if len(sys.argv) < 3 or os.path.basename(d) in sys.argv[2:]:
                meta = json.load(open(os.path.join(d, "meta.json")))
                todo.append((d, [meta["property"]]))
    bad = 0
    for what, pids in todo:
        def attempt(copy):
            if sys.argv[1] == "fixes":
                p = subprocess.run(["git", "-C", copy, "revert", "--no-commit", what],
                                   capture_output=True, text=True)
            else:
                p = subprocess.run(["git", "-C", copy, "apply", what + "/patch.diff"],
                                   capture_output=True, text=True)
            if p.returncode:
                return [("?", "does not apply", p.stderr[-200:])]
            return [(pid,) + run_check(pid, copy)[:2] for pid in pids]
        for row in with_copy(attempt):
            ok = row[1] == 1
            bad += not ok
            print("caught" if ok else "MISSED", os.path.basename(what), *row, flush=True)
    print("missed:", bad)


main()
