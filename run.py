#!/opt/venv/bin/python
"""Runs the check of one property: run.py C01 [--tier quick|thorough] [--seed N]
[--shards N] [--examples N] [--replay FILE].  See DESIGN.md."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import shutil
import signal
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HANG_S = 90.0
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
LIVE = []
SCRATCH = []


def _cleanup(*_):
    for proc in LIVE:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
    if _:
        sys.exit(2)


def spawn(args, hashseed, stdout):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    if SCRATCH:
        env["PBT_SCRATCH"] = SCRATCH[-1]
    env.pop("PYTHONPATH", None)
    proc = subprocess.Popen(
        [PY, "-m", "pbt.worker"] + [str(a) for a in args],
        cwd=HERE, env=env, stdin=subprocess.DEVNULL, stdout=stdout,
        stderr=subprocess.STDOUT, start_new_session=True,
    )
    LIVE.append(proc)
    return proc


def run_to_end(args, hashseed, timeout):
    """-> (exit code or None on time-out, output)"""
    with tempfile.TemporaryFile() as out:
        proc = spawn(args, hashseed, out)
        try:
            code = proc.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
            code = None
        LIVE.remove(proc)
        out.seek(0)
        return code, out.read().decode(errors="replace")


def known_findings(pid):
    """Lines `known: property=<id> key=<key> <what fails>` of KNOWN_FINDINGS.txt."""
    found = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith(f"known: property={pid} key="):
                    key, _, what = line[len(f"known: property={pid} key="):].partition(" ")
                    found[key] = what.strip()
    return found


def confirm(pid, record, replay_path):
    """Re-run the failing case in fresh processes; returns 'yes', 'hang' or 'no'."""
    def attempt(n_prefix):
        code, out = run_to_end(
            ["replay", pid, replay_path, n_prefix], record["hashseed"], HANG_S)
        return "hang" if code is None else {1: "yes"}.get(code, "no")

    with open(replay_path, "w") as f:
        json.dump(record, f, indent=1)
    verdict = attempt(0)
    if verdict != "no":
        record["prefix"] = []
        with open(replay_path, "w") as f:
            json.dump(record, f, indent=1)
        return verdict
    n = len(record["prefix"])
    size = 1
    while n:
        size = min(size, n)
        verdict = attempt(size)
        if verdict != "no":
            record["prefix"] = record["prefix"][n - size:]
            record["note"] = "fails only after the earlier cases in prefix"
            with open(replay_path, "w") as f:
                json.dump(record, f, indent=1)
            return verdict
        if size == n:
            break
        size *= 4
    return "no"


def main():
    global HANG_S
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int)
    ap.add_argument("--examples", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    opts = ap.parse_args()
    pid = opts.property
    tier = "thorough" if opts.tier == "thorough" else "quick"
    signal.signal(signal.SIGTERM, _cleanup)

    if opts.replay:
        HANG_S = 240.0
        with open(opts.replay) as f:
            record = json.load(f)
        code, out = run_to_end(
            ["replay", pid, os.path.abspath(opts.replay), len(record.get("prefix", []))],
            record.get("hashseed", 0), HANG_S)
        print(out, end="")
        if code is None:
            print("case did not terminate")
        if code in (None, 1):
            print(f"VIOLATION property={pid} replay={opts.replay}")
            return 1
        return code

    import pbt.registry as registry
    spec = registry.SPECS[pid]
    HANG_S = spec.get("hang_s", HANG_S)
    n_total = opts.examples or spec[tier]
    n_shards = opts.shards or spec.get("shards", 8)
    budget = 90.0 if tier == "quick" else 720.0
    started = time.monotonic()
    outdir = tempfile.mkdtemp(prefix=f"pbt_{pid}_")
    SCRATCH.append(outdir)
    failure, errors, results = None, [], []
    try:
        known = known_findings(pid)
        per_shard = max(1, -(-n_total // n_shards))
        procs = {}
        for k in range(n_shards):
            hashseed = (opts.seed * 7919 + k) % 4294967295
            log = open(os.path.join(outdir, f"shard_{k}.log"), "wb")
            procs[k] = (spawn(
                ["shard", pid, tier, opts.seed, k, per_shard, outdir, budget],
                hashseed, log), hashseed)
        pending = dict(procs)
        while pending and failure is None:
            time.sleep(0.05)
            for k, (proc, hashseed) in list(pending.items()):
                path = os.path.join(outdir, f"shard_{k}.json")
                if proc.poll() is not None:
                    del pending[k]
                    LIVE.remove(proc)
                    if os.path.exists(path):
                        with open(path) as f:
                            res = json.load(f)
                        results.append(res)
                        if "failure" in res:
                            failure = dict(res["failure"], prefix=res["prefix"],
                                           hashseed=res["hashseed"])
                        elif "error" in res:
                            errors.append(res["error"])
                    else:
                        with open(os.path.join(outdir, f"shard_{k}.log")) as f:
                            errors.append(f"shard {k} died ({proc.returncode}): "
                                          + f.read()[-3000:])
                    continue
                cur = os.path.join(outdir, f"shard_{k}.cur")
                try:
                    age = time.time() - os.stat(cur).st_mtime
                    if age > HANG_S:
                        with open(cur) as f:
                            case = json.load(f)["case"]
                        failure = {"case": case, "prefix": [], "hashseed": hashseed,
                                   "message": f"case did not terminate in {HANG_S} s"}
                except (OSError, ValueError):
                    pass
        _cleanup()
        verdict = None
        if failure is not None:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            replay_path = os.path.join(HERE, "replays", f"{pid}-{tier}-{opts.seed}.json")
            record = {"property": pid, "tier": tier, "seed": opts.seed, **failure}
            verdict = confirm(pid, record, replay_path)
        known_lines = []
        if known and failure is None:
            code, out = run_to_end(["known", pid] + sorted(known), 0, 120)
            lines = [x for x in out.splitlines() if x.startswith("KNOWN ")]
            if not lines:
                errors.append("known-finding probe failed: " + out[-2000:])
            else:
                for key, msg in json.loads(lines[-1][6:]).items():
                    if msg:
                        known_lines.append(
                            f"KNOWN-FINDING: property={pid} key={key} {known[key]}")
        distinct, labels, samples = set(), {}, []
        for res in results:
            distinct.update(res["distinct"])
            for key, value in res["labels"].items():
                labels[key] = labels.get(key, 0) + value
            samples.extend(res["samples"])
        over = sum(res["over_budget"] for res in results)
        evidence = {
            "property": pid,
            "tier": tier,
            "seed": opts.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(res["evaluations"] for res in results),
                "distinct_nontrivial": len(distinct),
                "rule": spec["rule"],
                "samples": sorted(samples, key=lambda s: len(json.dumps(s)))[:4],
                "classes": dict(sorted(labels.items())),
                "shards": n_shards,
                "not_evaluated_because_time_ran_out": over,
                "known_findings_seen": known_lines,
            },
            "assumptions": registry.ASSUMPTIONS + spec.get("assumptions", []),
            "wall_s": round(time.monotonic() - started, 3),
            "violations": 1 if verdict in ("yes", "hang") else 0,
        }
        if not evidence["coverage"]["samples"] and failure is not None:
            evidence["coverage"]["samples"] = [failure["case"]]
        if not opts.no_evidence:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
                json.dump(evidence, f, indent=1)
        for line in known_lines:
            print(line)
        print(f"{pid} {tier} seed={opts.seed}: {evidence['coverage']['evaluations']} cases, "
              f"{len(distinct)} distinct non-trivial, {evidence['wall_s']} s")
        if verdict in ("yes", "hang"):
            print(failure["message"][:3000])
            print(json.dumps(failure["case"])[:2000])
            print(f"VIOLATION property={pid} replay={os.path.relpath(replay_path, HERE)}")
            return 1
        if failure is not None:
            print("a failure did not reproduce in a fresh process; check is inconclusive")
            print(failure["message"][:3000])
            return 2
        if errors:
            print("check error:\n" + "\n".join(errors)[:5000])
            return 2
        if evidence["coverage"]["distinct_nontrivial"] < spec.get("min_nontrivial", 2):
            print("check error: hardly any non-trivial case was generated")
            return 2
        return 0
    finally:
        _cleanup()
        shutil.rmtree(outdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
