"""Runs in its own process: one shard of one property, or one replay."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import bootstrap, registry

MUTATION_RATE = 0.15


def load(pid):
    bootstrap.setup(registry.SPECS[pid.upper()].get("devices", False))
    names = [
        f[:-3]
        for f in sorted(os.listdir(os.path.join(os.path.dirname(__file__), "props")))
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py")
    ]
    if len(names) != 1:
        raise SystemExit(f"no unique module for property {pid}: {names}")
    return importlib.import_module(f"pbt.props.{names[0]}")


class Recorder:
    """Evaluates cases and keeps the measurements of a shard."""

    def __init__(self, module, tier, outdir, shard, budget_s):
        from . import core

        self.core = core
        self.module = module
        self.tier = tier
        self.cur_path = os.path.join(outdir, f"shard_{shard}.cur")
        self.started = time.monotonic()
        self.budget_s = budget_s
        self.evaluations = 0
        self.over_budget = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.history = []
        self.first_failure = None  # index in history
        self.failure = None
        self.error = None
        self.known_seen = {}

    def out_of_time(self):
        return time.monotonic() - self.started > self.budget_s

    def evaluate(self, case):
        core = self.core
        if self.failure is None and self.error is None and self.out_of_time():
            self.over_budget += 1
            return
        if self.failure is None:
            self.history.append(case)
        with open(self.cur_path, "w") as f:
            json.dump({"t": time.time(), "case": case}, f)
        ctx = core.Context(self.tier)
        try:
            run_case(self.module, case, ctx)
        except core.Violation as err:
            if self.failure is None:
                self.first_failure = len(self.history) - 1
            self.failure = {"case": case, "message": str(err)}
            raise
        except core.HarnessError:
            self.error = traceback.format_exc()
            raise
        if self.failure is None:
            self.evaluations += 1
            for key, value in ctx.labels.items():
                self.labels[key] = self.labels.get(key, 0) + value
            if ctx.is_nontrivial:
                key = core.case_key(case)
                if key not in self.distinct:
                    self.distinct.add(key)
                    n = len(self.distinct)
                    if len(self.samples) < 3 and (n & (n - 1)) == 0 and n >= 8:
                        self.samples.append(case)


def run_case(module, case, ctx):
    """Deterministic evaluation of one case; every exception is a verdict."""
    from . import core

    scratch = None
    try:
        if getattr(module, "NEEDS_SCRATCH", False):
            scratch = tempfile.mkdtemp(
                prefix="pbt_scratch_", dir=os.environ.get("PBT_SCRATCH"))
            ctx.scratch = scratch
        module.check(case, ctx)
    except (core.Violation, core.HarnessError, KeyboardInterrupt, SystemExit):
        raise
    except (MemoryError,):
        raise core.HarnessError(traceback.format_exc())
    except OSError as err:
        if err.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM: the machine, not the code
            raise core.HarnessError(traceback.format_exc())
        raise core.Violation(f"unexpected exception\n{traceback.format_exc(limit=-8)}")
    except Exception:  # noqa: BLE001
        raise core.Violation(f"unexpected exception\n{traceback.format_exc(limit=-8)}")
    finally:
        if scratch is not None:
            shutil.rmtree(scratch, ignore_errors=True)


def run_shard(pid, tier, seed, shard, n_examples, outdir, budget_s):
    # rank threads hand a baton around: on one core that costs half as much
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[shard % len(cpus)]})
    except OSError:
        pass
    module = load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 40
    # Left alone, Hypothesis follows every fresh case with about five mutants which
    # repeat parts of it: four fifths of the budget, and field values far from uniform.
    mutate = engine.ConjectureRunner.generate_mutations_from

    def sometimes_mutate(runner, data):
        if runner.random.random() < MUTATION_RATE:
            mutate(runner, data)

    engine.ConjectureRunner.generate_mutations_from = sometimes_mutate
    rec = Recorder(module, tier, outdir, shard, budget_s)

    pinned = list(getattr(module, "PINNED", []))
    result = {"shard": shard}
    try:
        # hand-picked corner cases are part of the generated stream of shard 0
        if shard == 0:
            for case in pinned:
                rec.evaluate(json.loads(json.dumps(case)))

        @hypothesis.seed(seed * 100003 + shard)
        @settings(
            max_examples=n_examples,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @hypothesis.given(case=module.strategy(tier))
        def test(case):
            # what is evaluated is exactly what a replay file can hold
            rec.evaluate(json.loads(json.dumps(case)))

        test()
    except rec.core.Violation:
        pass
    except BaseException:  # noqa: BLE001
        if rec.failure is None:
            rec.error = rec.error or traceback.format_exc()
    if rec.failure is not None:
        result["failure"] = rec.failure
        result["prefix"] = rec.history[: rec.first_failure + 1][-400:]
        result["hashseed"] = os.environ.get("PYTHONHASHSEED", "0")
    elif rec.error is not None:
        result["error"] = rec.error
    result.update(
        evaluations=rec.evaluations,
        over_budget=rec.over_budget,
        distinct=sorted(rec.distinct),
        labels=rec.labels,
        samples=rec.samples,
        wall_s=time.monotonic() - rec.started,
    )
    tmp = os.path.join(outdir, f"shard_{shard}.tmp")
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.replace(tmp, os.path.join(outdir, f"shard_{shard}.json"))


def run_replay(pid, path, n_prefix):
    """Exit 0: the recorded case passes; 1: it violates; 2: cannot decide."""
    module = load(pid)
    from . import core

    with open(path) as f:
        record = json.load(f)
    prefix = record.get("prefix", [])
    cases = prefix[len(prefix) - n_prefix:] if n_prefix else [record["case"]]
    for case in cases:
        ctx = core.Context(record.get("tier", "quick"))
        try:
            run_case(module, case, ctx)
        except core.Violation as err:
            print(f"REPRODUCED {pid}: {err}")
            return 1
        except core.HarnessError as err:
            print(f"harness error: {err}")
            return 2
    return 0


def run_known(pid, known_ids):
    """Probe the listed known findings; print one line per finding that still fails."""
    module = load(pid)
    from . import core

    out = {}
    for kid in known_ids:
        probe = getattr(module, "KNOWN", {}).get(kid)
        if probe is None:
            out[kid] = "no probe"
            continue
        ctx = core.Context()
        try:
            run_case(probe, {}, ctx)
            out[kid] = None
        except core.Violation as err:
            out[kid] = str(err)
    print("KNOWN " + json.dumps(out))
    return 0


def main(argv):
    mode = argv[0]
    if mode == "shard":
        pid, tier, seed, shard, n, outdir, budget = argv[1:8]
        run_shard(pid, tier, int(seed), int(shard), int(n), outdir, float(budget))
        return 0
    if mode == "replay":
        return run_replay(argv[1], argv[2], int(argv[3]) if len(argv) > 3 else 0)
    if mode == "known":
        return run_known(argv[1], argv[2:])
    raise SystemExit(f"unknown mode {mode}")


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
