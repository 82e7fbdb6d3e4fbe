"""Validates the simulated MPI: runs generated cases of the message-passing properties under a
real MPI (mpirun), one process per rank, with the same oracles.  Not a registered check: it
shows that the oracles and the code agree outside of the simulation as well.

    tools/real_mpi.py C07 [--cases 200] [--ranks 6] [--seed 1]
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class RealWorld:
    """The interface of pbt.sim.World on top of mpi4py."""

    def __init__(self, n, everyone):
        self.n = n
        self.everyone = everyone
        member = everyone.rank < n
        self.comm = everyone.Split(0 if member else 1, everyone.rank)
        self.member = member

    def run(self, fn):
        from pbt.core import Violation

        result, error = None, None
        try:
            if self.member:
                result = fn(self.comm)
        except Exception as err:  # noqa: BLE001
            error = f"rank {self.comm.rank}: {type(err).__name__}: {err}"
            # the others may wait for this rank
            print("FAILED", error, flush=True)
            self.everyone.Abort(3)
        results = self.everyone.allgather(result)
        if error:
            raise Violation(error)
        return results[: self.n]

    def leftovers(self):
        from mpi4py import MPI

        self.everyone.barrier()
        left = int(self.comm.Iprobe(MPI.ANY_SOURCE, MPI.ANY_TAG))
        return self.everyone.allreduce(left)


def worker(pid, path):
    from pbt import core, worker as w

    module = w.load(pid)
    from mpi4py import MPI

    everyone = MPI.COMM_WORLD
    import pbt.sim

    def world_from(n, sched):
        if n > everyone.size:
            raise TooBig()
        return RealWorld(n, everyone)

    class TooBig(Exception):
        pass

    for name, mod in list(sys.modules.items()):
        if name.startswith("pbt.") and hasattr(mod, "world_from"):
            mod.world_from = world_from
    pbt.sim.world_from = world_from

    def replace_allocate(original):
        # mpi4py knows no buffers of unaligned memory
        return lambda shape, dtype, memory="C": original(
            shape, dtype, "strided" if memory == "packed" else memory)

    for name, mod in list(sys.modules.items()):
        if name.startswith("pbt.") and hasattr(mod, "allocate"):
            mod.allocate = replace_allocate(mod.allocate)
    ran = skipped = 0
    for case in json.load(open(path)):
        try:
            module.check(case, core.Context("quick"))
            ran += 1
        except TooBig:
            skipped += 1
        except core.Violation as err:
            print("VIOLATED on rank", everyone.rank, str(err)[:1000], json.dumps(case))
            everyone.Abort(4)
    if everyone.rank == 0:
        print(f"{pid}: {ran} cases agree under {MPI.Get_library_version().split(',')[0]} "
              f"with {everyone.size} processes ({skipped} need more ranks)")


def generate(pid, n, seed):
    from pbt import worker as w

    module = w.load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    cases = []

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,),
              suppress_health_check=list(HealthCheck))
    @hypothesis.given(case=module.strategy("quick"))
    def collect(case):
        # nor of half precision
        cases.append(json.loads(json.dumps(case).replace("float16", "float32")))

    collect()
    return cases


def main():
    if sys.argv[1] == "worker":
        worker(sys.argv[2], sys.argv[3])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--cases", type=int, default=200)
    ap.add_argument("--ranks", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    opts = ap.parse_args()
    cases = generate(opts.pid, opts.cases, opts.seed)
    with tempfile.TemporaryDirectory() as top:
        path = os.path.join(top, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        return subprocess.run(
            ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(opts.ranks), PY,
             os.path.abspath(__file__), "worker", opts.pid, path],
            cwd=HERE, timeout=1500).returncode


sys.exit(main())
