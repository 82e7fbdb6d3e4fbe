"""C38: ranks that are processes of their own give the results of the other properties."""
import shutil
import tempfile

from hypothesis import strategies as st

from .. import processes, programs
from ..core import HarnessError
from . import (c04_scalar_halo, c05_vector_halo, c06_sync_interfaces, c07_overlap, c09_scatter,
               c10_gather, c11_states, c17_zarr, c21_restart, c31_decomposition)

NEEDS_SCRATCH = True

MODULES = {
    "C04": c04_scalar_halo, "C05": c05_vector_halo, "C06": c06_sync_interfaces,
    "C07": c07_overlap, "C09": c09_scatter, "C10": c10_gather, "C11": c11_states,
    "C17": c17_zarr, "C21": c21_restart, "C31": c31_decomposition,
}
CHOICES = (["C11"] * 4 + ["C17"] * 3 + ["C07"] * 3 + ["C31"] * 2
           + ["C04", "C05", "C06", "C09", "C10", "C21"])
PAST = ["buffers", "quantities", "partitioners", "communicators", "timers"]


@st.composite
def inner(draw, pid, tier):
    """A case of another property that processes can run."""
    most = draw(st.sampled_from([1, 1, 1, 2]))
    if pid == "C07":
        case = draw(programs.programs(
            "quick", more_ops=[op for op in programs.COLLECTIVE_OPS if op != "zarr"]))
    else:
        case = draw(MODULES[pid].strategy("quick"))
    if pid in ("C04", "C05", "C06", "C07"):
        grid = case["grid"] if "grid" in case else case
        grid["layout"] = min(grid["layout"], most)
    elif pid == "C17":
        case["run"] = "ranks"
        case["store"] = draw(st.sampled_from(["directory", "path"]))
        case["earlier"] = False
    elif pid == "C31":
        case["zarr"] = False
        for segments in case["runs"]:
            for segment in segments:
                if segment["layout"] > 2:
                    segment["layout"] = 1
                segment["layout"] = min(segment["layout"], most)
        if most == 1:
            case["runs"] = case["runs"][:1] + case["runs"][1:][:1]
    return case


@st.composite
def cases(draw, tier):
    pid = draw(st.sampled_from(CHOICES))
    past = st.lists(st.tuples(st.sampled_from(PAST), st.integers(1, 4)), max_size=3)
    return {
        "pid": pid,
        "case": draw(inner(pid, tier)),
        "seats": draw(st.integers(0, 29)),
        # what the ranks' processes did before, by themselves
        "pasts": draw(st.lists(past, min_size=1, max_size=5)),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    pid = case["pid"]
    shared = None
    if pid == "C17":
        shared = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        done = processes.run_case(
            pid, case["case"], ctx, case["seats"], case["pasts"], shared)
    finally:
        if shared:
            shutil.rmtree(shared, ignore_errors=True)
    if done is None:
        raise HarnessError("no verdict")
    ctx.label("property", pid if done else f"{pid} (too many ranks)")
    ctx.label("pasts", max(len(p) for p in case["pasts"]))
