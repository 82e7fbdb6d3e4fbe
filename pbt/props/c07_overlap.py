"""C07: exchanges are correct under every schedule, buffering and overlap."""
import numpy as np

from .. import programs
from ..core import LCG, require
from ..sim import TAG_UB

# more exchanges than there are tags
PINNED = [{"exchanges": TAG_UB + 500, "open": 300, "seed": k} for k in (1,)]


def strategy(tier):
    return programs.programs(tier, more_ops=programs.COLLECTIVE_OPS)


class Request:
    def wait(self):
        pass


class Recorder:
    """A communicator of one rank that only notes the messages it is given."""

    def __init__(self):
        self.sent, self.received = [], []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 6

    def Isend(self, buf, dest, tag=0):
        self.sent.append((dest, tag))
        return Request()

    def Irecv(self, buf, source, tag=0):
        self.received.append((source, tag))
        return Request()

    def Recv(self, buf, source, tag=0):
        self.received.append((source, tag))


def check_tags(case, ctx):
    """Many exchanges, the latest of them in flight: tags are valid and tell them apart."""
    import fv3gfs.util as util

    comm = Recorder()
    cube = util.CubedSphereCommunicator(
        comm, util.CubedSpherePartitioner(util.TilePartitioner((1, 1))))

    def quantity(dims):
        return util.Quantity(np.zeros((4, 4)), dims, "m", origin=(1, 1),
                             extent=[1 + d.endswith("_interface") for d in dims])

    q, x, y = (quantity(d) for d in (("y", "x"), ("y_interface", "x"), ("y", "x_interface")))
    rng = LCG(case["seed"])
    last = {}
    for k in range(case["exchanges"]):
        before = len(comm.sent)
        with ctx.sut(f"exchange {k}"):
            kind = rng.next(8)
            if kind == 0:
                request = cube.start_vector_halo_update(x, y, 1)
            elif kind == 1:
                request = cube.start_synchronize_vector_interfaces(x, y)
            else:
                request = cube.start_halo_update(q, 1)
            comm.received.clear()
            request.wait()
        sent = comm.sent[before:]
        for dest, tag in sent:
            require(0 <= tag <= TAG_UB,
                    f"exchange {k}: tag {tag}; MPI guarantees tags up to {TAG_UB} only")
        tags = {t for _, t in sent}
        for t in tags:
            require(k - last.get(t, -case["open"]) >= case["open"],
                    f"exchange {k}: tag {t} is that of exchange {last.get(t)}, which may be in "
                    "flight")
        for t in tags:
            last[t] = k
    ctx.label("tags in use", len(last) // 1000 * 1000)


def check(case, ctx):
    if "exchanges" in case:
        check_tags(case, ctx)
        return
    world, in_flight = programs.run(case, ctx)
    require(world.leftovers() == 0, f"{world.leftovers()} messages were never received")
    ctx.nontrivial(in_flight >= 2)
