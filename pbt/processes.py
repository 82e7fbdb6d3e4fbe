"""Ranks as operating system processes that share no memory.

The checks of other properties are run once per rank, each in a process of its own with its
own PYTHONHASHSEED: the program of a rank runs in its process, and every communication call
is passed on to the thread of that rank in a simulated world (pbt/sim.py) of the checking
process, so that schedules, matching and deadlocks are those of the simulation.  A rank only
computes while its thread holds the baton, which keeps every run deterministic.

Servers (one per hash seed) import everything once and fork a fresh process for every rank of
every case; they end with the checking process.
"""
import array
import gc
import os
import pickle
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile

import numpy as np

from .core import Context, HarnessError, Violation

N_SERVERS = 6
MOST_RANKS = 24


class Gone(Exception):
    """The other side has closed the connection."""


class Channel:
    """Pickled messages over a socket."""

    def __init__(self, sock):
        self.sock = sock

    def send(self, *message):
        data = pickle.dumps(message, protocol=4)
        try:
            self.sock.sendall(struct.pack("<q", len(data)) + data)
        except OSError as err:
            raise Gone() from err

    def _read(self, n):
        parts = []
        while n:
            try:
                part = self.sock.recv(min(n, 1 << 20))
            except OSError as err:
                raise Gone() from err
            if not part:
                raise Gone()
            parts.append(part)
            n -= len(part)
        return b"".join(parts)

    def receive(self):
        size, = struct.unpack("<q", self._read(8))
        return pickle.loads(self._read(size))

    def close(self):
        self.sock.close()


# ---------------------------------------------------------------- the process of a rank

class Request:
    def __init__(self, comm, number, buf=None):
        self._comm, self._number, self._buf = comm, number, buf

    def _finish(self, data):
        if self._buf is not None and data is not None:
            self._buf[:len(data)] = np.frombuffer(data, np.uint8)
            self._buf = None

    def wait(self, status=None):
        self._finish(self._comm._ask("wait", self._number))

    Wait = wait

    def test(self):
        done, data = self._comm._ask("test", self._number)
        if done:
            self._finish(data)
        return (done, None)

    def Test(self):
        return self.test()[0]


class ProcessComm:
    """mpi4py's interface; every call is made by the thread of this rank elsewhere."""

    def __init__(self, channel, number, rank, size):
        self._channel, self._number, self._rank, self._size = channel, number, rank, size

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("a communicator belongs to its process")

    def _ask(self, what, *arguments):
        from .sim import MPIError

        self._channel.send(what, self._number, *arguments)
        answer = self._channel.receive()
        if answer[0] == "mpi error":
            raise MPIError(answer[1])
        return answer[1]

    @staticmethod
    def _bytes(buf):
        from .sim import _memory

        return _memory(buf, False).tobytes()

    @staticmethod
    def _place(buf):
        from .sim import _memory

        return _memory(buf, True)

    def Isend(self, buf, dest, tag=0):
        request = Request(self, self._ask("Isend", self._bytes(buf), dest, tag))
        request.buf = buf
        return request

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).wait()

    def Irecv(self, buf, source=-1, tag=-1):
        place = self._place(buf)
        request = Request(self, self._ask("Irecv", place.size, source, tag), place)
        request.buf = buf
        return request

    def Recv(self, buf, source=-1, tag=-1, status=None):
        self.Irecv(buf, source, tag).wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1,
                 status=None):
        recv = self.Irecv(recvbuf, source, recvtag)
        send = self.Isend(sendbuf, dest, sendtag)
        recv.wait()
        send.wait()

    def barrier(self):
        self._ask("barrier")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        mine = pickle.dumps(obj) if self._rank == root else None
        data = self._ask("bcast", mine, root)
        return obj if self._rank == root else pickle.loads(data)

    def Bcast(self, buf, root=0):
        if self._rank == root:
            self._ask("Bcast", self._bytes(buf), None, root)
        else:
            place = self._place(buf)
            place[:] = np.frombuffer(self._ask("Bcast", None, place.size, root), np.uint8)

    def Scatter(self, sendbuf, recvbuf, root=0):
        mine = self._bytes(sendbuf) if self._rank == root else None
        place = self._place(recvbuf)
        data = self._ask("Scatter", mine, place.size, root)
        place[:len(data)] = np.frombuffer(data, np.uint8)

    def Gather(self, sendbuf, recvbuf, root=0):
        mine = self._bytes(sendbuf)
        if self._rank == root:
            place = self._place(recvbuf)
            # what nobody sends stays as it is
            data = self._ask("Gather", mine, place.tobytes(), root)
            place[:] = np.frombuffer(data, np.uint8)
        else:
            self._ask("Gather", mine, None, root)

    def scatter(self, sendobj=None, root=0):
        mine = [pickle.dumps(x) for x in sendobj] if self._rank == root else None
        return pickle.loads(self._ask("scatter", mine, root))

    def gather(self, sendobj, root=0):
        got = self._ask("gather", pickle.dumps(sendobj), root)
        return None if got is None else [pickle.loads(x) for x in got]

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._ask("allgather", pickle.dumps(sendobj))]

    def Split(self, color=0, key=0):
        return ProcessComm(self._channel, *self._ask("Split", color, key))

    def Dup(self):
        return self.Split(0, self._rank)


class RankWorld:
    """The interface of pbt.sim.World in the process of one rank."""

    def __init__(self, channel, me, n, sched):
        self.n, self._channel, self._me = n, channel, me
        channel.send("world", n, sched)
        self._left = [0, 0]
        self.n_messages = self.n_switches = 0

    def run(self, fn):
        if self._me < self.n:
            self._channel.receive()  # this rank's turn
            result = fn(ProcessComm(self._channel, 0, self._me, self.n))
            self._channel.send("done", pickle.dumps(result))
        answer = self._channel.receive()
        self._left, self.n_messages = answer[2], answer[3]
        return [pickle.loads(x) for x in answer[1]]

    def leftovers(self, receives=True):
        return self._left[receives]


def _rank_process(channel):
    """One rank of one case; returns when the verdict is told."""
    from . import worker

    pid, case, tier, me, history, shared = channel.receive()
    try:
        module = worker.load(pid)

        def world_from(n, sched):
            return RankWorld(channel, me, n, sched)

        for name, mod in list(sys.modules.items()):
            if name.startswith("pbt.") and hasattr(mod, "world_from"):
                mod.world_from = world_from
        own_past(history)
        ctx = Context(tier)
        scratch = shared or tempfile.mkdtemp(
            prefix="pbt_scratch_", dir=os.environ.get("PBT_SCRATCH"))
        ctx.scratch = scratch
        try:
            module.check(case, ctx)
        finally:
            if not shared:
                shutil.rmtree(scratch, ignore_errors=True)
        verdict = ("fine", ctx.labels, ctx.is_nontrivial)
    except Violation as err:
        verdict = ("violation", str(err))
    except HarnessError as err:
        verdict = ("harness", str(err))
    except Gone:
        return
    except Exception as err:  # noqa: BLE001
        import traceback

        kind = "harness" if isinstance(err, (MemoryError, pickle.PicklingError)) or (
            isinstance(err, OSError) and err.errno in (28, 24, 12)) else "violation"
        verdict = (kind, f"{type(err).__name__}: {err}\n{traceback.format_exc(limit=-8)}")
    channel.send("verdict", *verdict)


def own_past(history):
    """What this process did by itself before: none of it may matter to the others."""
    import fv3gfs.util as util

    class NullComm:
        """A communicator that nobody communicates with."""

        def __init__(self, rank, size):
            self.rank, self.size = rank, size

        def Get_rank(self):
            return self.rank

        def Get_size(self):
            return self.size

        def Split(self, color, key):
            return NullComm(0, 1)

    kept = []
    for kind, k in history:
        if kind == "buffers":
            for i in range(k):
                q = util.Quantity(np.full((3, 2 + k), float(i)), ["y", "x"], "m")
                with util.array_buffer(np.zeros, (2, 2 + k), np.float64) as a:
                    a[...] = q.data[:2]
        elif kind == "quantities":
            for i in range(3 * k):
                q = util.Quantity(np.zeros((4, 5)), ["y", "x"], "m", origin=(1, 1),
                                  extent=(2, 3))
                q.transpose(["x", "y"]).view[:] = i
                if i % 2:
                    kept.append(q)
        elif kind == "partitioners":
            part = util.CubedSpherePartitioner(util.TilePartitioner((k, k)))
            for rank in range(k):
                for boundary in (util.NORTH, util.WEST, util.SOUTHEAST):
                    part.boundary(boundary, rank)
            kept.append(part)
        elif kind == "communicators":
            for i in range(k):
                part = util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))
                comm = NullComm(i % 6, 6)
                kept.append(util.CubedSphereCommunicator(comm, part))
                util.TileCommunicator(NullComm(0, 1), util.TilePartitioner((1, 1)))
        elif kind == "timers":
            timer = util.Timer()
            for i in range(k):
                with timer.clock(f"clock{i}"):
                    pass
            kept.append(timer)
    own_past.kept = kept


def serve():
    """A server: its standard input is the control socket."""
    from . import worker

    control = socket.socket(fileno=os.dup(0))
    worker.load("C38")
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    gc.collect()
    gc.freeze()
    control.sendall(b"!")
    while True:
        data, ancillary, _, _ = control.recvmsg(1, socket.CMSG_LEN(4))
        if not data:
            return
        fds = array.array("i")
        fds.frombytes(ancillary[0][2][:4])
        if os.fork() == 0:
            control.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                _rank_process(Channel(socket.socket(fileno=fds[0])))
            except Gone:
                pass
            finally:
                os._exit(0)
        os.close(fds[0])


# ---------------------------------------------------------------- the checking process

_servers = []


def servers():
    if not _servers:
        for k in range(N_SERVERS):
            mine, other = socket.socketpair()
            env = dict(os.environ, PYTHONHASHSEED=str(11 + 7 * k))
            proc = subprocess.Popen(
                [sys.executable, "-m", "pbt.processes"], stdin=other, env=env,
                cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                stdout=subprocess.DEVNULL)
            other.close()
            _servers.append((mine, proc))
        for mine, proc in _servers:
            if mine.recv(1) != b"!":
                raise HarnessError("a server of rank processes did not start")
    return _servers


def fork_rank(server):
    mine, other = socket.socketpair()
    control = servers()[server][0]
    control.sendmsg([b"f"], [(socket.SOL_SOCKET, socket.SCM_RIGHTS,
                              array.array("i", [other.fileno()]))])
    other.close()
    mine.settimeout(300)
    return Channel(mine)


class Told(Exception):
    """A rank has told its verdict before the end of the program."""

    def __init__(self, verdict):
        super().__init__(str(verdict))
        self.verdict = verdict


def raise_verdict(rank, verdict):
    if verdict[1] == "violation":
        raise Violation(f"process of rank {rank}: {verdict[2]}")
    raise HarnessError(f"process of rank {rank}: {verdict[1:]}")


def _serve_rank(channel, comm):
    """The thread of a rank: makes the calls of the rank's process."""
    from .sim import MPIError

    rank = comm.Get_rank()
    comms, requests = [comm], []

    def perform(what, number, *args):
        c = comms[number]
        if what == "Isend":
            requests.append((c.Isend(np.frombuffer(args[0], np.uint8), *args[1:]), None))
            return len(requests) - 1
        if what == "Irecv":
            place = np.zeros(args[0], np.uint8)
            requests.append((c.Irecv(place, *args[1:]), place))
            return len(requests) - 1
        if what in ("wait", "test"):
            request, place = requests[args[0]]
            done = request.wait() is None if what == "wait" else request.test()[0]
            data = None
            if done and place is not None:
                data = place[:request._recv.send.mem.size].tobytes()
            return data if what == "wait" else (done, data)
        if what == "barrier":
            return c.barrier()
        if what in ("bcast", "scatter", "gather"):
            return getattr(c, what)(args[0], root=args[1])
        if what == "Bcast":
            buf = np.frombuffer(args[0], np.uint8) if args[0] is not None else np.zeros(
                args[1], np.uint8)
            c.Bcast(buf, root=args[2])
            return None if args[0] is not None else buf.tobytes()
        if what == "Scatter":
            place = np.zeros(args[1], np.uint8)
            mem = None if args[0] is None else np.frombuffer(args[0], np.uint8)
            # a shorter message fills part of the buffer only
            return place[:c.Scatter(mem, place, root=args[2])].tobytes()
        if what == "Gather":
            place = None if args[1] is None else np.frombuffer(args[1], np.uint8).copy()
            c.Gather(np.frombuffer(args[0], np.uint8), place, root=args[2])
            return None if place is None else place.tobytes()
        if what == "allgather":
            return c.allgather(args[0])
        if what == "Split":
            comms.append(c.Split(*args))
            return len(comms) - 1, comms[-1].Get_rank(), comms[-1].Get_size()
        raise HarnessError(f"unknown call {what}")

    try:
        channel.send("go")
        while True:
            message = channel.receive()
            if message[0] == "done":
                return message[1]
            if message[0] in ("verdict", "world"):
                if message[0] == "world":
                    raise HarnessError("a world within a world")
                raise_verdict(rank, message)
            try:
                answer = ("ok", perform(*message))
            except MPIError as err:
                answer = ("mpi error", str(err))
            channel.send(*answer)
    except Gone as err:
        raise HarnessError(f"the process of rank {rank} has ended") from err


def run_case(pid, case, ctx, seats=0, histories=None, shared=None):
    """Runs a case of another property with a process for every rank; False: too many ranks."""
    from .sim import world_from

    channels = []
    histories = histories or [[]]

    def start(rank):
        channel = fork_rank((rank * (1 + seats % 5) + seats) % N_SERVERS)
        channels.append(channel)
        channel.send(pid, case, ctx.tier, rank, histories[rank % len(histories)], shared)

    def told(rank):
        try:
            return channels[rank].receive()
        except Gone as err:
            raise HarnessError(f"the process of rank {rank} has ended") from err

    n_worlds = 0
    try:
        start(0)
        while True:
            first = told(0)
            if first[0] == "verdict":
                if first[1] != "fine":
                    raise_verdict(0, first)
                for rank in range(1, len(channels)):
                    other = told(rank)
                    if other[0] != "verdict":
                        raise HarnessError(f"rank {rank} told {other[0]}, rank 0 is done")
                    if other[1] != "fine":
                        raise_verdict(rank, other)
                if n_worlds:
                    ctx.nontrivial(first[3])
                return n_worlds > 0
            if first[0] != "world":
                raise HarnessError(f"rank 0 told {first[0]}")
            n, sched = first[1:]
            if n > (MOST_RANKS if n_worlds == 0 else len(channels)):
                return False
            if n_worlds == 0:
                while len(channels) < n:
                    start(len(channels))
            for rank in range(1, len(channels)):
                other = told(rank)
                if other[0] == "verdict":
                    raise_verdict(rank, other)
                if other != first:
                    raise HarnessError(f"rank {rank} told {other[:2]}, rank 0 {first[:2]}")
            n_worlds += 1
            world = world_from(n, sched)
            results = world.run(lambda comm: _serve_rank(channels[comm.Get_rank()], comm))
            left = [world.leftovers(False), world.leftovers(True)]
            for channel in channels:
                channel.send("results", results, left, world.n_messages)
    except Gone as err:
        raise HarnessError("a rank's process has ended") from err
    finally:
        for channel in channels:
            channel.close()


if __name__ == "__main__":
    # under its proper name, for what is pickled
    from pbt import processes

    processes.serve()
