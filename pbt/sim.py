"""A deterministic MPI world whose schedule belongs to the test case.

Every rank is a thread, but only the thread holding the baton runs; the baton changes
hands at communication calls, in an order expanded from the case's schedule.  The
buffer semantics follow mpi4py's upper-case methods: buffers are flat contiguous memory
(C or Fortran order), messages are matched per (communicator, source, destination, tag)
without overtaking, a message longer than the receive buffer is an error, a shorter one
fills only part of it, and the send buffer may be read at any time the MPI standard
allows:

* eager -- the message is copied during the send call;
* late  -- the buffer is read when the message is matched or the send request is waited on;
* sync  -- as late, and a send only completes once a receive has been posted (rendezvous).

If every unfinished rank is blocked the world is deadlocked, which is reported at once.
"""
import pickle
import threading

import numpy as np

from .core import HarnessError, LCG, Violation

ANY_SOURCE = -1
ANY_TAG = -1
TAG_UB = 32767  # what the MPI standard guarantees
MODES = ("eager", "late", "sync")
POLICIES = ("random", "roundrobin", "reverse", "greedy", "starve")


class SimAbort(BaseException):
    """Unwinds a rank after the world has failed."""


class MPIError(Exception):
    """What mpi4py would raise as mpi4py.MPI.Exception."""


def _memory(buf, writable):
    if isinstance(buf, (list, tuple)) and len(buf) in (2, 3):
        buf = buf[0]
    if hasattr(buf, "__cuda_array_interface__") and hasattr(buf, "_memory"):
        buf = buf._memory  # pbt/devices.py: MPI is aware of device memory
    if not isinstance(buf, np.ndarray):
        raise MPIError(f"expecting a buffer object, got {type(buf).__name__}")
    if buf.dtype.hasobject:
        raise MPIError("object arrays are not buffers")
    if not (buf.flags.c_contiguous or buf.flags.f_contiguous):
        raise MPIError("message: buffer is not contiguous")
    if writable and not buf.flags.writeable:
        raise MPIError("message: buffer is read-only")
    flat = buf.reshape(-1, order="A") if buf.flags.c_contiguous else buf.T.reshape(-1)
    if buf.size and not np.may_share_memory(flat, buf):
        raise HarnessError("flat view is a copy")
    return flat.view(np.uint8) if flat.size else np.zeros(0, np.uint8)


class _Send:
    def __init__(self, world, mem, mode):
        self.mode = mode
        self.mem = mem.copy() if mode == "eager" else mem
        self.frozen = mode == "eager"
        self.recv = None

    def freeze(self):
        if not self.frozen:
            self.mem = self.mem.copy()
            self.frozen = True


class _Recv:
    def __init__(self, mem, source, tag):
        self.mem, self.source, self.tag = mem, source, tag
        self.send = None
        self.done = False

    def transfer(self):
        if not self.done:
            self.done = True
            self.send.freeze()
            n = self.send.mem.size
            if n > self.mem.size:
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            self.mem[:n] = self.send.mem


class SendRequest:
    def __init__(self, comm, send):
        self._comm, self._send = comm, send

    def wait(self, status=None):
        send = self._send
        if send.mode == "eager":
            return
        self._comm.world.yield_()
        if send.mode == "sync":
            self._comm.world.block(lambda: send.recv is not None, "wait on a send")
        if send.recv is not None:
            send.recv.transfer()
        send.freeze()

    Wait = wait

    def test(self):
        self._comm.world.yield_()
        if self._send.mode == "sync" and self._send.recv is None:
            return (False, None)
        self.wait()
        return (True, None)

    def Test(self):
        return self.test()[0]


class RecvRequest:
    def __init__(self, comm, recv):
        self._comm, self._recv = comm, recv

    def wait(self, status=None):
        recv = self._recv
        self._comm.world.block(
            lambda: recv.send is not None,
            f"receive from rank {recv.source} tag {recv.tag}",
        )
        recv.transfer()

    Wait = wait

    def test(self):
        self._comm.world.yield_()
        if self._recv.send is None:
            return (False, None)
        self._recv.transfer()
        return (True, None)

    def Test(self):
        return self.test()[0]


class _Group:
    """State shared by the members of one communicator."""

    def __init__(self, world, members):
        self.world = world
        self.members = members  # world ranks
        self.unexpected = {}  # dst -> list of (src, tag, _Send)
        self.posted = {}  # dst -> list of _Recv
        self.collectives = {}  # index -> record

    def post_send(self, src, dst, tag, send):
        for recv in self.posted.setdefault(dst, []):
            if recv.source in (src, ANY_SOURCE) and recv.tag in (tag, ANY_TAG):
                self.posted[dst].remove(recv)
                recv.send, send.recv = send, recv
                return
        self.unexpected.setdefault(dst, []).append((src, tag, send))

    def post_recv(self, dst, recv):
        queue = self.unexpected.setdefault(dst, [])
        for i, (src, tag, send) in enumerate(queue):
            if recv.source in (src, ANY_SOURCE) and recv.tag in (tag, ANY_TAG):
                del queue[i]
                recv.send, send.recv = send, recv
                return
        self.posted.setdefault(dst, []).append(recv)


class Comm:
    def __init__(self, group, rank):
        self.group, self._rank = group, rank
        self.world = group.world
        self._n_collectives = 0

    # -- introspection
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self.group.members)

    rank = property(Get_rank)
    size = property(Get_size)

    def __deepcopy__(self, memo):
        return self

    # -- point to point
    def _check_peer(self, peer, wildcard):
        if wildcard and peer == ANY_SOURCE:
            return
        if isinstance(peer, (bool, float)) or not 0 <= int(peer) < self.Get_size():
            raise MPIError(f"MPI_ERR_RANK: invalid rank {peer}")

    def _check_tag(self, tag, wildcard):
        if wildcard and tag == ANY_TAG:
            return
        if isinstance(tag, (bool, float)) or not 0 <= int(tag) <= TAG_UB:
            raise MPIError(f"MPI_ERR_TAG: invalid tag {tag}")

    def Isend(self, buf, dest, tag=0):
        self.world.yield_()
        self._check_peer(dest, False)
        self._check_tag(tag, False)
        send = _Send(self.world, _memory(buf, False), self.world.mode)
        request = SendRequest(self, send)
        request.buf = buf
        self.group.post_send(self._rank, int(dest), int(tag), send)
        self.world.n_messages += 1
        return request

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).wait()

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        self.world.yield_()
        self._check_peer(source, True)
        self._check_tag(tag, True)
        recv = _Recv(_memory(buf, True), int(source), int(tag))
        request = RecvRequest(self, recv)
        request.buf = buf
        self.group.post_recv(self._rank, recv)
        return request

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Irecv(buf, source, tag).wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None,
                 source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        recv = self.Irecv(recvbuf, source, recvtag)
        send = self.Isend(sendbuf, dest, sendtag)
        recv.wait()
        send.wait()

    # -- collectives
    def _collective(self, kind, root, value, need_all):
        """Contribute `value`; return the record once it may be read."""
        world = self.world
        world.yield_()
        index = self._n_collectives
        self._n_collectives += 1
        record = self.group.collectives.setdefault(
            index, {"kind": (kind, root), "values": {}, "result": None, "left": 0}
        )
        if record["kind"] != (kind, root):
            raise MPIError(
                f"collective mismatch: rank {self._rank} calls {(kind, root)} while "
                f"others call {record['kind']}"
            )
        record["values"][self._rank] = value
        n = self.Get_size()
        if len(record["values"]) == n:  # every rank has got the record by now
            del self.group.collectives[index]
        if need_all or world.sync_collectives:
            world.block(lambda: len(record["values"]) == n, f"{kind} (all ranks)")
        elif root is not None and kind not in ("Gather", "gather"):
            # a rank that only contributes need not wait for anybody
            world.block(lambda: root in record["values"], f"{kind} (root)")
        return record

    def barrier(self):
        self._collective("barrier", None, None, True)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        value = pickle.dumps(obj) if self._rank == root else None
        record = self._collective("bcast", root, value, False)
        return obj if self._rank == root else pickle.loads(record["values"][root])

    def Bcast(self, buf, root=0):
        mem = _memory(buf, self._rank != root)
        record = self._collective("Bcast", root, mem.copy(), False)
        if self._rank != root:
            source = record["values"][root]
            if source.size != mem.size:
                raise MPIError("MPI_ERR_TRUNCATE in Bcast")
            mem[:] = source

    def Scatter(self, sendbuf, recvbuf, root=0):
        if self._rank == root:
            mem = _memory(sendbuf, False)
            if mem.size % self.Get_size():
                raise MPIError("Scatter: buffer is not a multiple of the comm size")
            mem = mem.copy()
        else:
            mem = None
        out = _memory(recvbuf, True)
        record = self._collective("Scatter", root, mem, False)
        source = record["values"][root]
        count = source.size // self.Get_size()
        if count > out.size:
            raise MPIError("MPI_ERR_TRUNCATE in Scatter")
        out[:count] = source[self._rank * count: (self._rank + 1) * count]
        return count

    def Gather(self, sendbuf, recvbuf, root=0):
        mem = _memory(sendbuf, False).copy()
        out = _memory(recvbuf, True) if self._rank == root else None
        record = self._collective("Gather", root, mem, self._rank == root)
        if self._rank == root:
            n = self.Get_size()
            if out.size % n:
                raise MPIError("Gather: buffer is not a multiple of the comm size")
            count = out.size // n
            for i in range(n):
                part = record["values"][i]
                if part.size > count:
                    raise MPIError("MPI_ERR_TRUNCATE in Gather")
                out[i * count: i * count + part.size] = part

    def scatter(self, sendobj=None, root=0):
        value = [pickle.dumps(x) for x in sendobj] if self._rank == root else None
        record = self._collective("scatter", root, value, False)
        return pickle.loads(record["values"][root][self._rank])

    def gather(self, sendobj, root=0):
        record = self._collective(
            "gather", root, pickle.dumps(sendobj), self._rank == root)
        if self._rank == root:
            return [pickle.loads(record["values"][i]) for i in range(self.Get_size())]
        return None

    def allgather(self, sendobj):
        record = self._collective("allgather", None, pickle.dumps(sendobj), True)
        return [pickle.loads(record["values"][i]) for i in range(self.Get_size())]

    def Split(self, color=0, key=0):
        record = self._collective("Split", None, (color, key), True)
        if record["result"] is None:
            groups = {}
            for r, (c, k) in sorted(
                record["values"].items(), key=lambda item: (item[1][1], item[0])
            ):
                groups.setdefault(c, []).append(r)
            record["result"] = {
                c: _Group(self.world, members) for c, members in groups.items()
            }
            self.world.groups.extend(record["result"].values())
        group = record["result"][color]
        return Comm(group, group.members.index(self._rank))

    def Dup(self):
        return self.Split(0, self._rank)


def _locked():
    lock = threading.Lock()
    lock.acquire()
    return lock


class World:
    """n ranks; run(fn) calls fn(comm) on every rank under the case's schedule."""

    def __init__(self, n, mode="eager", policy="random", seed=0, sync_collectives=False):
        if mode not in MODES or policy not in POLICIES:
            raise HarnessError(f"bad schedule {mode} {policy}")
        self.n, self.mode, self.policy = n, mode, policy
        self.sync_collectives = bool(sync_collectives)
        self.rng = LCG(seed)
        self.victim = seed % n
        self.n_messages = 0
        self.n_switches = 0
        self.groups = [_Group(self, list(range(n)))]
        self.failed = None
        self._done = [False] * n
        self._blocked = [None] * n
        self._sems = [_locked() for _ in range(n)]
        self._main = _locked()
        self._local = threading.local()
        self._errors = [None] * n
        self._results = [None] * n

    # -- scheduling
    def _ready(self, r):
        if self._done[r]:
            return False
        blocked = self._blocked[r]
        return blocked is None or blocked[0]()

    def _first_ready(self, ranks):
        for r in ranks:
            if self._ready(r):
                return r
        return None

    def _order(self, me):
        n = self.n
        if self.policy == "reverse":
            return range(n - 1, -1, -1)
        if self.policy == "roundrobin":
            start = 0 if me is None else me + 1
        elif self.policy == "greedy" and me is not None:
            start = me
        else:
            start = self.rng.next(n)
            if self.rng.next(2):
                return [(start - k) % n for k in range(n)]
        return [(start + k) % n for k in range(n)]

    def _pick(self, me):
        if self.failed is not None:
            return self._first_unfinished()
        order = self._order(me)
        if self.policy == "starve":
            order = [r for r in order if r != self.victim] + [self.victim]
        nxt = self._first_ready(order)
        if nxt is not None:
            return nxt
        waiting = [(r, self._blocked[r][1]) for r in range(self.n) if not self._done[r]]
        if not waiting:
            return None
        errors = [
            f"rank {r} raised {type(err).__name__}: {err}"
            for r, err in enumerate(self._errors) if err is not None
        ]
        self.failed = "deadlock: " + "; ".join(
            f"rank {r} blocked in {what}" for r, what in waiting[:4]
        ) + f" ({len(waiting)} ranks blocked)" + "".join("; " + e for e in errors[:2])
        return self._first_unfinished()

    def _first_unfinished(self):
        for r in range(self.n):
            if not self._done[r]:
                return r
        return None

    def _handover(self):
        nxt = self._pick(None)
        self.n_switches += 1
        if nxt is None:
            self._main.release()
        else:
            self._sems[nxt].release()

    def _pause(self, me):
        nxt = self._pick(me)
        if nxt != me:
            self.n_switches += 1
            self._sems[nxt].release()
            self._sems[me].acquire()
        if self.failed is not None:
            raise SimAbort()

    def _me(self):
        return getattr(self._local, "rank", None)

    def yield_(self):
        me = self._me()
        if me is None:
            raise HarnessError("communication outside of the simulated world")
        if self.failed is not None:
            raise SimAbort()
        self._pause(me)

    def block(self, predicate, what):
        me = self._me()
        if predicate():
            return
        self._blocked[me] = (predicate, what)
        try:
            self._pause(me)
        finally:
            self._blocked[me] = None

    def _thread(self, rank, fn):
        self._local.rank = rank
        self._sems[rank].acquire()
        try:
            if self.failed is None:
                self._results[rank] = fn(Comm(self.groups[0], rank))
        except SimAbort:
            pass
        except Exception as err:  # noqa: BLE001
            self._errors[rank] = err
        finally:
            self._done[rank] = True
            self._handover()

    def run(self, fn, expect_errors=False):
        """Returns per-rank results; with expect_errors, (results, errors)."""
        # collectives are indexed per Comm object, so a world is used for one run
        threads = [
            threading.Thread(target=self._thread, args=(r, fn), daemon=True)
            for r in range(self.n)
        ]
        for t in threads:
            t.start()
        first = self._pick(None)
        self._sems[first].release()
        self._main.acquire()
        for t in threads:
            t.join()
        errors = list(self._errors)
        for err in errors:
            if isinstance(err, (HarnessError, Violation)):
                raise err
        if expect_errors:
            return list(self._results), errors
        for r, err in enumerate(errors):
            if err is not None:
                import traceback

                text = "".join(
                    traceback.format_exception(type(err), err, err.__traceback__, limit=-6)
                )
                raise Violation(
                    f"rank {r} raised {type(err).__name__}: {err}\n{text}")
        if self.failed is not None:
            raise Violation(self.failed)
        return list(self._results)

    def leftovers(self, receives=True):
        """Messages sent but never received, receives posted but never matched."""
        n = 0
        for group in self.groups:
            n += sum(len(q) for q in group.unexpected.values())
            if receives:
                n += sum(len(q) for q in group.posted.values())
        return n


def world_from(n, sched):
    return World(
        n,
        mode=sched.get("mode", "eager"),
        policy=sched.get("policy", "random"),
        seed=sched.get("seed", 0),
        sync_collectives=sched.get("sync_coll", False),
    )
