"""C12: communication buffers are exclusive, exact and reused safely."""
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, encode, filled, first_difference, same, seeds
from ..core import fail, require

DTYPES = ["float64", "float32", "int32", "int64", "bool", "complex128", "int16",
          ">f8", ">i4"]  # the byte order of NetCDF files
SHAPES = [[2, 3], [3, 2], [6], [1, 6], [2, 3, 1], [4], [2, 2], [], [1], [3, 2, 2], [0, 2],
          [300, 400], [70000]]


def strategy(tier):
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                ["array", "array", "send", "send", "recv", "recv", "close", "close",
                 "close", "raise", "nested"]),
            "shape": st.sampled_from(SHAPES),
            "dtype": st.sampled_from(DTYPES),
            "dtype_as": st.sampled_from(["dtype", "type"]),
            "allocator": st.sampled_from(["empty", "zeros", "ones", "own"]),
            "memory": st.sampled_from(MEMORY),
            "timer": st.sampled_from(["none", "timer", "null", "disabled"]),
            "pick": st.integers(0, 7),
            "seed": seeds,
        }
    )
    few = st.integers(0, 2).flatmap(
        lambda k: st.lists(op, min_size=2, max_size=40 if tier == "thorough" else 24)
        if k == 0 else st.tuples(
            # many operations on one kind of buffer: reuse is certain
            st.lists(op, min_size=6, max_size=24), op
        ).map(lambda t: [dict(o, shape=t[1]["shape"], dtype=t[1]["dtype"],
                              allocator=t[1]["allocator"], dtype_as="dtype")
                         for o in t[0]]) if k == 1 else st.tuples(
            # one kind of buffer in two byte orders
            st.lists(op, min_size=6, max_size=24), op
        ).map(lambda t: [dict(o, shape=t[1]["shape"], allocator=t[1]["allocator"],
                              dtype=[">f8", "float64"][o["seed"] % 2], dtype_as="dtype")
                         for o in t[0]]))
    return st.fixed_dictionaries({"ops": few})


class Custom:
    """An allocator of the caller; counts its calls."""

    def __init__(self):
        self.calls = 0

    def __call__(self, shape, dtype=float):
        self.calls += 1
        return np.full(shape, 0, dtype=dtype)


class Fault(Exception):
    pass


class Live:
    """A context that has been entered and not yet left."""

    def __init__(self, manager, buffer, kind, array=None, expected=None, pooled=True):
        self.manager, self.buffer, self.kind = manager, buffer, kind
        self.array, self.expected, self.pooled = array, expected, pooled
        self.token = np.array(buffer, copy=True)
        self.timer = None

    def write(self, seed):
        ids = np.arange(self.buffer.size).reshape(self.buffer.shape) + seed % 100003
        self.buffer[...] = encode(ids, self.buffer.dtype)
        self.token = np.array(self.buffer, copy=True)


def check(case, ctx):
    import fv3gfs.util as util
    import fv3gfs.util.buffer as module

    cache = getattr(module, "BUFFER_CACHE", None)
    if isinstance(cache, dict):
        cache.clear()  # histories start from the state of a new process
    allocators = {"empty": np.empty, "zeros": np.zeros, "ones": np.ones, "own": Custom()}
    disabled = util.Timer()
    disabled.disable()
    timers = {"none": None, "timer": util.Timer(), "null": util.NullTimer(),
              "disabled": disabled}
    live = []
    reuse = {}

    def check_live(what):
        for k, entry in enumerate(live):
            require(same(entry.buffer, entry.token),
                    lambda: f"{what}: the content of buffer {k} ({entry.kind}, still in use) "
                    f"changed: {first_difference(entry.buffer, entry.token)}")
            if entry.kind == "send" and entry.array is not entry.buffer:
                require(same(entry.array, entry.expected),
                        f"{what}: the array being sent was altered")

    def opened(manager, op, kind, what, array=None):
        with ctx.sut(what):
            buffer = manager.__enter__()
        require(isinstance(buffer, np.ndarray), f"{what}: got {type(buffer)}")
        shape = tuple(op["shape"]) if array is None else array.shape
        dtype = np.dtype(op["dtype"]) if array is None else array.dtype
        require(buffer.shape == shape, f"{what}: shape {buffer.shape}, wanted {shape}")
        require(buffer.dtype == dtype, f"{what}: dtype {buffer.dtype}, wanted {dtype}")
        require(buffer.flags.c_contiguous, f"{what}: buffer is not contiguous")
        require(buffer.flags.writeable, f"{what}: buffer is read-only")
        passed = array is not None and array.flags.c_contiguous
        if passed:
            require(buffer is array or (
                buffer.ctypes.data == array.ctypes.data and np.shares_memory(buffer, array))
                or array.size == 0,
                f"{what}: a contiguous array was not passed through")
            ctx.label("passed through")
        elif array is not None:
            require(not np.shares_memory(buffer, array), f"{what}: shares the array's memory")
        for k, other in enumerate(live):
            require(not np.shares_memory(buffer, other.buffer),
                    f"{what}: shares memory with buffer {k} ({other.kind}), still in use")
            if other.array is not None:
                require(not np.shares_memory(buffer, other.array), f"{what}: shares memory")
        entry = Live(manager, buffer, kind, array, None, not passed)
        address = (buffer.ctypes.data, buffer.shape, str(buffer.dtype))
        if not passed and buffer.size:
            if reuse.get(address):
                ctx.label("reused buffer")
                ctx.nontrivial()
            reuse[address] = True
        return entry

    def make(op, what):
        kind = op["op"]
        allocator = allocators[op["allocator"]]
        dtype = np.dtype(op["dtype"])
        if kind == "array":
            arg = dtype if op["dtype_as"] == "dtype" or not dtype.isnative else dtype.type
            entry = opened(
                util.array_buffer(allocator, tuple(op["shape"]), dtype=arg), op, kind, what)
            entry.write(op["seed"])
            return entry
        shape = tuple(op["shape"])
        ids = np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + op["seed"] % 7919
        array = filled(encode(ids, dtype), dtype, op["memory"])
        expected = array.copy()
        timer = timers[op["timer"]]
        function = util.send_buffer if kind == "send" else util.recv_buffer
        if timer is None:
            manager = function(allocator, array)
        else:
            manager = function(allocator, array, timer=timer)
        running(timer, what)
        packed = timer.hits.get("pack", 0) if timer else 0
        entry = opened(manager, op, kind, what, array)
        if timer is timers["timer"] and entry.pooled:
            entry.timer = timer
            if kind == "send":
                require(timer.hits.get("pack", 0) > packed, f"{what}: packing was not timed")
                entry.timer = None
        entry.expected = expected
        require(same(array, expected), f"{what}: opening altered the array")
        if kind == "send":
            require(same(entry.buffer, expected),
                    lambda: f"{what}: the buffer does not show the array's contents: "
                    f"{first_difference(entry.buffer, expected)}")
            entry.token = expected.copy()
        else:
            entry.write(op["seed"] + 1)
        running(timer, what)
        return entry

    def running(timer, what):
        """No clock is left running while the buffer is in the caller's hands."""
        if timer is not None and timer is timers["timer"]:
            try:
                timer.disable()
            except RuntimeError as err:
                fail(f"{what}: {err}")
            timer.enable()

    def close(entry, fault, what):
        error = Fault("injected") if fault else None
        counted = entry.timer.hits.get("unpack", 0) if entry.timer else 0
        try:
            if fault:
                swallowed = entry.manager.__exit__(Fault, error, None)
                require(not swallowed, f"{what}: the exception was swallowed")
            else:
                entry.manager.__exit__(None, None, None)
        except Fault as err:
            require(err is error, f"{what}: another exception came out")
        if fault:
            return
        if entry.timer:
            require(entry.timer.hits.get("unpack", 0) > counted,
                    f"{what}: unpacking was not timed")
        if entry.kind == "recv":
            require(same(entry.array, entry.token),
                    lambda: f"{what}: the array does not hold what was received: "
                    f"{first_difference(entry.array, entry.token)}")
        elif entry.kind == "send":
            require(same(entry.array, entry.expected), f"{what}: the sent array was altered")

    for step, op in enumerate(case["ops"]):
        what = f"op {step} ({op['op']} {op['shape']} {op['dtype']} {op['memory']})"
        if op["op"] in ("array", "send", "recv"):
            live.append(make(op, what))
        elif op["op"] in ("close", "raise"):
            if live:
                entry = live.pop(op["pick"] % len(live))
                with ctx.sut(what):
                    close(entry, op["op"] == "raise", what)
        else:  # receive into one array what another one sends
            shape = tuple(op["shape"])
            dtype = np.dtype(op["dtype"])
            ids = np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + op["seed"] % 97
            source = filled(encode(ids, dtype), dtype, op["memory"])
            target = filled(np.zeros(shape, dtype), dtype, MEMORY[op["pick"] % len(MEMORY)])
            with ctx.sut(what):
                with util.send_buffer(np.empty, source) as s:
                    with util.recv_buffer(np.empty, target) as r:
                        require(not np.shares_memory(s, r), f"{what}: buffers share memory")
                        r[...] = s
            require(same(target, source), f"{what}: {first_difference(target, source)}")
        check_live(what)
        ctx.label(op["op"])
    for step, entry in enumerate(reversed(live)):
        with ctx.sut("closing"):
            close(entry, False, f"closing buffer {step}")
    for name in ("send", "recv"):
        function = util.send_buffer if name == "send" else util.recv_buffer
        with ctx.sut(f"{name}_buffer of None"), function(np.empty, None) as nothing:
            require(nothing is None, f"{name}_buffer of None gives {nothing}")
    for timer in (timers["null"], timers["disabled"]):
        require(not timer.times and not timer.hits, "a disabled timer recorded something")
    running(timers["timer"], "at the end")
