"""C26: capturing a stream returns exactly the bytes written and restores the stream."""
import io
import os
import subprocess
import tempfile

from hypothesis import strategies as st

from ..core import LCG, require

NEEDS_SCRATCH = True
KINDS = ["binary", "unbuffered", "text", "append", "pipe", "update"]


def strategy(tier):
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                ["enter", "enter", "enter", "raw", "raw", "buffered", "twin", "exit", "exit",
                 "exit", "exit_error", "seek", "large"]
                + (["child"] if tier == "thorough" else [])),
            "stream": st.integers(0, 2),
            "pick": st.integers(0, 5),
            "data": st.binary(max_size=12).map(bytes.hex),
            "error": st.sampled_from(["fault", "interrupt", "oserror", "value", "exit"]),
        }
    )
    return st.fixed_dictionaries(
        {
            # whether children inherit the descriptors of the streams
            "inherit": st.sampled_from([7, 7, 0, 1, 2]),
            "streams": st.lists(st.sampled_from(KINDS), min_size=1, max_size=3),
            "ops": st.lists(op, min_size=1, max_size=40 if tier == "thorough" else 24),
        }
    )


PINNED = [
    {"inherit": 1, "streams": ["binary", "pipe"], "ops": [
        {"op": op, "stream": s, "pick": p, "data": d, "error": e} for op, s, p, d, e in [
            ("enter", 0, 0, "616263", "fault"), ("child", 0, 0, "616263", "fault"),
            ("large", 0, 0, "fffe00", "fault"), ("enter", 1, 0, "", "fault"),
            ("child", 1, 0, "610a0d0a", "fault"), ("exit", 0, 0, "", "fault"),
            ("raw", 1, 0, "00", "fault"), ("exit_error", 1, 0, "", "interrupt"),
            ("child", 1, 0, "6262", "fault")]]},
]


class Fault(Exception):
    pass


ERRORS = {"fault": Fault, "interrupt": KeyboardInterrupt, "oserror": OSError,
          "value": ValueError, "exit": SystemExit}


class Stream:
    """A stream of ours with the destination its descriptor had at first."""

    def __init__(self, kind, path, inherited):
        self.kind, self.path, self.reader = kind, path, None
        self.captures = []  # the innermost is last
        self.written = bytearray()
        self.seen = bytearray()
        if kind == "pipe":
            self.reader, w = os.pipe()
            os.set_blocking(self.reader, False)
            self.stream = os.fdopen(w, "wb", 0)
        else:
            mode = {"binary": "wb", "unbuffered": "wb", "text": "w", "append": "ab",
                    "update": "w+b"}[kind]
            extra = {"encoding": "latin-1", "newline": ""} if kind == "text" else {}
            self.stream = open(path, mode, 0 if kind == "unbuffered" else -1, **extra)
        self.fd = self.stream.fileno()
        self.inherited = inherited
        os.set_inheritable(self.fd, inherited)
        # a second descriptor of the same destination, not captured
        self.twin = os.dup(self.fd)

    def target(self):
        return self.captures[-1].data if self.captures else self.written

    def sent(self):
        if self.reader is not None:
            try:
                while True:
                    chunk = os.read(self.reader, 65536)
                    if not chunk:
                        break
                    self.seen += chunk
            except BlockingIOError:
                pass
            return bytes(self.seen)
        with open(self.path, "rb") as f:
            return f.read()

    def close(self):
        try:
            self.stream.close()
        except OSError:
            pass
        for fd in (self.twin, self.reader):
            if fd is not None:
                os.close(fd)


class Capture:
    def __init__(self, stream, manager, out):
        self.stream, self.manager, self.out = stream, manager, out
        self.data = bytearray()


def descriptors():
    """Descriptor -> what it refers to."""
    found = {}
    for name in os.listdir("/proc/self/fd"):
        try:
            info = os.fstat(int(name))
        except OSError:
            continue  # the descriptor of the listing itself
        found[int(name)] = (info.st_dev, info.st_ino)
    return found


def check(case, ctx):
    import fv3gfs.util as util

    saved_tempdir = tempfile.tempdir
    tempfile.tempdir = os.path.join(ctx.scratch, "tmp")
    os.mkdir(tempfile.tempdir)
    streams = []
    try:
        for k, kind in enumerate(case["streams"]):
            streams.append(Stream(kind, os.path.join(ctx.scratch, f"stream{k}"),
                                  bool(case["inherit"] >> k & 1)))
        run(case, ctx, util, streams)
        require(os.listdir(tempfile.tempdir) == [], "temporary files were left behind")
    finally:
        tempfile.tempdir = saved_tempdir
        for s in streams:
            for capture in reversed(s.captures):  # only after a violation
                try:
                    capture.manager.__exit__(None, None, None)
                except Exception:  # noqa: BLE001
                    pass
            s.close()



def run(case, ctx, util, streams):
    at_start = descriptors()
    reading = []

    def leave(capture, error, what):
        s = capture.stream
        require(s.captures[-1] is capture, "harness: exits of one stream are nested")
        if error is None:
            with ctx.sut(what):
                swallowed = capture.manager.__exit__(None, None, None)
        else:
            err = ERRORS[error]("body")
            try:
                raise err
            except BaseException as caught:  # noqa: BLE001
                tb = caught.__traceback__
            try:
                swallowed = capture.manager.__exit__(type(err), err, tb)
            except BaseException as other:  # noqa: BLE001
                require(other is err, f"{what}: the body raised {err!r}, the capture {other!r}")
                swallowed = False
            require(not swallowed, f"{what}: the exception of the body was swallowed")
        s.captures.pop()
        if error is None:
            got = capture.out.getvalue()
            require(got == bytes(capture.data),
                    lambda: f"{what}: captured {show(got)}, written {show(capture.data)}")
            capture.out.seek(0)
            require(capture.out.read() == got, f"{what}: reading the capture")
            reading.append((capture.out, got))
        ctx.label("depth", len(s.captures) + 1)
        restored = descriptors().get(s.fd)
        if not s.captures:
            require(restored == at_start[s.fd], f"{what}: the stream was not restored")
            compare(what)

    def compare(what):
        for k, s in enumerate(streams):
            got = s.sent()
            require(got == bytes(s.written),
                    lambda: f"{what}: stream {k} ({s.kind}) received {show(got)} at its own "
                    f"destination instead of {show(s.written)}")
            require(not s.inherited or os.get_inheritable(s.fd),
                    f"{what}: children no longer inherit stream {k} ({s.kind})")
        for out, data in reading:
            require(out.getvalue() == data, f"{what}: an earlier capture changed")
        if not any(s.captures for s in streams):
            now = descriptors()
            require(now == at_start,
                    f"{what}: open descriptors {sorted(now)} with no capture active, before "
                    f"the first one {sorted(at_start)}")

    for step, op in enumerate(case["ops"]):
        s = streams[op["stream"] % len(streams)]
        data = bytes.fromhex(op["data"])
        kind = op["op"]
        what = f"op {step}: {kind} on stream {streams.index(s)} ({s.kind})"
        if kind == "enter":
            if sum(len(x.captures) for x in streams) >= 6:
                continue
            with ctx.sut(what):
                manager = util.capture_stream(s.stream)
                out = manager.__enter__()
            require(isinstance(out, io.BytesIO), f"{what}: yields {type(out).__name__}")
            require(s.stream.fileno() == s.fd, f"{what}: the descriptor number changed")
            s.captures.append(Capture(s, manager, out))
            ctx.label("enter")
        elif kind in ("exit", "exit_error"):
            active = [x for x in streams if x.captures]
            if not active:
                continue
            capture = active[op["pick"] % len(active)].captures[-1]
            leave(capture, op["error"] if kind == "exit_error" else None, what)
            ctx.label(kind)
        elif kind == "raw":
            os.write(s.fd, data)
            s.target().extend(data)
        elif kind == "buffered":
            s.stream.write(data.decode("latin-1") if s.kind == "text" else data)
            s.stream.flush()
            s.target().extend(data)
        elif kind == "twin":  # not written to the captured descriptor
            os.write(s.twin, data)
            s.written.extend(data)
        elif kind == "large":
            n = 3 + LCG(op["pick"] + 7).next(4) * 40000
            block = (data + b"\x00\n\r\xff")
            block = (block * (n // len(block) + 1))[:n]
            if s.kind == "pipe" and not s.captures:
                block = block[:1000]
            sent = 0
            while sent < len(block):
                sent += os.write(s.fd, block[sent:])
            s.target().extend(block)
        elif kind == "child":
            if s.inherited and os.get_inheritable(s.fd):  # a child that knows the number
                done = subprocess.run(
                    ["/bin/bash", "-c", f"cat >&{s.fd}"], input=data, close_fds=False,
                    timeout=60, check=False)
            else:
                done = subprocess.run(
                    ["/bin/cat"], input=data, stdout=s.fd, timeout=60, check=False)
            require(done.returncode == 0, f"{what}: child failed")
            s.target().extend(data)
            ctx.label("child")
        if kind in ("raw", "large", "buffered") and s.captures and data:
            ctx.nontrivial()
        compare(what)
    for k, s in enumerate(streams):
        while s.captures:
            leave(s.captures[-1], None, f"end: exit of stream {k}")
    compare("end")


def show(data):
    data = bytes(data)
    return f"{len(data)} bytes {data[:60]!r}"
