"""C21: reads release everything they open and leave the caller's stream usable.

Monitors around every read: open descriptors (/proc/self/fd, with targets),
threads (threading and /proc/self/task), use of the caller's stream after the
read has ended, its open state, and re-reading it. Failed reads are checked
while their exception (and so its frames) is still held, with the cycle
collector off, so that nothing is released by luck.
"""
from __future__ import annotations

import dis
import functools
import gc
import io
import os
import struct
import sys
import tempfile
import threading
import time
import zipfile
from pathlib import Path

from .. import gen, rd, wb
from ..mon import Violation
from .c08 import compare
from .c19 import EXC, Counted, Faulty, parts_of, rezip, role

ID = "C21"
LEVEL = "exploration"
RULE = ("histories of 4-30 reads over a pool of workbooks (both containers, small and several buffers long; intact, cut, corrupt, not a "
        "workbook) through path, Path, open file, byte stream and unnamed temporary file, with options that succeed, stop early or fail at "
        "every stage (archive, sheet choice, sheet data, callback, consumer, header, filter, dtype); reads interrupted by an exception before any "
        "line of the package that the reading thread executes; non-trivial when the history has a "
        "failing or early-stopped read, distinct by history")
ASSUMPTIONS = ["a helper thread that is ending is given 20 s to end", "Linux /proc describes the process"]


def plan(tier):
    k = 15 if tier == "thorough" else 1
    return [("history", 260 * k, 3), ("late", 60 * k, 3), ("same", 80 * k, 3), ("interrupted", 64 * k, 3), ("slow", 40 * k)]


def required(tier):
    return {"reads": 3500, "ok": 900, "failed": 1000, "early_stops": 300, "path_reads": 600, "stream_rereads": 500, "fd_snapshots": 3500, "threads_seen": 300, "consumer_failures": 50, "interruptions": 900, "interrupted_places": 150, "slow_ends": 15}


class Stream(io.BytesIO):
    """A caller's stream that records who uses it."""

    def __init__(self, data):
        super().__init__(data)
        self.ended = False
        self.late: list = []
        self.tids: set = set()
        self.fail_at = -1
        self.delay = 0.0

    def _use(self, what):
        self.tids.add(threading.get_native_id())
        if self.ended:
            self.late.append((what, threading.current_thread().name))

    def read(self, *a):
        self._use("read")
        self.fail_at -= 1
        if self.delay and threading.current_thread() is not threading.main_thread():
            time.sleep(self.delay)  # the helper thread lags behind
            self._use("read")
        if self.fail_at == 0:
            raise OSError(5, "injected")
        return super().read(*a)

    def seek(self, *a):
        self._use("seek")
        return super().seek(*a)

    def tell(self):
        self._use("tell")
        return super().tell()

    def close(self):
        self._use("close")
        super().close()


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink(f"/proc/self/fd/{f}")
            if not to.startswith("/proc/"):  # the watchdog of this framework looks there
                out[int(f)] = to
        except OSError:
            pass
    return out


def prepare(ctx):
    b = wb.Book([wb.Sheet("S", [{0: wb.C("s", "a", 0, "shared"), 1: wb.C("n", 40000.0, 1, "real")}])], [wb.Style(0, None, "gen"), wb.Style(14, None, "tmp")], {})
    for c in ("xlsx", "xlsb"):
        rd.attempt(wb.write(b, c), conflict_resolve="all")


def pool(r):
    """[(container, bytes, kind, rows)]"""
    out = []
    for _ in range(r.choice([2, 3])):
        cont = r.choice(["xlsx", "xlsb"])
        n = r.choice([3, 10, 40, 400, 1200])
        b = gen.book(r, nrows=n, cols=gen.col_set(r, r.choice([2, 3])), nsheets=r.choice([1, 2]), empty_rows=False)
        d = wb.write(b, cont)
        kind = r.choice(["good", "good", "good", "cut", "badref", "zipcut", "notbook", "broken", "broken"])
        if kind == "cut":
            p = parts_of(d)
            k = next(k for k, x in enumerate(p) if role(x[0]) == "sheet")
            p[k] = (p[k][0], p[k][1][: r.randrange(len(p[k][1]))])
            d = rezip(p)
        elif kind == "badref":
            d = badref(r, cont, n)
        elif kind == "broken":
            d = broken(r, d)
        elif kind == "zipcut":
            d = r.choice([d[: r.randrange(len(d))], b"", b"PK\3\4", bytes(200)])
        elif kind == "notbook":
            d = rezip([("a.txt", b"x")])
        out.append((cont, d, kind, n))
    return out


def broken(r, d):
    """A part of any role that cannot be read: markup that breaks off, or data against its checksum."""
    p = parts_of(d)
    k = r.choice([k for k, x in enumerate(p) if x[0].startswith("xl/") and len(x[1]) > 20])
    if p[k][0].endswith((".xml", ".rels")) and r.random() < 0.6:
        cut = r.randrange(1, len(p[k][1]))
        p[k] = (p[k][0], p[k][1][:cut] + r.choice([b"", b"<", b"</nothing>", b"&"]))
        return rezip(p)
    with zipfile.ZipFile(io.BytesIO(d)) as z:
        zi = z.getinfo(p[k][0])
    at = zi.header_offset + 30 + len(zi.filename.encode()) + struct.unpack("<H", d[zi.header_offset + 28:zi.header_offset + 30])[0]
    at += r.randrange(max(1, zi.compress_size))
    return d[:at] + bytes([d[at] ^ r.choice([1, 128, 255])]) + d[at + 1:]


def badref(r, cont, n):
    """A long sheet whose second row makes the column store fail while the sheet is still being parsed."""
    words = {f"w{k}" for k in range(3)}
    rows = [{0: wb.C("s", r.choice(sorted(words)), 0, "shared") if y % 3 else wb.C("b", True, 0), 1: wb.C("s", f"tail {y} " + "z" * 40, 0, "inline")} for y in range(max(n, 60))]
    b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen")], {})
    p = parts_of(wb.write(b, cont))
    k = next(k for k, x in enumerate(p) if role(x[0]) == "sheet")
    d = p[k][1]
    if cont == "xlsx":
        d = d.replace(b't="s"><v>', b't="s"><v>x', 3)
    else:
        # a boolean cell without its value
        d = d.replace(wb.rec(4, b"\0" * 8 + b"\1"), wb.rec(4, b"\0" * 8), 2)
    p[k] = (p[k][0], d)
    return rezip(p)


def pick(r):
    """(options, tag)"""
    o: dict = {}
    k = r.random()
    h = r.choice([0, 1])
    s: object = 0
    tag = "plain"
    if k < 0.3:
        pass
    elif k < 0.5:
        o["take_rows"] = r.choice([1, 2, 5])
        tag = "early"
    elif k < 0.6:
        s = r.choice([99, -1, "absent", None, 1.5])
        tag = "sheet"
    elif k < 0.7:
        w = r.choice(["null_values", "row_callback"])
        o[w] = Counted(w, r.choice([0, 1, 2, 7, 100]), r.choice(EXC))
        tag = "call"
    elif k < 0.78:
        o["lookup_head"] = r.choice(["\x00never", 0, 99, "("])
    elif k < 0.86:
        o["row_filters"] = r.choice([".*", "(", 5, [0], [b"x"]])
    elif k < 0.93:
        import pyarrow as pa

        o["dtypes"] = r.choice([pa.null(), pa.duration("s"), [pa.string()] * 9, pa.large_string()])
    else:
        h = r.choice([["only"], ["a", "b"], 3])
    if r.random() < 0.1:
        o[r.choice(["skip_rows", "take_rows"])] = r.choice([-1, "x", 1.5])
    if r.random() < 0.2:
        o["conflict_resolve"] = "all"
    return s, h, o, tag


def run(src, s, h, o):
    from rxls.reader import read

    try:
        return "ok", read(src, s, h, **o)
    except Violation:
        raise
    except BaseException as e:
        return "err", e


def settle(base_threads):
    """Threads other than those known, once ending ones had time to end."""
    t0 = time.monotonic()
    while True:
        new = [t for t in threading.enumerate() if t not in base_threads]
        if not new or time.monotonic() - t0 > 20:
            return new, time.monotonic() - t0
        for t in new:
            t.join(0.5)


def step(ctx, r, data, cont, how, stream, call, held, what):
    """One monitored read. Returns (status, result)."""
    threads = set(threading.enumerate())
    before = fds()
    s, h, o, tag = call
    path = None
    opened = None
    if how in ("path", "Path", "file"):
        fd, path = tempfile.mkstemp(dir=rd.tmpdir())
        os.write(fd, data)
        os.close(fd)
        src = path if how == "path" else Path(path)
        if how == "file":
            opened = src = open(path, "rb")
    elif how == "spool":
        opened = src = tempfile.TemporaryFile(dir=rd.tmpdir())
        src.write(data)
        src.seek(r.choice([0, 5, len(data)]))
    else:
        src = stream
        stream.ended = False
        stream.late.clear()
        if r.random() < 0.15:
            stream.fail_at = r.choice([1, 2, 3, 5, 9, 14, 20, 30])
            ctx.hit("io_faults_armed")
    st, res = run(src, s, h, o)
    if how == "stream":
        stream.ended = True
        stream.fail_at = -1
    held.append(res)
    ctx.hit("reads")
    ctx.hit("oracle_evaluations")
    ctx.hit("ok" if st == "ok" else "failed")
    if tag == "early" and st == "ok":
        ctx.hit("early_stops")
    if path:
        ctx.hit("path_reads")
    msg = f"{cont} via {how}, read {'returned' if st == 'ok' else f'raised {type(res).__name__}'}"
    new, dt = settle(threads)
    if new:
        raise Violation(f"{msg}: threads {[t.name for t in new]} still run {dt:.0f} s after it", case=what)
    if dt > 0.0005:
        ctx.hit("threads_seen")
    if opened is not None:
        if opened.closed:
            raise Violation(f"{msg}: the caller's file object was closed", case=what)
        opened.seek(0)
        if opened.read() != data:
            raise Violation(f"{msg}: the caller's file object lost its content", case=what)
        opened.close()
    after = fds()
    ctx.hit("fd_snapshots")
    leak = {k: v for k, v in after.items() if before.get(k) != v}
    if leak:
        raise Violation(f"{msg}: descriptors left open: {leak}", case=what)
    gone = {k: v for k, v in before.items() if k not in after}
    if gone:
        raise Violation(f"{msg}: descriptors of the caller were closed: {gone}", case=what)
    if how == "stream":
        if stream.closed:
            raise Violation(f"{msg}: the caller's stream was closed", case=what)
        if stream.late:
            raise Violation(f"{msg}: the caller's stream was used after the read ended: {stream.late[:3]}", case=what)
        if len(stream.tids) > 1:
            ctx.hit("threads_seen")
    if path:
        os.unlink(path)
    return st, res


def reread(ctx, streams, solo, what):
    for (cont, data, kind, n), stream, want in zip(streams[0], streams[1], solo):
        stream.ended = False
        st, res = run(stream, 0, 0, {})
        stream.ended = True
        ctx.hit("stream_rereads")
        ctx.hit("oracle_evaluations")
        if st != want[0] or (st == "ok" and not res.equals(want[1]) and compare(want[1], res)):
            raise Violation(f"{cont} ({kind}): the stream reads differently after the history: {want[0]} before, {st} after ({res!r:.200})", case=what)
        if st == "err" and type(res) is not type(want[1]):
            raise Violation(f"{cont} ({kind}): the stream fails differently after the history: {want[1]!r}, then {res!r}", case=what)


@functools.lru_cache(None)
def exits(code):
    """Offsets where a `with` statement is about to call `__exit__`: an exception raised there by a tracer skips the call, whatever the code is."""
    ins = list(dis.get_instructions(code))
    out = set()
    for k in range(len(ins) - 3):
        if ins[k + 3].opname == "CALL" and all(x.opname == "LOAD_CONST" and x.argval is None for x in ins[k:k + 3]):
            out.update(x.offset for x in ins[max(0, k - 2):k + 4])
    return frozenset(out)


class Interrupt:
    """Raises in the reading thread when the package is about to execute its n-th line."""

    def __init__(self, at=0, exc=None, pause=0.0):
        import rxls

        self.at, self.exc, self.pause = at, exc, pause
        self.root = os.path.dirname(rxls.__file__) + os.sep
        self.lines = 0
        self.first: dict = {}
        self.where = None

    def line(self, frame, event, arg):
        if event == "line" and self.where is None and frame.f_lasti not in exits(frame.f_code):
            self.lines += 1
            if self.at == 0:
                self.first.setdefault((frame.f_code.co_filename[len(self.root):], frame.f_code.co_name, frame.f_lineno), self.lines)
            elif self.lines == self.at:
                self.where = (frame.f_code.co_filename[len(self.root):], frame.f_code.co_name, frame.f_lineno)
                time.sleep(self.pause)
                raise self.exc
        return self.line

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *_):
        sys.settrace(self.old)


class Sudden(Exception):
    pass


SUDDEN = [KeyboardInterrupt, KeyboardInterrupt, MemoryError, SystemExit, Sudden]
PLACES: set = set()


def no_thread(self):
    raise RuntimeError("can't start new thread")


def interrupted(ctx, r, i):
    """A read stopped by an exception before any line of the package leaves nothing behind, and no trace in later reads."""
    cont = ("xlsx", "xlsb")[i % 2]
    big = i % 8 < 2  # as much as possible waits between the threads when it stops
    n = 6000 if big else r.choice([2, 5, 12, 40])
    b = gen.book(r, nrows=n, cols=gen.col_set(r, r.choice([2, 3])), nsheets=r.choice([1, 2]), empty_rows=r.random() < 0.3)
    data = wb.write(b, cont)
    o, h = r.choice([({}, 0), ({}, 1), ({"conflict_resolve": "all"}, 1), ({"take_rows": 3, "skip_rows": 1}, 1), ({"null_values": ["a"], "skip_cols": [1]}, 2),
                     ({"row_filters": ".*"}, 1), ({"lookup_head": "."}, 1), ({"null_values": str.isspace}, 1)])
    stream = Stream(data)
    fd, path = tempfile.mkstemp(dir=rd.tmpdir())
    os.write(fd, data)
    os.close(fd)
    solo = run(io.BytesIO(data), 0, h, o)
    with Interrupt() as probe:
        run(io.BytesIO(data), 0, h, o)
    at = [r.choice(sorted(probe.first.values())) if r.random() < 0.7 else r.randint(1, max(1, probe.lines)) for _ in range(6 if big else 24)]
    if big:
        # in the middle of the cells
        at[:4] = [r.randint(1, max(1, probe.lines)) // 2 for _ in range(4)]
    threads = set(threading.enumerate())
    for k in at:
        how = r.choice(["path", "stream"])
        src = path if how == "path" else stream
        exc = r.choice(SUDDEN)("injected")
        what = {"container": cont, "how": how, "options": repr(o), "header": h, "line": k, "exception": repr(exc)}
        before = fds()
        start = threading.Thread.start
        if r.random() < 0.05:
            threading.Thread.start = no_thread
        try:
            with Interrupt(k, exc, 1.0 if big and cont == "xlsx" else 0.0) as it:
                st, res = run(src, 0, h, o)
        finally:
            threading.Thread.start = start
        ctx.hit("reads")
        ctx.hit("oracle_evaluations")
        ctx.hit("ok" if st == "ok" else "failed")
        if it.where:
            ctx.hit("interruptions")
            if it.where not in PLACES:
                PLACES.add(it.where)
                ctx.hit("interrupted_places")
            what["where"] = it.where
        msg = f"{cont} via {how}, read interrupted at {it.where} by {type(exc).__name__}"
        if st == "ok" and (solo[0] != "ok" or compare(solo[1], res)):
            raise Violation(f"{msg}: it returned another table than without the interruption", case=what)
        del res, exc, it
        gc.collect()
        new, dt = settle(threads)
        if new:
            raise Violation(f"{msg}: threads {[t.name for t in new]} still run {dt:.0f} s after it", case=what)
        gc.collect()
        ctx.hit("fd_snapshots")
        after = fds()
        leak = {x: v for x, v in after.items() if before.get(x) != v}
        if leak or len(after) < len(before):
            raise Violation(f"{msg}: descriptors left open: {leak}, or closed: {before.keys() - after.keys()}", case=what)
        if stream.closed:
            raise Violation(f"{msg}: the caller's stream was closed", case=what)
        if r.random() < 0.3:
            back = run(stream if how == "stream" else path, 0, h, o)
            ctx.hit("stream_rereads")
            if back[0] != solo[0] or (back[0] == "ok" and compare(solo[1], back[1])) or (back[0] == "err" and type(back[1]) is not type(solo[1])):
                raise Violation(f"{msg}: the next read of it differs: {solo[0]} before, {back[0]} after ({back[1]!r:.200})", case=what)
    os.unlink(path)
    ctx.seen_case((ID, ctx.seed, "interrupted", i, tuple(at)), True)


class Slow:
    """A row callback that takes its time once, and knows whether it is being called."""

    def __init__(self, at, pause):
        self.at = at
        self.pause = pause
        self.calls = 0
        self.inside = False

    def __call__(self):
        self.inside = True
        self.calls += 1
        if self.calls == self.at:
            time.sleep(self.pause)
        self.inside = False


def slow(ctx, r, i):
    """The reading side ends while the caller's callback is still at work: the read must not end before it."""
    cont = "xlsx" if i % 5 else "xlsb"
    cb = Slow(r.choice([2, 4, 4, 5, 8, 30]), r.choice([0.02, 0.1, 0.3, 0.7, 1.2, 1.2]))
    what = {"container": cont, "at": cb.at, "pause": cb.pause}
    if i % 2:
        what["end"] = "the column store fails"
        data = badref(r, cont, 60)
        st, res = run(io.BytesIO(data), 0, 0, {"row_callback": cb})
        if st != "err":
            return
    else:
        what["end"] = "the iteration is closed"
        from rxls.reader.xlsb import XlsbWorkbook
        from rxls.reader.xlsx import XlsxWorkbook

        b = gen.book(r, nrows=60, cols=[0, 1], nsheets=1, empty_rows=False)
        with (XlsxWorkbook if cont == "xlsx" else XlsbWorkbook)(io.BytesIO(wb.write(b, cont))) as w:
            cells = w.iter_worksheet(0, row_callback=cb)
            next(cells, None)
            cells.close()
            ended = not cb.inside, cb.calls
        st = "closed"
    if st == "err":
        ended = not cb.inside, cb.calls
    ctx.hit("oracle_evaluations")
    if not ended[0]:
        raise Violation(f"{cont}: {what['end']}, and the row callback is still at work after the end", case=what)
    time.sleep(0.01)
    if cb.calls != ended[1]:
        raise Violation(f"{cont}: {what['end']}, and the row callback is called after the end", case=what)
    if cb.calls >= cb.at:
        ctx.hit("slow_ends")
    ctx.seen_case((ID, ctx.seed, "slow", i, repr(what)))


def case(ctx, group, r, i):
    if group == "slow":
        return slow(ctx, r, i)
    if group == "interrupted":
        return interrupted(ctx, r, i)
    gc.collect()
    gc.disable()
    held: list = []
    try:
        files = pool(r)
        if group == "late":
            cont = ("xlsx", "xlsb")[i % 2]
            n = r.choice([300, 2000])
            files = [(cont, badref(r, cont, n), "badref", n)]
            b = gen.book(r, nrows=n, cols=[0, 1, 2], nsheets=1, empty_rows=False)
            files.append((cont, wb.write(b, cont), "good", n))
        streams = [Stream(d) for _, d, _, _ in files]
        solo = [run(io.BytesIO(d), 0, 0, {}) for _, d, _, _ in files]
        for s in streams:
            s.delay = r.choice([0.0, 0.002]) if group == "late" else 0.0
        hist = []
        steps = r.choice([4, 10, 30]) if group == "history" else 6 if group == "late" else 12
        same = r.randrange(len(files))
        trivial = True
        for k in range(steps):
            f = same if group == "same" else r.randrange(len(files))
            cont, data, kind, n = files[f]
            how = r.choice(["path", "Path", "file", "spool", "stream", "stream", "stream"]) if group != "same" else "stream"
            call = pick(r)
            if group == "late":
                call = (0, 0, r.choice([{}, {}, {"take_rows": r.choice([1, 3])}, {"row_callback": Counted("row_callback", r.choice([1, 5, 50]), r.choice(EXC))},
                                         {"null_values": Counted("null_values", r.choice([0, 3, 50]), r.choice(EXC))}]), "early")
            hist.append((f, cont, kind, how, repr(call)))
            what = {"history": hist[-8:], "files": [(c, k2, n2) for c, _, k2, n2 in files]}
            st, _ = step(ctx, r, data, cont, how, streams[f], call, held, what)
            if kind == "badref" and st == "err":
                ctx.hit("consumer_failures")
            trivial &= st == "ok" and call[3] != "early"
            if r.random() < 0.15:
                reread(ctx, (files, streams), solo, what)
        reread(ctx, (files, streams), solo, what)
        for s in streams:
            if s.closed or s.getvalue() != files[streams.index(s)][1]:
                raise Violation("the caller's stream was closed or changed", case=what)
        ctx.seen_case((ID, ctx.seed, group, i, repr(hist)), not trivial)
        if i < 1:
            ctx.sample(what)
    finally:
        held.clear()
        gc.enable()
