"""C22: a read depends only on the file and the arguments, under any schedule or history.

Oracle: the table (or exception type) of a solo read, made in a process of its own
that has read nothing before (a fork of a process kept clean for this). Schedules are
perturbed by a random thread switch interval, by sleeping streams and callbacks,
and by a profile hook that sleeps at random calls inside the package, in the
parser thread and in the consumer alike. Events of the streams and callbacks are
logged, so that distinct interleavings can be counted.
"""
from __future__ import annotations

import hashlib
import io
import os
import pickle
import random
import select
import struct
import sys
import tempfile
import threading
import time

import pyarrow as pa

from .. import gen, rd, wb
from ..mon import REPO, Inconclusive, Violation, case_rng, external_wait
from .c08 import compare, options
from .c19 import EXC, Counted, parts_of, rezip, role

ID = "C22"
LEVEL = "exploration"
RULE = ("pools of random workbooks (both containers, intact and damaged) and options; repeated, interleaved with other reads, in 2-8 "
        "parallel threads with injected delays, and after rewriting the same path (same size, same mtime, same inode) or stream with other "
        "content; non-trivial when other reads ran before or at the same time; distinct by history or by observed interleaving of events")
ASSUMPTIONS = ["a solo read in a fresh process is the reference (its content is decided by C06-C18)", "CPython with its global lock"]


def plan(tier):
    k = 15 if tier == "thorough" else 1
    return [("parallel", 200 * k, 3), ("history", 220 * k, 3), ("rewrite", 260 * k), ("slow", 160 * k, 3), ("shared_args", 120 * k), ("dates", 160 * k)]


def required(tier):
    return {"parallel_reads": 3000, "history_reads": 2500, "rewrites": 600, "slow_reads": 300, "same_size_rewrites": 150, "overlapping_groups": 150, "events": 20000, "delays": 2000, "fresh_solos": 2500, "date_reads": 1000}


def run(src, s, h, o):
    from rxls.reader import read

    try:
        return "ok", read(src, s, list(h) if isinstance(h, list) else h, **o)
    except Violation:
        raise
    except BaseException as e:
        return "err", e


class Clean:
    """A process that has imported the package and read nothing; it forks once per solo read."""

    def __init__(self):
        import rxls.reader  # noqa: F401

        a, self.w = os.pipe()
        self.r, b = os.pipe()
        if os.fork() == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                self.serve(a, b)
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    @staticmethod
    def get(fd):
        def exact(n):
            out = b""
            while len(out) < n:
                x = os.read(fd, n - len(out))
                if not x:
                    raise EOFError
                out += x
            return out

        return pickle.loads(exact(struct.unpack("<Q", exact(8))[0]))

    @staticmethod
    def put(fd, v):
        x = pickle.dumps(v)
        x = memoryview(struct.pack("<Q", len(x)) + x)
        while x:
            x = x[os.write(fd, x):]

    def serve(self, a, b):
        while True:
            try:
                seed, group, i = self.get(a)
            except EOFError:
                return
            # the same rng gives the same requests here, callables included
            reqs = REQUESTS[group](case_rng(seed, ID, group, i), i)[0]
            out = []
            for d, s, h, o in reqs:
                x, y = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(x)
                    try:
                        st, v = run(io.BytesIO(d), s, h, o)
                        self.put(y, (st, v if st == "ok" else (type(v).__module__, type(v).__qualname__, repr(v)[:300])))
                    finally:
                        os._exit(0)
                os.close(y)
                try:
                    out.append(self.get(x))
                except EOFError:
                    out.append(("none", None))
                os.close(x)
                os.waitpid(pid, 0)
            self.put(b, out)

    def solos(self, ctx, group, i):
        self.put(self.w, (ctx.seed, group, i))
        with external_wait():
            if not select.select([self.r], [], [], 300)[0]:
                raise Inconclusive("the solo reads did not end within 300 s")
            out = self.get(self.r)
        if any(st == "none" for st, _ in out):
            raise Inconclusive("a solo read ended its process")
        ctx.hit("fresh_solos", len(out))
        return out


CLEAN = None


def prepare(ctx):
    global CLEAN
    CLEAN = Clean()


def kind_of(e):
    return (type(e).__module__, type(e).__qualname__) if isinstance(e, BaseException) else e[:2]


def same(ctx, want, got, msg, what):
    ctx.hit("oracle_evaluations")
    if want[0] != got[0]:
        bad = got[1] if got[0] == "err" else want[1]
        raise Violation(f"{msg}: solo {want[0]}, now {got[0]} ({bad!r:.300})", case=what)
    if want[0] == "err":
        if kind_of(want[1]) != kind_of(got[1]):
            raise Violation(f"{msg}: solo raises {want[1]!r:.200}, now {got[1]!r:.200}", case=what)
        return
    if not got[1].equals(want[1]):
        d = compare(want[1], got[1])
        if d:
            raise Violation(f"{msg}: solo / now: {d}", case=what)


def item(r, rows=None):
    """(container, bytes, sheet, header, options, shared-option factory)"""
    cont = r.choice(["xlsx", "xlsb"])
    b = gen.book(r, nrows=rows if rows is not None else r.choice([2, 5, 13, 40, 150]), nsheets=r.choice([1, 1, 2]))
    header, o = options(r, b)
    d = wb.write(b, cont)
    if r.random() < 0.15:
        p = parts_of(d)
        k = next((k for k, x in enumerate(p) if role(x[0]) == "sheet"), 0)
        p[k] = (p[k][0], p[k][1][: r.randrange(len(p[k][1]))])
        d = rezip(p)
    return cont, d, r.choice([0, b.sheets[-1].name]), header, o


class Lag(io.BytesIO):
    """Stream whose reads sleep, logging who reads."""

    def __init__(self, data, rnd, log, tag, p):
        super().__init__(data)
        self.rnd, self.log, self.tag, self.p = rnd, log, tag, p

    def read(self, *a):
        self.log.append(self.tag)
        if self.rnd.random() < self.p:
            time.sleep(self.rnd.choice([0, 1e-5, 2e-4, 1e-3]))
        return super().read(*a)


class Hook:
    """Profile hook that sleeps at random calls of the package, in every thread."""

    def __init__(self, seed, p):
        self.rnd, self.p, self.n, self.calls = random.Random(seed), p, 0, 0
        self.root = str(REPO / "rxls")

    def __call__(self, frame, event, arg):
        if event in ("call", "return") and frame.f_code.co_filename.startswith(self.root):
            self.calls += 1
            if self.rnd.random() < self.p:
                self.n += 1
                time.sleep(self.rnd.choice([0, 1e-6, 5e-5, 3e-4]))

    def __enter__(self):
        threading.setprofile(self)
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        threading.setprofile(None)


def case(ctx, group, r, i):
    old = sys.getswitchinterval()
    try:
        reqs, extra = REQUESTS[group](r, i)
        globals()["do_" + group](ctx, r, i, extra, CLEAN.solos(ctx, group, i))
    finally:
        sys.setswitchinterval(old)
        sys.setprofile(None)
        threading.setprofile(None)


def calls(items):
    return [(d, s, h, o) for _, d, s, h, o in items], items


def do_parallel(ctx, r, i, items, solo):
    n = r.choice([2, 3, 4, 8])
    log: list = []
    jobs = []
    for t in range(n):
        jobs.append([(r.randrange(len(items)), r.random()) for _ in range(r.choice([2, 4, 6]))])
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 5e-3]))
    p = r.choice([0, 0.1, 0.6])
    seeds = [r.random() for _ in range(n)]
    paths = []
    use_path = r.random() < 0.3
    for c, d, *_ in items:
        fd, q = tempfile.mkstemp(dir=rd.tmpdir())
        os.write(fd, d)
        os.close(fd)
        paths.append(q)
    res: list = [[] for _ in range(n)]
    gate = threading.Barrier(n)

    def work(t):
        rnd = random.Random(seeds[t])
        gate.wait()
        for k, x in jobs[t]:
            c, d, s, h, o = items[k]
            o = dict(o)
            if x < 0.3:
                o["row_callback"] = lambda: (log.append(-1 - t), rnd.random() < p and time.sleep(1e-5))
            src = paths[k] if use_path else Lag(d, rnd, log, t, p)
            res[t].append(run(src, s, h, o))

    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    hook = Hook(r.random(), 0.002) if r.random() < 0.3 else None
    if hook:
        with hook:
            [t.start() for t in ths]
            [t.join() for t in ths]
        ctx.hit("delays", hook.n)
    else:
        [t.start() for t in ths]
        [t.join() for t in ths]
    for q in paths:
        os.unlink(q)
    what = {"threads": n, "items": [(c, len(d), repr(s), repr(h), repr(o)) for c, d, s, h, o in items], "path": use_path, "hook": bool(hook)}
    for t in range(n):
        if len(res[t]) != len(jobs[t]):
            raise Violation(f"thread {t} ended early", case=what)
        for (k, _), got in zip(jobs[t], res[t]):
            same(ctx, solo[k], got, f"{items[k][0]}: read in one of {n} threads", what)
            ctx.hit("parallel_reads")
    ctx.hit("events", len(log))
    sw = sum(a != b for a, b in zip(log, log[1:]))
    ctx.hit("event_switches", sw)
    if sw >= n:
        ctx.hit("overlapping_groups")
    ctx.seen_case(hashlib.blake2b(repr((i, log)).encode()).digest())
    if i < 1:
        ctx.sample({"interleaving": log[:60]} | what)


def do_history(ctx, r, i, items, solo):
    streams = [io.BytesIO(d) for _, d, *_ in items]
    hist = []
    hook = Hook(r.random(), 0.001) if r.random() < 0.2 else None
    for _ in range(r.choice([6, 12, 24])):
        k = r.randrange(len(items))
        c, d, s, h, o = items[k]
        x = r.random()
        if x < 0.25:  # a read that fails or stops early, in between
            w = r.choice(["null_values", "row_callback"])
            o2 = r.choice([{w: Counted(w, r.choice([0, 1, 5]), r.choice(EXC))}, {"take_rows": 1}, {"lookup_head": "\0no"}, {"dtypes": pa.null()}, {"skip_cols": [0]}, {"null_values": ["a", "1"]}])
            run(streams[k], s, h, o2)
            hist.append((k, "disturb", repr(o2)))
        if x < 0.1:
            run(io.BytesIO(r.choice([b"", d[: len(d) // 2]])), 0, 0, {})
        if hook:
            with hook:
                got = run(streams[k] if r.random() < 0.7 else io.BytesIO(d), s, h, o)
        else:
            got = run(streams[k] if r.random() < 0.7 else io.BytesIO(d), s, h, o)
        hist.append((k, "read"))
        what = {"history": hist[-8:], "item": (c, len(d), repr(s), repr(h), repr(o))}
        same(ctx, solo[k], got, f"{c}: read after {len(hist)} others", what)
        ctx.hit("history_reads")
    if hook:
        ctx.hit("delays", hook.n)
    ctx.seen_case(repr((i, ctx.seed, hist)))


def twin(r, cont):
    """Two workbooks of the same container size and different content."""
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    # the second may differ in nothing but which of its styles is the date
    turned = [st[0], st[2], st[1]] if r.random() < 0.5 else st
    n, m = r.choice([1, 3, 10]), r.choice([1, 2, 3])
    shape = {(y, c): r.choice(["shared", "inline", "num", "date", None]) for y in range(n) for c in range(m)}
    if not any(shape.values()):
        shape[0, 0] = "shared"
    out = []
    for v in range(2):
        rows = []
        for y in range(n):
            row = {}
            for c in range(m):
                k = shape[y, c]
                tag = f"{y}{c}" + "ab"[v]
                if k in ("shared", "inline"):
                    row[c] = wb.C("s", tag, 0, k)
                elif k:
                    x = float(40000 + 100 * y + 10 * c + v)
                    row[c] = wb.C("n", x, 1 if k == "num" else 2, "real", lit=str(int(x)))
            rows.append(row)
        out.append(wb.write(wb.Book([wb.Sheet("ab"[v] if r.random() < 0.5 else "S", rows)], turned if v else st, {"stored": True}), cont))
    return out


def versions_of(r, i):
    cont = r.choice(["xlsx", "xlsb"])
    if r.random() < 0.7:
        versions = [(cont, d) for d in twin(r, cont)]
    else:
        versions = [(c, wb.write(gen.book(r, nsheets=1, nrows=r.choice([1, 4])), c)) for c in ("xlsx", "xlsb", cont)]
    return [(d, 0, h, {}) for _, d in versions for h in (0, 1)], versions


def do_rewrite(ctx, r, i, versions, solo):
    fd, path = tempfile.mkstemp(dir=rd.tmpdir())
    os.close(fd)
    what = {}
    try:
        buf = io.BytesIO()
        stamp = 1_600_000_000_000_000_000
        last = None
        k = -1
        for step in range(r.choice([3, 4, 6])):
            k = (k + 1) % len(versions) if r.random() < 0.9 else k
            c, d = versions[k]
            with open(path, "r+b") as f:
                f.truncate(0)
                f.write(d)
            os.utime(path, ns=(stamp, stamp))
            if last is not None and len(last) == len(d) and last != d:
                ctx.hit("same_size_rewrites")
            last = d
            h = r.choice([0, 1])
            want = solo[2 * k + h]
            what = {"containers": [c for c, _ in versions], "sizes": [len(d) for _, d in versions], "step": step}
            same(ctx, want, run(path, 0, h, {}), f"{c}: rewritten path", what)
            buf.seek(0)
            buf.truncate(0)
            buf.write(d)
            same(ctx, want, run(buf, 0, h, {}), f"{c}: rewritten stream", what)
            ctx.hit("rewrites")
            ctx.seen_case((ID, d, step))
    finally:
        os.unlink(path)


def do_slow(ctx, r, i, items, solo):
    ((c, d, s, h, o),), (want,) = items, solo
    log: list = []
    for k in range(3):
        sys.setswitchinterval(r.choice([1e-6, 1e-4, 0.05]))
        o2 = dict(o)
        rnd = random.Random(r.random())
        p = r.choice([0.0, 0.05, 0.5])
        if r.random() < 0.5:
            o2["row_callback"] = lambda: (log.append("cb"), rnd.random() < p and time.sleep(1e-4))
        with Hook(r.random(), r.choice([0.0005, 0.01, 0.05]) if len(d) < 8000 else 0.0005) as hook:
            got = run(Lag(d, rnd, log, threading.get_ident(), p), s, h, o2)
        ctx.hit("delays", hook.n)
        ctx.hit("slow_reads")
        ctx.seen_case((ID, d, repr(o), k, hook.n, len(log)))
        same(ctx, want, got, f"{c}: read with {hook.n} injected delays", {"item": (c, len(d), repr(s), repr(h), repr(o))})
    ctx.hit("events", len(log))


def shared_of(r, i):
    c, d, s, h, o = item(r, r.choice([3, 8, 20]))
    h = r.choice([h, ["x", "y"], 2])
    o = dict(o)
    o.setdefault("skip_cols", [5, 3])
    if not isinstance(o.get("dtypes"), dict):
        o["dtypes"] = r.choice([{"a": pa.string()}, None, [pa.large_string()] * 3, pa.large_string()])
    return calls([(c, d, s, h, o)])


def do_shared_args(ctx, r, i, items, solo):
    """The caller's argument objects are used again, and are not changed by reads."""
    ((c, d, s, h, o),), (first,) = items, solo
    snap = (repr(h), {k: (repr(v) if not callable(v) else id(v)) for k, v in o.items()})
    from rxls.reader import read

    for k in range(3):
        try:
            got = "ok", read(io.BytesIO(d), s, h, **o)
        except Exception as e:
            got = "err", e
        same(ctx, first, got, f"{c}: the same argument objects again", {"item": (c, len(d), repr(s), repr(h), repr(o))})
        now = (repr(h), {k: (repr(v) if not callable(v) else id(v)) for k, v in o.items()})
        ctx.check(now == snap, f"{c}: the read changed its arguments: {snap} -> {now}")
        ctx.hit("shared_arg_reads")
    ctx.seen_case((ID, d, repr(o), repr(h)))


def dates_of(r, i):
    """Columns that mix dates with texts which several formats read, each its own way."""
    fm = ["%d/%m/%Y", "%m/%d/%Y", "%Y/%m/%d", "%Y/%d/%m", "%d.%m.%y", "%y.%m.%d", "%m.%d.%y", "%H:%M", "%M:%H", "%Y-%m-%d %H:%M", "%Y-%d-%m %M:%H"]
    items = []
    for _ in range(r.choice([2, 3])):
        a, b, c = r.randint(1, 12), r.randint(1, 12), r.choice([r.randint(1, 12), r.randint(13, 28)])
        voc = [f"{a:02}/{c:02}/2020", f"{c:02}/{b:02}/2021", f"2020/{a:02}/{b:02}", f"{a:02}.{b:02}.{c:02}", f"{a:02}:{b:02}", f"2020-{a:02}-{b:02} {a:02}:{c:02}", f"{b}/{a}/2022", "none"]
        rows = []
        for y in range(r.choice([2, 6, 14])):
            row = {}
            for x in range(r.choice([1, 2, 3])):
                row[x] = wb.C("n", float(r.randint(40000, 44000)), 1, "real") if r.random() < 0.3 else wb.C("s", r.choice(voc[:2] if r.random() < 0.7 else voc), 0, r.choice(["shared", "inline"]))
            rows.append(row)
        bk = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(14, None, "tmp")], gen.opts(r))
        cont = r.choice(["xlsx", "xlsb"])
        d = wb.write(bk, cont)
        for _ in range(2):
            o = {"conflict_resolve": r.choice(["temporal", "all", "all", "no", "numeric"])}
            k = r.random()
            if k < 0.7:
                o["datetime_formats"] = tuple(r.sample(fm[:4] if r.random() < 0.7 else fm, r.choice([1, 2, 3])))
            elif k < 0.8:
                o["datetime_formats"] = r.choice(fm)
            items.append((cont, d, 0, 0, o))
    return calls(items)


def do_dates(ctx, r, i, items, solo):
    hist = []
    for _ in range(r.choice([6, 10])):
        k = r.randrange(len(items))
        c, d, s, h, o = items[k]
        hist.append(k)
        same(ctx, solo[k], run(io.BytesIO(d), s, h, o), f"{c}: read after {len(hist) - 1} others", {"history": hist, "options": [repr(x[4]) for x in items]})
        ctx.hit("date_reads")
    ctx.seen_case(repr((i, ctx.seed, hist, [repr(x[4]) for x in items])))


REQUESTS = {
    "parallel": lambda r, i: calls([item(r) for _ in range(r.choice([1, 2, 4]))]),
    "history": lambda r, i: calls([item(r) for _ in range(r.choice([2, 3, 5]))]),
    "rewrite": versions_of,
    "slow": lambda r, i: calls([item(r, r.choice([5, 30, 200]))]),
    "shared_args": shared_of,
    "dates": dates_of,
}
