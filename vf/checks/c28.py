"""C28: the work of a read grows in proportion to what it reads.

One workbook shape is written at one size and at eight times that size. Monitors:
the lines of the package that were executed (a counter on the interpreter's line
events, the same on every run), the peak of the memory asked from the Arrow pool
and from the allocator, the bytes taken from the caller's stream, and, for larger
sizes, the processor time of the process (least of several runs, and confirmed
before it counts). Afterwards nothing may be held any more.
"""
from __future__ import annotations

import gc
import io
import re
import sys
import threading
import time
import tracemalloc

import pyarrow as pa

from .. import mon, rd, wb
from ..mon import Violation
from ..wb import Book, C, Sheet, Style

ID = "C28"
LEVEL = "exploration"
RULE = ("about forty workbook shapes (tall, wide, sparse, alternating kinds, many texts, nulls, styles, formats, sheets, runs, repeated "
        "header names, filters, conflicts, long texts) at two sizes a factor of eight (sixteen for processor time) apart, both containers, counted in executed lines, "
        "peak memory, stream bytes and processor time; reads with a row limit on sheets of two lengths; long repetitions of reads, failing "
        "ones included; non-trivial when the larger file took more work than the smaller, distinct by shape, container and size")
ASSUMPTIONS = ["processor time counts only when the ratio is three and a half times the linear one in three measurements in a row",
               "work inside Arrow, numpy and expat shows in processor time and memory only"]
F = 8
FC = 16  # for processor time


def plan(tier):
    k = 6 if tier == "thorough" else 1
    n = 2 * len(SHAPES)
    return [("lines", n * 2 * k, 3), ("cpu", n * k, 4), ("limit", 48 * k, 2), ("limited_bytes", 24 * k, 2), ("retain", 24 * k, 3), ("giveup", 10 * k, 2)]


def required(tier):
    return {"line_pairs": 100, "lines": 1000000, "cpu_pairs": 70, "limited_pairs": 40, "limited_bytes": 20, "bytes_watched": 100, "peaks": 100, "repeated_reads": 800, "repeated_failures": 100, "new_arguments_done": 200, "given_up": 8, "held_back": 4}


# ------------------------------------------------------------- shapes -----
def S(t, f="shared"):
    return C("s", t, 0, f)


def N(v, s=1, f="real"):
    return C("n", v, s, f)


SHAPES: list = []


def shape(small, big):
    def d(f):
        SHAPES.append((f.__name__, small, big, f))
        return f
    return d


def T():
    return [Style(0, None, "gen"), Style(2, None, "num"), Style(14, None, "date")]


def bk(rows, **o):
    return Book([Sheet("S", rows)], T()), o


class Num(int):
    """A number whose comparisons are counted as work."""

    done = 0

    def __eq__(self, o):
        Num.done += 1
        return int(self) == o

    __hash__ = int.__hash__


class Word(str):
    """A text whose comparisons are counted as work."""

    def __eq__(self, o):
        Num.done += 1
        return str.__eq__(self, o)

    __hash__ = str.__hash__


MIX = [lambda i: N(i + 0.5), lambda i: S("x%d" % i), lambda i: C("b", i % 3 == 0), lambda i: N(i + 1.0, 2)]


@shape(400, 4000)
def tall_numbers(n): return bk([{0: N(i + 0.5)} for i in range(n)])
@shape(400, 4000)
def tall_integers(n): return bk([{0: N(float(i), 1, "rk")} for i in range(n)])
@shape(400, 4000)
def tall_dates(n): return bk([{0: N(i + 1.0, 2)} for i in range(n)])
@shape(400, 4000)
def tall_booleans(n): return bk([{0: C("b", i % 2 == 0)} for i in range(n)])
@shape(400, 4000)
def tall_texts(n): return bk([{0: S("t%d" % i)} for i in range(n)])
@shape(400, 4000)
def tall_same_text(n): return bk([{0: S("t%d" % (i % 7))} for i in range(n)])
@shape(400, 4000)
def tall_inline(n): return bk([{0: S("t%d" % i, "inline")} for i in range(n)])
@shape(200, 2000)
def alternating(n): return bk([{0: MIX[i % 2](i)} for i in range(n)])
@shape(200, 2000)
def four_kinds(n): return bk([{0: MIX[i % 4](i)} for i in range(n)])
@shape(200, 2000)
def alternating_numeric(n): return bk([{0: [N(i + 0.5), S("%d" % i)][i % 2]} for i in range(n)], conflict_resolve="numeric")
@shape(100, 500)
def alternating_dates(n): return bk([{0: [N(i + 100.0, 2), S("2020-01-%02d" % (i % 28 + 1))][i % 2]} for i in range(n)], conflict_resolve="all")
@shape(200, 2000)
def unresolved(n): return bk([{0: [N(i + 100.0, 2), S("word")][i % 2]} for i in range(n)], conflict_resolve="all", datetime_formats=("%Y",))
@shape(200, 2000)
def gaps(n): return bk([{0: N(i)} if i % 2 else {1: S("g%d" % i)} for i in range(n)])
@shape(400, 3000)
def empty_rows(n): return bk([{0: N(i)} if i % 2 else {} for i in range(n)], take_rows_non_empty=True)
@shape(400, 3000)
def dropped_rows(n): return bk([{0: N(i)} if i % 2 else {} for i in range(n)])
@shape(400, 3000)
def skipped_rows(n): return bk([{0: N(i)} for i in range(n)], skip_rows=n // 2)
@shape(100, 2000)
def wide_repeated(n): return bk([{i: S("a") for i in range(n)}, {i: N(i) for i in range(n)}], header=1)
@shape(100, 2000)
def wide_repeated_pairs(n): return bk([{i: S("a%d" % (i // 2)) for i in range(n)}, {i: N(i) for i in range(n)}], header=1)
@shape(100, 2000)
def wide_suffix_clash(n): return bk([{i: S("a" if i % 2 else "a.%d" % (i // 2)) for i in range(n)}, {i: N(i) for i in range(n)}], header=1)
@shape(100, 2000)
def wide_unnamed(n): return bk([{0: S("a")}, {i: N(i) for i in range(n)}], header=1)
@shape(100, 2000)
def wide_named(n): return bk([{i: S("a%d" % i) for i in range(n)}, {i: N(i) for i in range(n)}], header=1)
@shape(100, 2000)
def wide_two_rows(n): return bk([{i: S("a%d" % i) for i in range(0, n, 7)}, {i: S("b") for i in range(n)}, {i: N(i) for i in range(n)}], header=2)
@shape(100, 2000)
def wide_plain(n): return bk([{i: N(i) for i in range(n)}])
@shape(100, 2000)
def wide_reversed_starts(n): return bk([{n - 1 - i: N(i)} for i in range(n // 8)] + [{i: N(i) for i in range(n)}])
@shape(100, 1500)
def wide_filtered(n): return bk([{i: S("a%d" % i) for i in range(n)}, {i: N(i) for i in range(n)}], header=1, row_filters="a")
@shape(100, 1500)
def wide_operators(n): return bk([{i: S("a%d" % i) for i in range(n)}, {i: N(i) for i in range(n)}], header=1, row_filters=["a"], row_filters_strategy=["or", "and"] * ((n - 1) // 2) + ["or"] * ((n - 1) % 2))
@shape(100, 1500)
def wide_typed(n): return bk([{i: S("a%d" % i) for i in range(n)}, {i: N(i) for i in range(n)}], header=1, dtypes={"a%d" % i: pa.float32() for i in range(n)})
@shape(200, 2000)
def filtered_runs(n): return bk([{0: S("k"), 1: S("v")}] + [{0: N(i), 1: MIX[i % 2](i)} if i % 3 else {1: N(i)} for i in range(n)], header=1, row_filters="k")
@shape(200, 1500)
def deep_header(n): return bk([{0: MIX[i % 2](i)} for i in range(n)] + [{0: S("HEAD")}, {0: N(1)}], header=1, lookup_head="HEAD", lookup_size=n + 5)
@shape(3000, 60000)
def long_text(n): return bk([{0: S("ab \u00e9<&" * n)}])
@shape(3000, 60000)
def long_inline(n): return bk([{0: S("a&>" * n, "inline")}])
@shape(200, 3000)
def many_runs(n):
    t = "".join(chr(97 + i % 26) for i in range(n))
    return bk([{0: C("s", t, 0, "shared", runs=list(t))}])
@shape(100, 1000)
def many_sheets(n): return Book([Sheet("S%d" % i, [{0: N(1)}]) for i in range(n)], T()), {"sheet": n - 1}
@shape(100, 1000)
def many_styles(n): return Book([Sheet("S", [{i: N(1.5, i) for i in range(40)}])], [Style(0, None, "gen")] + [Style(2 if i % 2 else 14, None, "num" if i % 2 else "date") for i in range(n)]), {}
@shape(100, 800)
def many_formats(n): return Book([Sheet("S", [{i: N(1.5, i) for i in range(10)}])], [Style(0, None, "gen")] + [Style(164 + i, '0.00"%d"' % i, "num") for i in range(n)]), {}
@shape(200, 3000)
def null_texts(n): return bk([{0: S("n%d" % i)} for i in range(n)] + [{0: S("x")}], null_values=[Word("n%d" % i) for i in range(n)])
@shape(250, 1800)
def skipped_columns(n): return bk([{i: N(i) for i in range(n)} for _ in range(3)], skip_cols=[Num(i) for i in range(1, n, 2)])
@shape(250, 1800)
def skipped_of_many(n): return bk([{0: N(i), 1: N(1)} for i in range(n)], skip_cols=(Num(0), *(Num(100 + i) for i in range(n))))
@shape(250, 1800)
def filter_positions(n): return bk([{i: N(i) for i in range(n)} for _ in range(2)], row_filters=[Num(i) for i in range(0, n, 2)])
@shape(100, 1500)
def typed_of_many(n): return bk([{0: S("a"), 1: S("b")}, {0: N(1), 1: N(2)}], header=1, dtypes={Word("b" if i == n // 2 else "c%d" % i): pa.float32() for i in range(n)})
@shape(200, 3000)
def unused_texts(n): return Book([Sheet("S", [{0: S("x")}]), Sheet("T", [{0: S("u%d" % i)} for i in range(n)])], T()), {}
@shape(200, 2000)
def called_back(n): return bk([{0: N(i)} for i in range(n)], row_callback=lambda: None)


# ------------------------------------------------------------ monitors ----
TOOL = 4
POOLS: list = []  # never freed: what was allocated from a pool must not outlive it


class Lines:
    def __enter__(self):
        self.n = 0
        self.before = Num.done
        m, root = sys.monitoring, str(mon.REPO / "rxls")

        def line(code, no):
            if not code.co_filename.startswith(root):
                return m.DISABLE
            self.n += 1

        m.use_tool_id(TOOL, "vf-lines")
        m.register_callback(TOOL, m.events.LINE, line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        self.n += Num.done - self.before
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


class Taps(io.BytesIO):
    taken = 0

    def read(self, *a):
        b = super().read(*a)
        self.taken += len(b)
        return b

    def readinto(self, b):
        n = super().readinto(b)
        self.taken += n
        return n


def go(data, o):
    from rxls.reader import read

    o = dict(o)
    s = Taps(data)
    t = read(s, o.pop("sheet", 0), o.pop("header", 0), **o)
    return t, s.taken


def lines_of(data, o):
    with Lines() as m:
        t, taken = go(data, o)
    return m.n, taken, t.num_rows * t.num_columns


def peaks_of(data, o):
    """(peak of the Arrow pool, peak of the allocator) above what was there before."""
    gc.collect()
    old = pa.default_memory_pool()
    pool = pa.proxy_memory_pool(old)
    POOLS.append(pool)
    pa.set_memory_pool(pool)
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        t, _ = go(data, o)
        peak = tracemalloc.get_traced_memory()[1] - base
        return pool.max_memory(), peak
    finally:
        tracemalloc.stop()
        pa.set_memory_pool(old)
        t = None


def cpu_of(data, o, k):
    best = 1e9
    for _ in range(k):
        t = time.process_time()
        go(data, o)
        best = min(best, time.process_time() - t)
    return best


def case(ctx, group, r, i):
    if group in ("lines", "cpu"):
        name, small, big, f = SHAPES[i // 2 % len(SHAPES)]
        cont = ("xlsx", "xlsb")[i % 2]
        n = max(4, int((small if group == "lines" else big) * r.uniform(0.8, 1.0)))
        n = max(n, 16)
        if group == "cpu":
            n //= 2
        a, oa = f(n)
        x = F if group == "lines" else FC
        b, ob = f(n * x)
        opts = {k: v for k, v in [("stored", r.random() < 0.3), ("omit_empty", r.random() < 0.5)] if v}
        a.opts, b.opts = dict(opts), dict(opts)
        da, db = wb.write(a, cont), wb.write(b, cont)
        what = dict(shape=name, container=cont, sizes=[n, n * x], bytes=[len(da), len(db)])
        if group == "lines":
            # what is made only once (imports, first use) is made here
            if not hasattr(ctx, "warm"):
                ctx.warm = go(da, oa) and True
            (la, ta, ca), (lb, tb, cb) = lines_of(da, oa), lines_of(db, ob)
            ctx.hit("line_pairs")
            ctx.hit("lines", la + lb)
            ctx.hit("bytes_watched", 2)
            ctx.check(lb <= la * F * 1.6 + 4000, f"{cont} {name}: {la} lines executed for size {n}, {lb} for {F} times that", lines=[la, lb], **what)
            for t, d in ((ta, da), (tb, db)):
                ctx.check(t <= 6 * len(d) + 400000, f"{cont} {name}: {t} bytes taken from a stream of {len(d)}", **what)
            (pa_, ma), (pb, mb) = peaks_of(da, oa), peaks_of(db, ob)
            ctx.hit("peaks", 2)
            ctx.check(pb <= pa_ * F * 3 + 2**20, f"{cont} {name}: Arrow peak {pa_} for size {n}, {pb} for {F} times that", **what)
            ctx.check(mb <= ma * F * 3 + 2**21, f"{cont} {name}: memory peak {ma} for size {n}, {mb} for {F} times that", **what)
            ctx.seen_case((name, cont, n, "lines"), lb > la)
            ctx.sample({"shape": name, "container": cont, "sizes": [n, n * F], "lines": [la, lb], "arrow_peak": [pa_, pb], "memory_peak": [ma, mb]})
        else:
            tries = []
            for _ in range(3):
                ca, cb = cpu_of(da, oa, 3), cpu_of(db, ob, 1)
                tries.append((ca, cb))
                if not (cb > 0.5 and cb > 3.5 * FC * ca):
                    break
            else:
                raise Violation(f"{cont} {name}: {tries[0][0]:.3f} s for size {n}, {tries[0][1]:.3f} s for {FC} times that", tries=tries, **what)
            ctx.hit("cpu_pairs")
            ctx.hit("oracle_evaluations")
            ctx.seen_case((name, cont, n, "cpu"), cb > ca)
    elif group == "limited_bytes":
        cont = ("xlsx", "xlsb")[i % 2]
        k, sk = r.choice([1, 3, 20]), r.choice([0, 0, 5])
        n = r.choice([4000, 6000])
        form = r.choice(["inline", "str"])
        b = Book([Sheet("S", [{j: C("s", "%040x" % r.getrandbits(160), 0, form) for j in range(10)} for _ in range(n)])], T(), {"stored": True} if r.random() < 0.3 else {})
        data = wb.write(b, cont)
        o = {"take_rows": k, "skip_rows": sk}
        if r.random() < 0.4:
            o["header"] = 1
        if r.random() < 0.4:
            o["take_rows_non_empty"] = True
        _, taken = go(data, o)
        ctx.hit("bytes_watched")
        ctx.hit("limited_bytes")
        ctx.check(taken <= 400000, f"{cont}: with a limit of {k} rows after {sk} skipped, {taken} bytes are taken from a stream of {len(data)}", container=cont, options=o, rows=n)
        ctx.seen_case((cont, k, sk, n, sorted(o)), len(data) > 10**6)
    elif group == "limit":
        cont = ("xlsx", "xlsb")[i % 2]
        k = r.choice([1, 2, 5, 20, 100])
        sk = r.choice([0, 0, 3, 30])
        n = r.choice([600, 1000])
        kind = MIX[r.randrange(4)]
        o = {"take_rows": k, "skip_rows": sk}
        if r.random() < 0.4:
            o["header"] = 1
        if r.random() < 0.4:
            o["take_rows_non_empty"] = True
        da, db = (wb.write(Book([Sheet("S", [{0: C("n", y + 0.25, 1, "real"), 1: (kind(y) if kind is not MIX[1] else C("n", 1.0, 1, "real"))} for y in range(m)])], T()), cont) for m in (n, n * F))
        (la, ta, _), (lb, tb, _) = lines_of(da, o), lines_of(db, o)
        ctx.hit("limited_pairs")
        ctx.hit("bytes_watched", 2)
        what = dict(container=cont, options=o, rows=[n, n * F], lines=[la, lb], taken=[ta, tb])
        ctx.check(lb <= la * 1.5 + 4000, f"{cont}: with a limit of {k} rows {la} lines executed on {n} rows, {lb} on {n * F}", **what)
        ctx.check(lb <= (k + sk + 5) * 400 + 6000, f"{cont}: with a limit of {k} rows after {sk} skipped, {lb} lines executed", **what)
        ctx.seen_case((cont, k, sk, n, sorted(o)), True)
    elif group == "giveup":
        giveup(ctx, r, i)
    else:
        retain(ctx, r, i)


def retain(ctx, r, i):
    """Reads one after another: what is allocated after many is what was allocated after some."""
    cont = ("xlsx", "xlsb")[i % 2]
    fail = r.random() < 0.4
    n = 300
    news = i % 3 == 1
    apart = i % 4 > 1 or r.random() < 0.3  # each read has its cells in rows of its own

    def once(k):
        rows = [{}] * (n * k if apart else 0) + [{0: S("text %d %d" % (k, y) * 4), 1: N(y + k / 7), 2: MIX[(y // 50) % 4](y), 3: [N(y + 40000.0, 2), S("2020-01-%02d" % (y % 28 + 1))][y // 150]} for y in range(n)]
        b = Book([Sheet("S%d" % k, rows)], T(), {"omit_empty": True})
        o = {"conflict_resolve": r.choice(["no", "all", "temporal"]), "null_values": ["text %d" % k, "a%d" % k]}
        if r.random() < 0.3:
            o["datetime_formats"] = ("%Y-%m-%d", "%d.%m.%Y")
        if news:  # arguments that no read had before
            x = ("%d " % k) * 1500
            o["null_values"] = r.choice([list, tuple, frozenset])([x])
            o["conflict_resolve"] = r.choice(["all", "temporal"])
            o["datetime_formats"] = ("%Y" + x, "%Y-%m-%d")
            o["header"] = [x, "b", "c" + x, "d"]
            o["row_filters"] = r.choice([[x], ["b", "nothing" + x], "|".join(["b", x])])
            o["dtypes"] = {x + "e": pa.int8(), "c" + x: pa.large_string()}
            if r.random() < 0.5:
                o["lookup_head"] = "|".join(["text", x])
            ctx.hit("new_arguments")
        if fail and k % 2:
            x = r.choice(["sheet", "dtypes", "callback", "header", "cut"])
            o.update({"sheet": {"sheet": "none"}, "dtypes": {"dtypes": [pa.int8()]}, "callback": {"row_callback": Boom(r.randrange(200))},
                      "header": {"header": ["a"]}, "cut": {}}[x])
            d = wb.write(b, cont)
            if x == "cut":
                d = d[:-30]
            try:
                go(d, o)
            except Exception:
                ctx.hit("repeated_failures")
                return
            raise mon.Inconclusive(f"{x} did not fail")
        try:
            go(wb.write(b, cont), o)
            if news:
                ctx.hit("new_arguments_done")
        except Exception:
            if not news:
                raise
            ctx.hit("new_arguments_refused")

    gc.collect()
    old = pa.default_memory_pool()
    pool = pa.proxy_memory_pool(old)
    POOLS.append(pool)
    pa.set_memory_pool(pool)
    tracemalloc.start()
    try:
        marks = []
        k = 0
        for stop in (12, 36, 60):
            while k < stop:
                once(k)
                ctx.hit("repeated_reads")
                k += 1
            re.purge()
            gc.collect()
            marks.append((tracemalloc.get_traced_memory()[0], pool.bytes_allocated(), len(gc.get_objects())))
    finally:
        tracemalloc.stop()
        pa.set_memory_pool(old)
    what = dict(container=cont, failing=fail, apart=apart, news=news, marks=marks)
    # a read of these takes over 100 KiB: one held in each step of 24 would show
    ctx.check(marks[2][0] - marks[1][0] < 60000 or marks[1][0] - marks[0][0] < 60000, f"{cont}: allocated memory grows from read to read: {[m[0] for m in marks]}", **what)
    ctx.check(marks[2][1] - marks[1][1] < 20000 or marks[1][1] - marks[0][1] < 20000, f"{cont}: Arrow memory grows from read to read: {[m[1] for m in marks]}", **what)
    ctx.check(marks[2][2] - marks[1][2] < 240 or marks[1][2] - marks[0][2] < 240, f"{cont}: objects grow from read to read: {[m[2] for m in marks]}", **what)
    ctx.seen_case((cont, fail, i, "retain"), True)


class Gate(io.BytesIO):
    """A stream that holds helper threads back once they have read some, until it is opened."""

    def __init__(self, data, after):
        super().__init__(data)
        self.after, self.taken, self.later = after, 0, 0
        self.open, self.reached = threading.Event(), threading.Event()
        self.owner = threading.current_thread()

    def read(self, *a):
        if threading.current_thread() is not self.owner:
            self.after -= 1
            if self.after <= 0:
                self.reached.set()
                self.open.wait(60)
        d = super().read(*a)
        if self.open.is_set():
            self.later += len(d)
        self.taken += len(d)
        return d


def giveup(ctx, r, i):
    """An iteration given up (or failing in the reader's own code) does not go on reading the sheet."""
    cont = ("xlsx", "xlsb")[i % 2]
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    n = r.choice([20000, 30000])
    b = Book([Sheet("S", [{0: N(y + 0.25), 1: S("t%d" % y + "x" * 40, "inline")} for y in range(n)])], T(), {"stored": True})
    data = wb.write(b, cont)
    cells = r.choice([1, 2, 50])
    later = []
    for _ in range(3):  # the mark is set by a clock, so it is confirmed
        g = Gate(data, r.choice([12, 20, 40]))
        w = {"xlsx": XlsxWorkbook, "xlsb": XlsbWorkbook}[cont](g)
        main = threading.get_ident()

        def let():
            """Opens the gate when the main thread waits for something."""
            last, same, t0 = None, 0, time.monotonic()
            while same < 30 and time.monotonic() - t0 < 5:
                f = sys._current_frames().get(main)
                at = (id(f), f.f_lasti) if f is not None else None
                same = same + 1 if at == last else 0
                last = at
                del f
                time.sleep(0.005)
            g.open.set()

        with w:
            it = w.iter_worksheet(0)
            for _ in range(cells):
                next(it)
            held = g.reached.wait(5) if cont == "xlsx" else False
            t = threading.Thread(target=let)
            t.start()
            it.close()
            g.open.set()
            t.join()
        ctx.hit("given_up")
        ctx.hit("held_back", held)
        ctx.hit("bytes_watched")
        later.append(g.later if cont == "xlsx" else g.taken)
        if later[-1] <= 300000:
            break
    ctx.check(min(later) <= 300000, f"{cont}: an iteration given up after {cells} cells goes on to read {min(later)} bytes of {len(data)}", container=cont, rows=n, cells=cells, bytes=later)
    ctx.seen_case((cont, n, cells, i), len(data) > 10**6)


class Boom:
    def __init__(self, n):
        self.n = n

    def __call__(self):
        self.n -= 1
        if self.n < 0:
            raise RuntimeError("stop")
