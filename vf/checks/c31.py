"""C31: what lies between bytes, numpy and Arrow is exact.

Monitor: everything the conversions and wrappers return, looked at twice - at once,
and again after all sources are dropped and the freed memory is overwritten.
Oracle: plain Python over lists.
"""
from __future__ import annotations

import datetime as dt
import gc
import re
import struct

import numpy as np
import pyarrow as pa

from ..mon import Violation
from .c15 import own_format

ID = "C31"
LEVEL = "exploration"
RULE = ("arrays of every numeric type, of booleans and of texts, whole and sliced at any offset, empty, with and without nulls; byte payloads of fitting and "
        "unfitting sizes; patterns with and without case; indices inside and outside; date texts of one and of several formats; non-trivial when not empty, distinct by input")
ASSUMPTIONS = ["conversions that are documented for arrays without nulls get none", "patterns mean the same in Python's and in Arrow's regular expressions (literals, classes, anchors)"]

NP = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float64]
PA = {np.dtype(t): pa.from_numpy_dtype(t) for t in NP}
GROUPS = [("views", 1500), ("bytes", 1500), ("kernels", 2500), ("parts", 1200), ("texts", 700)]


def plan(tier):
    k = 30 if tier == "thorough" else 1
    return [(g, n * k) for g, n in GROUPS]


def required(tier):
    return {"elements": 300000, "slices": 1200, "refused": 800, "rechecked": 1500, "kernel_results": 2000, "parsed": 1200, "unparsed": 100, "dates_seen": 300, "times_seen": 300}


def size(r):
    return r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 128, 500, 1000])


def nums(r, t, n):
    t = np.dtype(t)
    if t.kind == "f":
        return np.array([r.choice([0.0, -0.0, 1.5, -2.25, r.uniform(-1e6, 1e6), float(r.randrange(10**6))]) for _ in range(n)], t)
    i = np.iinfo(t)
    return np.array([r.choice([0, 1, i.max, i.min, r.randint(i.min, i.max)]) for _ in range(n)], t)


def cut(r, a):
    """A slice of an array, and what it holds."""
    if len(a) and r.random() < 0.7:
        o = r.randrange(len(a))
        return a.slice(o, r.choice([len(a) - o, r.randrange(len(a) - o + 1)])), True
    return a, False


def churn():
    gc.collect()
    junk = [bytes([0xAB]) * k for k in (8, 64, 100, 128, 512, 1000, 4096, 8192) for _ in range(8)]
    junk2 = [pa.array(np.full(k, -7, np.int64)) for k in (1, 8, 16, 64, 128, 500, 1000)]
    del junk, junk2


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if isinstance(x, float) and isinstance(y, float):
            if struct.pack("<d", x) != struct.pack("<d", y) and not (x != x and y != y):
                return False
        elif x != y:
            return False
    return True


def expect(ctx, what, got, want, **d):
    ctx.hit("oracle_evaluations")
    ctx.hit("elements", len(want))
    if not same(got, want):
        raise Violation(f"{what}: {got!r:.300} instead of {want!r:.300}", **d)


def refused(ctx, what, f, **d):
    try:
        x = f()
    except Exception:
        ctx.hit("refused")
        return
    raise Violation(f"{what} gives {x!r:.300} instead of an error", **d)


def lst(x):
    return x.to_pylist() if isinstance(x, (pa.Array, pa.ChunkedArray)) else x.tolist()


def case(ctx, group, r, i):
    from rxls.chunk import arrow, casts

    n = size(r)
    if group == "views":
        k = r.randrange(3)
        if k == 0:
            t = r.choice(NP)
            src = nums(r, t, n)
            want = src.tolist()
            view = src
            if n and r.random() < 0.4:
                o = r.randrange(n)
                view = src[o:]
                want = want[o:]
                ctx.hit("slices")
            got = casts._unsafe_arrow(view, PA[np.dtype(t)])
            what = f"_unsafe_arrow of {np.dtype(t)} x {len(want)}"
            ctx.check(got.type == PA[np.dtype(t)] and not got.null_count, f"{what}: type {got.type}, {got.null_count} nulls")
        elif k == 1:
            t = r.choice(NP)
            src, s = cut(r, pa.array(nums(r, t, n)))
            ctx.hit("slices", s)
            want = src.to_pylist()
            got = casts._unsafe_array(src, t)
            what = f"_unsafe_array of {src.type} x {n}, slice at {src.offset} of {len(src)}"
            ctx.check(got.dtype == np.dtype(t), f"{what}: {got.dtype}")
            view = None
        else:
            src, s = cut(r, pa.array([r.random() < 0.5 for _ in range(n)], pa.bool_()))
            ctx.hit("slices", s)
            want = src.to_pylist()
            got = casts._unsafe_bool_arrow_to_numpy(src)
            what = f"_unsafe_bool_arrow_to_numpy of {n} bits, slice at {src.offset} of {len(src)}"
            ctx.check(got.dtype == np.bool_, f"{what}: {got.dtype}")
            view = None
        expect(ctx, what, lst(got), want)
        if isinstance(got, pa.Array):
            got.validate(full=True)
        del src, view
        churn()
        expect(ctx, what + ", after its source is gone", lst(got), want)
        ctx.hit("rechecked")
        ctx.seen_case((what, want), bool(want))
    elif group == "bytes":
        t = np.dtype(r.choice(NP))
        v = nums(r, t, n)
        items = [x.tobytes() for x in v]
        if r.random() < 0.3:
            items = [r.choice([bytes, bytearray, memoryview])(x) for x in items]
        want = v.tolist()
        to_arrow = r.random() < 0.5
        f = (lambda d: casts._unsafe_data_to_arrow(d, PA[t])) if to_arrow else (lambda d: casts._unsafe_data_to_array(d, t.type))
        what = f"_unsafe_data_to_{'arrow' if to_arrow else 'array'} of {t} x {n}"
        got = f(items)
        expect(ctx, what, lst(got), want)
        if to_arrow:
            got.validate(full=True)
        if n:
            bad = [bytes(x) for x in items]
            j = r.randrange(n)
            bad[j] = r.choice([bad[j] + bad[j], bad[j] * 3, b"", bad[j][:-1], bad[j] + b"\0"])
            if sum(map(len, bad)) != n * t.itemsize:
                refused(ctx, f"{what}, one of them of {len(bad[j])} bytes", lambda: f(bad))
        del items
        churn()
        expect(ctx, what + ", after its source is gone", lst(got), want)
        ctx.hit("rechecked")
        tx = [repr(x) for x in v.tolist()]
        want2 = np.array([float(x) for x in tx]).tolist()
        expect(ctx, f"_unsafe_strings_to_array of {n} texts", casts._unsafe_strings_to_array(tx, np.float64).tolist(), want2)
        expect(ctx, f"_unsafe_strings_to_array of {n} UTF-8 texts", casts._unsafe_strings_to_array([x.encode() for x in tx], np.float64).tolist(), want2)
        if n:
            tx[r.randrange(n)] = r.choice(["x", "", "1,5", "--1", "1 2", "0x1"])
            refused(ctx, f"_unsafe_strings_to_array of {tx!r:.80}", lambda: casts._unsafe_strings_to_array(tx, np.float64))
        ctx.seen_case((what, want), n > 0)
    elif group == "kernels":
        kernels(ctx, r, n, arrow)
    elif group == "parts":
        day = 86_400_000
        n = max(n, 1) if r.random() < 0.9 else r.choice([1025, 2000, 4097, 5000])
        vals = []
        mode = r.choice(["time", "date", "mixed", "edge"])
        for _ in range(n):
            d, tm = r.choice([0, 0, r.randrange(-25567, 2932896)]), r.choice([0, 0, r.randrange(day)])
            vals.append({"time": tm, "date": d * day, "mixed": d * day + tm}.get(mode, 0))
        if n > 1000 and mode in ("mixed", "edge"):  # one in thousands
            vals = [0] * n
            mode = "edge"
        if mode == "edge":
            vals[r.randrange(n)] = r.choice([day, day - 1, -1, 1, 0, -day, 2 * day, 253402300799999, -2208988800000])
        a = np.array(vals, np.int64)
        d, tm = any(not 0 <= x < day for x in vals), any(x % day for x in vals)
        ctx.check(bool(casts.dt_has_d(a)) is d, f"dt_has_d of {vals!r:.200} is {not d}", values=vals)
        ctx.check(bool(casts.dt_has_t(a)) is tm, f"dt_has_t of {vals!r:.200} is {not tm}", values=vals)
        ctx.hit("dates_seen", d)
        ctx.hit("times_seen", tm)
        p = r.choice([1, 2, 3, 6, 9])
        x = np.array([float(r.randrange(-10**6, 10**6)) for _ in range(n)])
        whole = True
        if r.random() < 0.6:
            j = r.randrange(n)
            how = r.choice(["far", "near", "big", "inf", "nan"])
            x[j] = {"far": x[j] + r.choice([0.5, 10.0**-p * 2, -0.3, 0.25]), "near": x[j] + (10.0**-p / 8 if x[j] >= 0 else -(10.0**-p) / 8) * (p < 9), "big": r.choice([1e19, -1e30, 2.0**63]),
                    "inf": float("-inf"), "nan": float("nan")}[how]
            whole = how == "near"
        ctx.check(bool(casts.f8_is_i8(x, p)) is whole, f"f8_is_i8 of {x.tolist()!r:.200} with {p} digits is {not whole}", values=x.tolist(), digits=p)
        ctx.seen_case((vals, x.tolist(), p), True)
    else:
        texts(ctx, r, casts)


WORDS = ["abc", "ABC", "aBc d", "", "x1", "Дата", "дата", "итого", "a.c", "ab", "2020-01-01", "a+b", "line\nline", "ß", "SS", "é", "É"]
PATS = ["a", "A", "abc", "^a", "c$", "a.c", "[0-9]+", "дата", "a|x", "b+", "", "\\d", "\\.", "\\+", "É", "(?i)ab"]
UNITS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}


def kernels(ctx, r, n, arrow):
    def null(f, p=0.2):
        return [None if r.random() < p else f() for _ in range(n)]

    k = r.choice(["cast", "cast", "match", "bool", "take", "nonzero", "strptime", "buffers"])
    ctx.hit("kernel_results")
    if k == "cast":
        t = r.choice(["f2i", "i2f", "i2s", "f2s", "s2s", "s2i", "s2f", "ts"])
        if t == "f2i":
            v = null(lambda: r.choice([r.uniform(-1e6, 1e6), 1.5, -1.5, 0.0, 2.0**40]))
            a, to, want = pa.array(v, pa.float64()), pa.int64(), [None if x is None else int(x) for x in v]
        elif t == "i2f":
            v = null(lambda: r.randrange(-(2**52), 2**52))
            a, to, want = pa.array(v, pa.int64()), pa.float64(), [None if x is None else float(x) for x in v]
        elif t == "i2s":
            v = null(lambda: r.randrange(-(2**63), 2**63))
            a, to, want = pa.array(v, pa.int64()), pa.large_string(), [None if x is None else str(x) for x in v]
        elif t == "f2s":
            v = null(lambda: r.choice([0.5, -1.25, 3.0e3, 12345.75]))
            a, to, want = pa.array(v, pa.float64()), pa.large_string(), [None if x is None else {3000.0: "3000"}.get(x, repr(x)) for x in v]
        elif t == "s2s":
            v = null(lambda: r.choice(WORDS))
            a, to, want = pa.array(v, pa.large_string()), pa.string(), v
        elif t == "s2i":
            v = null(lambda: r.randrange(-(2**31), 2**31))
            a, to, want = pa.array([None if x is None else str(x) for x in v], pa.large_string()), pa.int64(), v
        elif t == "s2f":
            v = null(lambda: r.uniform(-1e9, 1e9))
            a, to, want = pa.array([None if x is None else repr(x) for x in v], pa.large_string()), pa.float64(), v
        else:
            v = null(lambda: r.randrange(-(10**12), 10**12))
            a, to, want = pa.array(v, pa.int64()), pa.timestamp("ms"), v
        a, s = cut(r, a)
        ctx.hit("slices", s)
        if s:
            want = want[a.offset : a.offset + len(a)]
        got = arrow.unsafe_cast(a, to)
        ctx.check(got.type == to, f"unsafe_cast to {to} gives {got.type}")
        got = got.cast(pa.int64()) if t == "ts" else got
        expect(ctx, f"unsafe_cast of {a.type} to {to}", lst(got), want)
        if t in ("s2i", "s2f") and n:
            refused(ctx, f"unsafe_cast of texts that are no numbers to {to}", lambda: arrow.unsafe_cast(pa.array(["1", "x"], pa.large_string()), to))
    elif k == "match":
        p = r.choice(PATS)
        ic = r.choice([None, False, True])
        v = null(lambda: r.choice(WORDS))
        if ic and p in ("É", "дата"):
            p = "a"
        a, s = cut(r, pa.array(v, r.choice([pa.string(), pa.large_string()])))
        ctx.hit("slices", s)
        v = v[a.offset : a.offset + len(a)]
        rx = re.compile(p, re.I if ic else 0)
        got = arrow.match(a, p) if ic is None else arrow.match(a, p, ignore_case=ic)
        expect(ctx, f"match of {p!r}, ignore_case={ic}, in {v!r:.100}", lst(got), [None if x is None else bool(rx.search(x)) for x in v])
    elif k == "bool":
        x, y = null(lambda: r.random() < 0.5), null(lambda: r.random() < 0.5)
        a, b = pa.array(x, pa.bool_()), pa.array(y, pa.bool_())
        if n and r.random() < 0.5:
            o = r.randrange(n)
            a, b, x, y = a[o:], b[o:], x[o:], y[o:]
            ctx.hit("slices")
        either = [p is None or q is None for p, q in zip(x, y)]
        expect(ctx, f"invert of {x!r:.80}", lst(arrow.invert(a)), [None if p is None else not p for p in x])
        expect(ctx, f"or_ of {x!r:.80} and {y!r:.80}", lst(arrow.or_(a, b)), [None if e else p or q for p, q, e in zip(x, y, either)])
        expect(ctx, f"and_ of {x!r:.80} and {y!r:.80}", lst(arrow.and_(a, b)), [None if e else p and q for p, q, e in zip(x, y, either)])
    elif k == "take":
        m = max(n, 1)
        v = [None if r.random() < 0.2 else r.choice(WORDS) + str(j) for j in range(m)]
        a, s = cut(r, pa.array(v, pa.large_string()))
        ctx.hit("slices", s)
        v = v[a.offset : a.offset + len(a)]
        t = r.choice([pa.int64(), pa.uint32(), pa.int32(), pa.uint64()])
        if v:
            ix = [None if r.random() < 0.1 else r.choice([0, len(v) - 1, r.randrange(len(v))]) for _ in range(n)]
            expect(ctx, f"take of {ix!r:.100} from {len(v)}", lst(arrow.take(a, pa.array(ix, t))), [None if j is None else v[j] for j in ix])
        far = [len(v), len(v) + 1, 2**31 - 1] + ([-1, -len(v) - 1] if t in (pa.int64(), pa.int32()) else []) + ([2**40] if t.bit_width == 64 else []) + ([2**32 - 1] if t == pa.uint32() else [])
        j = r.choice(far)
        refused(ctx, f"take of index {j} ({t}) from {len(v)}", lambda: arrow.take(a, pa.array([0] * (n if v else 0) + [j], t)))
    elif k == "nonzero":
        v = null(lambda: r.choice([0, 0, 1, -5, 10**9]))
        a, s = cut(r, pa.array(v, pa.int64()))
        ctx.hit("slices", s)
        v = v[a.offset : a.offset + len(a)]
        expect(ctx, f"indices_nonzero of {v!r:.100}", lst(arrow.indices_nonzero(a)), [j for j, x in enumerate(v) if x])
    elif k == "strptime":
        f = r.choice(["%Y-%m-%d", "%d.%m.%Y %H:%M:%S", "%Y-%m-%dT%H:%M"])
        u = r.choice(list(UNITS))
        v = null(lambda: dt.datetime(r.randrange(1700, 2200), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)))
        tx = [None if x is None else x.strftime(f) for x in v]
        want = [None if x is None else int((dt.datetime.strptime(x, f) - dt.datetime(1970, 1, 1)).total_seconds()) * UNITS[u] for x in tx]
        bad = n > 0 and r.random() < 0.4
        if bad:
            j = r.randrange(n)
            tx[j], want[j] = "no date", None
        a = pa.array(tx, pa.large_string())
        if bad and r.random() < 0.3:
            refused(ctx, "strptime of a text that is no date, strict", lambda: arrow.strptime(a, f, u, False))
        got = arrow.strptime(a, f, u, True)
        ctx.check(got.type == pa.timestamp(u), f"strptime with unit {u} gives {got.type}")
        expect(ctx, f"strptime {f!r} {u} of {tx!r:.100}", lst(got.cast(pa.int64())), want)
    else:
        v = nums(r, np.int64, n)
        got = arrow.from_buffers(pa.int64(), n, (None, pa.py_buffer(v.tobytes())), 0)
        want = v.tolist()
        del v
        churn()
        expect(ctx, f"from_buffers of {n}", lst(got), want)
        ctx.hit("rechecked")
    ctx.seen_case((k, n, r.random()), n > 0)


DATES = ["%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y"]
TIMES = ["%H:%M:%S", "%H:%M"]
OWN = ["%Y%m%d", "%m/%d/%Y", "%d/%m/%Y", "%Y.%m.%d %H:%M", "%d %m %Y", "%H.%M", "%Y/%m/%d", "%H:%M", "%d.%m.%Y"]


def parse(t, f):
    try:
        x = dt.datetime.strptime(t, f)
    except ValueError:
        return None
    if not re.search("%[dmYy]", f):
        x = x.replace(1970, 1, 1)
    elif x.year < 1000:
        return None
    return int((x - dt.datetime(1970, 1, 1)) / dt.timedelta(milliseconds=1))


def texts(ctx, r, casts):
    n = r.choice([1, 2, 3, 5, 20])
    own = r.random() < 0.4
    fs = [own_format(r) if r.random() < 0.3 else f for f in r.sample(OWN, r.choice([1, 1, 2, 3, 4]))] if own else [f + s + t for f in DATES for s, t in [(" ", TIMES[0]), ("T", TIMES[0]), (" ", TIMES[1]), ("T", TIMES[1]), ("", "")]] + TIMES
    tx = []
    for _ in range(n):
        f = r.choice(fs)
        y = r.randrange(1970, 2068) if "%y" in f else r.choice([r.randrange(1600, 2400), 1900, 1000, 1969, 1970, 9999])
        tx.append(dt.datetime(y, r.randrange(1, 13), r.choice([1, 28, r.randrange(1, 29), 13]), r.randrange(24), r.randrange(60), r.choice([0, 59, r.randrange(60)])).strftime(f.replace("%Y", "%04d" % y)))
    bad = set()
    if r.random() < 0.35:
        j = r.randrange(n)
        tx[j] = r.choice(["no date", "", "2020-13-01", "32.01.2020", "25:61", "2020-01-01 x", "x 2020-01-01", "12", "-", "2020-02-30x"])
    want = []
    for j, t in enumerate(tx):
        v = next((x for f in fs if (x := parse(t, f)) is not None), None)
        want.append(v)
        if v is None:
            bad.add(j)
    ty = r.choice([pa.large_string(), pa.string()])
    a = pa.array(["pad", *tx, "pad"], ty)[1:-1] if r.random() < 0.3 else pa.array(tx, ty)
    forms = (tuple(fs) if r.random() < 0.5 else fs) if own else r.choice([None, (), []])
    what = f"mf_strptime of {tx!r:.200} by {fs if own else 'the default formats'}"
    if bad:
        refused(ctx, what, lambda: casts.mf_strptime(a, forms), texts=tx)
        ctx.hit("unparsed")
        got = casts.mf_strptime(a, forms, strict=False)
        expect(ctx, what + ", not strict", got.tolist(), [v or 0 for v in want], texts=tx)
    else:
        got = casts.mf_strptime(a, forms)
        ctx.check(got.dtype == np.int64, f"{what}: {got.dtype}")
        expect(ctx, what, got.tolist(), want, texts=tx)
        ctx.hit("parsed", n)
    ctx.seen_case((tx, fs), True)
