"""C05: Excel serial dates convert to the right instant, to the nearest millisecond."""
from __future__ import annotations

import datetime as dt
from fractions import Fraction

import numpy as np

from ..model import serial_ms
from ..mon import Violation

ID = "C05"
LEVEL = "exploration"
RULE = ("all 2958466 whole days and every one of the 86400 seconds of sampled days (all of them in quick), millisecond-level "
        "fractions, neighbours (1 ulp) of every boundary and random doubles over [0, 9999-12-31], judged by extended-precision "
        "and exact rational arithmetic and, on samples, by the datetime calendar; non-trivial = every serial, distinct by block")
ASSUMPTIONS = ["a serial's instant is taken from its exact double value; 0.05 ms of slack is given to double rounding at half-millisecond ties",
               "1900 date system (date1904 workbooks are out of scope)"]
MAX = 2958466.0  # 10000-01-01


def plan(tier):
    k = 30 if tier == "thorough" else 1
    return [("days", 46), ("secs", 40 * k), ("rand", 60 * k), ("edge", 20), ("cal", 20 * k), ("inv", 60 * k)]


def required(tier):
    return {"days": 2958466, "serials": 5 * 10**6, "inverse": 10**6, "calendar_checks": 2000, "monotone_pairs": 10**6}


def conv(a):
    from rxls.chunk.casts import f8_to_ms_win

    keep = a.copy()
    out = np.asarray(f8_to_ms_win(a))
    if not np.array_equal(a, keep):
        raise Violation("f8_to_ms_win changed its input")
    if out.dtype != np.int64 or out.shape != a.shape:
        raise Violation(f"f8_to_ms_win returned {out.dtype} {out.shape}")
    return out


def check(ctx, a):
    got = conv(a)
    la = a.astype(np.longdouble)
    base = np.where(a < 1, 0, np.where(a < 60, 25568, 25569)).astype(np.longdouble)
    want = (la - base) * np.longdouble(86400000)
    bad = np.abs(got.astype(np.longdouble) - want) > np.longdouble(0.55)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation(f"serial {a[k]!r} converts to {int(got[k])} ms, it denotes {float(serial_ms(float(a[k])))} ms ({int(bad.sum())} of {len(a)})")
    ctx.hit("serials", len(a))
    ctx.hit("oracle_evaluations", len(a))
    # monotone within each of the three ranges
    o = np.argsort(a, kind="stable")
    s, g = a[o], got[o]
    for lo, hi in ((0, 1), (1, 60), (60, MAX)):
        m = (s >= lo) & (s < hi)
        if m.sum() > 1:
            d = np.diff(g[m])
            ctx.hit("monotone_pairs", int(m.sum()) - 1)
            if (d < 0).any():
                k = int(np.argmax(d < 0))
                raise Violation(f"not monotone: serials {s[m][k]!r} < {s[m][k+1]!r} convert to {int(g[m][k])} > {int(g[m][k+1])}")
    return got


def inverse(ctx, ms):
    """ms -> serial -> ms and against the definition."""
    from rxls.chunk.casts import ms_to_f8_win

    f = np.asarray(ms_to_f8_win(ms.copy()))
    if f.dtype != np.float64 or f.shape != ms.shape:
        raise Violation(f"ms_to_f8_win returned {f.dtype} {f.shape}")
    # inside the supported range, outside the two ambiguous days (1900-02-28 and 1970-01-01)
    ok = ~((ms >= 0) & (ms < 86400000)) & ~((ms >= -2203977600000) & (ms < -2203891200000))
    back = conv(f)
    d = np.abs(back - ms)
    bad = ok & (d > 1)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation(f"timestamp {int(ms[k])} ms becomes serial {f[k]!r}, which is {int(back[k])} ms ({int(bad.sum())} of {len(ms)})")
    # the serial itself denotes the instant
    w = np.where(ms.astype(np.longdouble) < -2203891200000, 25568, 25569) + ms.astype(np.longdouble) / 86400000
    bad = ok & (np.abs(f.astype(np.longdouble) - w) * 86400000 > 1.0)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation(f"timestamp {int(ms[k])} ms becomes serial {f[k]!r}, expected {float(w[k])!r}")
    ctx.hit("inverse", len(ms))
    ctx.hit("oracle_evaluations", len(ms))


EDGES = [0.0, 5e-324, 1e-12, 0.5, 1 - 2**-53, 1.0, 1 + 2**-52, 59.0, 60.0, 61.0, 25568.0, 25569.0, 25570.0, 2958465.0, 366.0, 367.0, 36526.0, 43831.0, 45000.5, 1.5]


def case(ctx, group, r, i):
    if group == "days":
        a = np.arange(i * 65536, min((i + 1) * 65536, 2958466), dtype=np.float64)
        if not len(a):
            return
        check(ctx, a)
        ctx.hit("days", len(a))
        inverse(ctx, ((a[a >= 2] - 25569) * 86400000).astype(np.int64))  # every midnight from 1900-01-01
        ctx.seen_case(("d", i), n=len(a))
    elif group == "secs":
        day = r.choice([0, 1, 2, 58, 59, 60, 61, 25568, 25569, 25570, 2958465, r.randint(0, 2958465), r.randint(36000, 47000)])
        s = np.arange(86400, dtype=np.float64)
        a = day + s / 86400.0
        a = a[(a < MAX)]
        got = check(ctx, a)
        if day >= 61 or day == 0:
            want = ((day - 25569) * 86400000 if day else 0) + (s.astype(np.int64) * 1000)
            if not np.array_equal(got, want[: len(got)]):
                k = int(np.argmax(got != want[: len(got)]))
                raise Violation(f"serial of day {day} second {k} ({a[k]!r}) converts to {int(got[k])}, expected exactly {int(want[k])}")
        ms = day + np.array([r.randint(0, 86399999) for _ in range(20000)], np.float64) / 86400000.0
        check(ctx, ms)
        ctx.seen_case(("s", day), n=len(a) + len(ms))
    elif group == "rand":
        n = 50000
        u = np.frombuffer(r.randbytes(8 * n), np.uint64).astype(np.float64) / 2.0**64
        lo, hi = r.choice([(0, MAX), (0, 1), (1, 60), (0, 62), (60, 40000), (20000, 60000), (25568, 25571), (2958000, MAX)])
        a = lo + u * (hi - lo)
        a = a[(a >= 0) & (a < MAX)]
        check(ctx, a)
        ctx.seen_case(("r", i, lo, hi), n=len(a))
        ctx.sample({"serials": [float(x) for x in a[:3]], "ms": [int(x) for x in conv(a[:3])]})
    elif group == "edge":
        e = EDGES[i]
        a, x, y = [e], e, e
        for _ in range(300):
            x, y = np.nextafter(x, -1), np.nextafter(y, MAX)
            a += [max(float(x), 0.0), float(y)]
        a += [e + d / 86400000 for d in range(0, 400)] + [e - d / 86400000 for d in range(400) if e - d / 86400000 >= 0]
        arr = np.array([v for v in a if 0 <= v < MAX])
        got = check(ctx, arr)
        for v, g in zip(arr.tolist(), got.tolist()):
            if abs(Fraction(g) - serial_ms(v)) > Fraction(1, 2) + Fraction(1, 20):
                raise Violation(f"serial {v!r} converts to {g} ms, it denotes {float(serial_ms(v))} ms")
            one = int(conv(np.array([v]))[0])
            if one != g:
                raise Violation(f"serial {v!r} converts to {one} alone and to {g} in an array")
        if conv(np.array([], np.float64)).size:
            raise Violation("conversion of nothing is not empty")
        ctx.seen_case(("e", e), n=len(arr))
    elif group == "cal":
        for _ in range(120):
            d = r.choice([r.randint(61, 2958465), r.randint(1, 59), r.randint(36526, 47000)])
            sec = r.randint(0, 86399)
            day = (dt.datetime(1899, 12, 30) if d >= 61 else dt.datetime(1899, 12, 31)) + dt.timedelta(days=d)
            want = (day + dt.timedelta(seconds=sec) - dt.datetime(1970, 1, 1)) // dt.timedelta(milliseconds=1)
            got = int(conv(np.array([d + sec / 86400]))[0])
            if got != want:
                raise Violation(f"serial {d} + {sec} s converts to {got} ms, the calendar says {day} + {sec} s = {want} ms")
            ctx.hit("calendar_checks")
            ctx.seen_case(("c", d, sec))
    else:
        n = 40000
        lo, hi = r.choice([(-2208988800000, 253402300799999), (-2208988800000, -2200000000000), (-10**9, 10**9), (0, 2 * 10**12), (-2203891200000 - 10**6, -2203891200000 + 10**6), (86400000 - 1000, 86400000 + 10**6)])
        a = np.array([r.randint(lo, hi) for _ in range(n)], np.int64)
        edges = [-2208988800000, -2203977600000, -2203891200000, -1, 0, 86400000, 253402300799999]
        a = np.concatenate([a, np.array([min(max(e + k, -2208988800000), 253402300799999) for e in edges for k in (-86400000, -1000, -1, 0, 1, 1000, 86400000)], np.int64)])
        inverse(ctx, a)
        ctx.seen_case(("i", i, lo), n=len(a))
