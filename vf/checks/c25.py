"""C25: the accelerated code paths obey the same properties as the plain ones.

numba is not here, so its branches are run interpreted (vf.accel): a copy of the
package is imported with a stand-in numba (and again as if TBB were there too),
and the monitors and oracles of the other checks watch that copy. Reads are also
compared with the plain copy, table by table.
"""
from __future__ import annotations

import functools
import io

import numpy as np

from .. import accel, gen, rd, wb
from ..mon import Violation
from . import c01, c02, c04, c05, c06, c07, c08, c19, c23

ID = "C25"
LEVEL = "exploration"
RULE = ("the workloads of the record, scan, RK, serial, cell and column-store checks, run on a copy of the package whose numba branches are "
        "on (with and without TBB), plus record streams whose headers and payloads straddle the 65536-byte blocks of the accelerated scanner, "
        "cut at the boundaries, and reads of intact and damaged workbooks compared with the plain copy; non-trivial and distinct as in those checks")
ASSUMPTIONS = ["the accelerated branches run interpreted, under a stand-in numba that keeps its call rules: what machine code the compiler would make is not observed",
               "wanted-id sets are not empty (numba cannot type an empty set)", "polars is not addressed (see C27)"]

SUB = {"c01": c01, "c02": c02, "c04": c04, "c05": c05, "c06": c06, "c07": c07, "c19": c19, "c23": c23}
# group -> (check, group of it, cases in quick, in thorough)
PLAN = [
    ("c01", "rand", 80, 600), ("c01", "edges", 23, 23), ("c01", "shared", 30, 150), ("c02", "cuts", 40, 1000), ("c02", "filter", 100, 2000),
    ("c02", "zip", 24, 600), ("c02", "bigcut", 16, 200), ("c02", "garbage", 100, 3000), ("c04", "blocks", 32, 48), ("c04", "scalar", 16, 60), ("c04", "enc", 30, 200),
    ("c05", "secs", 12, 40), ("c05", "rand", 20, 60), ("c05", "edge", 10, 20), ("c05", "inv", 20, 60), ("c06", "mix", 120, 4000), ("c07", "mix", 300, 5000),
    ("c07", "tall", 4, 16), ("c19", "cut", 8, 100), ("c19", "flip", 8, 100), ("c23", "history", 160, 3000),
]


def plan(tier):
    t = tier == "thorough"
    k = 20 if t else 1
    return [(f"{c}.{g}.{v}", b if t else a if c in ("c04", "c05", "c01") else 2 * a, 2) for c, g, a, b in PLAN for v in ("nb", "tbb")] + [("blocks", 120 * k), ("pair", 300 * k), ("damaged", 200 * k), ("names", 40 * k)]


def required(tier):
    return {"calls_jit_biff": 20000, "calls_jit_casts": 600, "calls_gu_casts": 600, "calls_jit_xlsx": 2000, "straddled": 100, "pairs": 400, "both_fail": 100}


@functools.cache
def copies():
    return {"nb": accel.load(False), "tbb": accel.load(True)}


def finish(ctx):
    for k, v in accel.CALLS.items():
        ctx.hit("calls_" + k, v)


def case(ctx, group, r, i):
    cp = copies()
    if "." in group:
        c, g, v = group.split(".")
        with accel.using(cp[v]):
            try:
                SUB[c].case(ctx, g, r, i)
            except Violation as e:
                raise Violation(f"accelerated ({'numba with TBB' if v == 'tbb' else 'numba'}): {e.msg}", **e.detail) from None
        return
    {"blocks": blocks, "pair": pair, "damaged": damaged, "names": names}[group](ctx, r, i, cp)


def blocks(ctx, r, i, cp):
    """Records around the ends of the blocks in which the accelerated scanner reads."""
    B = 1 << 16
    recs, pos = [], 0
    for k in range(r.choice([1, 2, 3])):
        target = (k + 1) * B + r.choice([0, 0, -1, 1, -2, 2, -3, 3, -4, -5, -6, r.randint(-130, 130)])
        while pos < target - 9:
            n = min(target - pos - r.choice([4, 5, 6, 7, 8]), r.choice([target, 300, 20000, 20000, 70000]))
            recs.append((r.choice(c01.ALL_IDS), r.randbytes(max(0, n))))
            pos += len(c01.enc(recs[-1:]))
        for _ in range(3):
            recs.append((r.choice(c01.ALL_IDS), r.randbytes(r.choice([0, 1, 2, 127, 128, 300]))))
            pos += len(c01.enc(recs[-1:]))
    data = c01.enc(recs)
    only = c02.wanted(r, recs)
    ends = [k for k in range(B, len(data) + 1, B)]
    cuts = sorted({len(data), *ends, *(k + r.choice([-1, 1, -3, 2]) for k in ends), r.randint(0, len(data))})
    v = ("nb", "tbb")[i % 2]
    with accel.using(cp[v]):
        for cut in cuts:
            if cut <= len(data):
                c02.run(ctx, data, recs, cut, only, Short(data[:cut], r) if r.random() < 0.3 else None)
                ctx.hit("straddled")
    ctx.seen_case(("blk", tuple((k, len(d)) for k, d in recs[-9:]), tuple(sorted(only or ()))))


class Short(c02.Watched):
    """Gives less than it is asked for, but not nothing."""

    def __init__(self, data, r):
        super().__init__(data)
        self.r = r

    def read(self, n=-1):
        return super().read(max(1, n - self.r.choice([0, 1, n // 2, n - 1])) if n > 1 else n)


def both(ctx, r, cp, data, header, o, what):
    st, t = rd.attempt(data, 0, header, **o)
    for v in ("nb", "tbb"):
        with accel.using(cp[v]):
            sa, ta = rd.attempt(data, 0, header, **o)
        ctx.hit("pairs")
        ctx.hit("oracle_evaluations")
        if sa != st:
            bad = ta if sa == "err" else t
            raise Violation(f"plain read: {st}, accelerated ({v}): {sa}: {bad!r:.200}", case=what)
        if st == "err":
            ctx.hit("both_fail")
        elif d := c08.compare(t, ta):
            raise Violation(f"plain and accelerated ({v}) reads differ: {d}", case=what)
    ctx.seen_case((data, header, repr(o)), st == "ok")


def pair(ctx, r, i, cp):
    cont = ("xlsb", "xlsb", "xlsx")[i % 3]
    b = gen.book(r, nrows=r.choice([1, 5, 13, 40, 900 if i % 20 == 0 else 8]))
    header, o = c08.options(r, b)
    both(ctx, r, cp, wb.write(b, cont), header, o, rd.describe(b, cont, header=header, **o))


def damaged(ctx, r, i, cp):
    """The sheet, strings or styles end early, or the container is cut: both fail, or both read the same."""
    cont = ("xlsb", "xlsb", "xlsx")[i % 3]
    b = c19.small(r)
    parts = c19.parts_of(wb.write(b, cont))
    cand = [n for n, _ in parts if c19.role(n) or "styles" in n or "workbook." in n]
    for _ in range(4):
        name = r.choice(cand)
        d = dict(parts)[name]
        cut = r.randint(0, len(d))
        data = c19.rezip([(n, x[:cut] if n == name else x) for n, x in parts])
        both(ctx, r, cp, data, r.choice([0, 1]), {"take_rows_non_empty": True}, {"part": name, "cut": cut, "of": len(d), **rd.describe(b, cont)})


def names(ctx, r, i, cp):
    """Column letters: every column there is."""
    cols = {"nb": cp["nb"]["rxls.reader.xlsx"].col_idx, "tbb": cp["tbb"]["rxls.reader.xlsx"].col_idx}
    for v, f in cols.items():
        for k in [0, 25, 26, 51, 52, 675, 676, 701, 702, 703, 16383] + [r.randrange(16384) for _ in range(40)]:
            got = f((wb.col_name(k) + str(r.choice([1, 9, 10, 1048576]))).encode())
            ctx.hit("oracle_evaluations")
            if int(got) != k:
                raise Violation(f"accelerated ({v}): column {wb.col_name(k)} is read as {got}, not {k}")
    ctx.seen_case(("names", i))
