"""C08: the XLSX and XLSB renderings of one workbook read as the same table.

Differential oracle: the two reads are compared with each other, cell by cell
and bit by bit, under random reading options (the reference reader is not used).
"""
from __future__ import annotations

import pyarrow as pa

from .. import gen, rd, wb
from ..mon import Violation

ID = "C08"
LEVEL = "exploration"
RULE = ("random logical workbooks whose numbers all have numeric or date formats, each read from both renderings under random "
        "options (header, windows, lookup, filters, conflicts, dtypes, null texts, precision, non-empty rows); non-trivial when "
        "both reads returned a table with a non-null cell, distinct by workbook and options")
ASSUMPTIONS = ["texts have no surrounding whitespace and are not empty (the XLSX reader strips, the XLSB reader does not)"]


def plan(tier):
    k = 25 if tier == "thorough" else 1
    return [("cross", 9000 * k), ("plain", 800 * k), ("wide", 16 * k)]


def required(tier):
    return {"both_tables": 6000, "both_errors": 200, "non_null_cells": 60000}


def options(r, book):
    sh = book.sheets[0]
    cols = sorted({c for row in sh.rows for c in row})
    texts = [c.val for row in sh.rows for c in row.values() if c.kind == "s"]
    o: dict = {}
    if r.random() < 0.3:
        o["skip_rows"] = r.choice([1, 2, 3, 5])
    if r.random() < 0.3:
        o["take_rows"] = r.choice([1, 2, 5, 10])
    if r.random() < 0.5:
        o["take_rows_non_empty"] = r.random() < 0.7
    if cols and r.random() < 0.25:
        o["skip_cols"] = r.sample(cols, r.randint(1, max(1, len(cols) // 2)))
    if r.random() < 0.6:
        o["conflict_resolve"] = r.choice(["no", "temporal", "numeric", "all"])
    if r.random() < 0.3:
        o["float_precision"] = r.choice([0, 1, 2, 4, 10])
    if texts and r.random() < 0.3:
        nv = r.sample(texts, min(len(texts), r.choice([1, 2, 5])))
        o["null_values"] = r.choice([nv, tuple(nv), set(nv), lambda s, nv=frozenset(nv): s in nv, lambda s: s.startswith("a") or s.isdigit(), ["0", "1", "2"]])
    if texts and r.random() < 0.15:
        import re

        o["lookup_head"] = r.choice([re.escape(r.choice(texts))[:40], r.choice(cols)])
        if r.random() < 0.5:
            o["lookup_size"] = r.choice([1, 3, 10])
    if r.random() < 0.2:
        o["row_filters"] = r.choice([".*", "Unnamed", "U", ["Unnamed", "a"], [0], [0, 1], "zzz"])
        o["row_filters_strategy"] = r.choice(["or", "and", ["or"], ["and", "or"]])
    if r.random() < 0.15:
        o["datetime_formats"] = r.choice(["%Y-%m-%d", ("%d.%m.%Y", "%H:%M")])
    header = r.choice([0, 0, 1, 1, 2, 3, True])
    if header and r.random() < 0.25:
        o["skip_rows_after_header"] = r.choice([1, 2])
    if r.random() < 0.15:
        o["dtypes"] = r.choice([pa.large_string(), pa.string(), pa.float64(), pa.int32(), {"a": pa.float32(), "Unnamed": pa.large_string()}])
    return header, o


def case(ctx, group, r, i):
    b = gen.book(r, gen_ok=False, pad_ok=False, nrows=r.choice([1, 3, 5, 8, 13, 20, 40]), nsheets=r.choice([1, 1, 2]))
    if group == "wide":
        b = gen.book(r, gen_ok=False, nrows=4, nsheets=1, cols=sorted(r.sample(range(16384), r.choice([20, 100, 300]))))
    header, o = options(r, b) if group == "cross" else (r.choice([0, 1]), {})
    sheet = r.choice([0, b.sheets[0].name])
    o1 = dict(b.opts)
    res = {}
    for cont in ("xlsx", "xlsb"):
        b.opts = gen.opts(r)
        res[cont] = rd.attempt(wb.write(b, cont), sheet, header, **o)
        ctx.hit(f"reads_{cont}")
    (sx, tx), (sb, tb) = res["xlsx"], res["xlsb"]
    what = rd.describe(b, "both", sheet=sheet, header=header, **o)
    ctx.hit("oracle_evaluations")
    if sx != sb:
        bad = tx if sx == "err" else tb
        raise Violation(f"one rendering reads and the other fails: xlsx {sx}, xlsb {sb}: {type(bad).__name__}: {bad}", case=what)
    if sx == "err":
        ctx.hit("both_errors")
        ctx.seen_case((b.sheets, header, repr(o)), False)
        return
    d = compare(tx, tb)
    if d:
        raise Violation(f"renderings differ: {d}", case=what)
    ctx.hit("both_tables")
    nn = sum(len(c) - c.null_count for c in tx.columns)
    ctx.hit("non_null_cells", nn)
    ctx.seen_case((repr([(s.name, s.rows) for s in b.sheets]), header, repr(o)), nn > 0)
    ctx.sample(what)


def compare(a: pa.Table, b: pa.Table) -> str | None:
    if a.column_names != b.column_names:
        return f"column names {a.column_names!r} / {b.column_names!r}"
    if a.num_rows != b.num_rows:
        return f"{a.num_rows} / {b.num_rows} rows"
    for n, (x, y) in enumerate(zip(a.columns, b.columns)):
        if x.type != y.type:
            return f"column {n} is {x.type} / {y.type}"
        xs, ys = (c.cast(pa.int64()).to_pylist() if pa.types.is_timestamp(c.type) else c.to_pylist() for c in (x, y))
        for k, (p, q) in enumerate(zip(xs, ys)):
            if p != q and not (p != p and q != q):
                return f"row {k} of column {n} ({a.column_names[n]!r}) is {p!r:.200} / {q!r:.200}"
    return None
