"""C06: reading an XLSX sheet returns every stored cell, unaltered, in its place.

Client: logical workbooks written by an independent writer (vf.wb). Oracle: the
reference reader (vf.model) over the logical cells. The same module drives C07
with the binary writer.
"""
from __future__ import annotations

import random

from .. import gen, model, rd, wb
from ..mon import Violation

ID = "C06"
CONTAINER = "xlsx"
LEVEL = "exploration"
RULE = ("random logical workbooks (all cell kinds, number formats, ragged/holed/empty rows, sparse column sets up to XFD) written "
        "in random file spellings, plus many spellings of one workbook, >65536 shared strings, texts up to 200000 characters and "
        "tall sheets; non-trivial when the expected table has a non-null cell, distinct by file bytes")
ASSUMPTIONS = ["XLSX General/percent/other numbers are returned as their literal text (documented design)",
               "files are written by this framework's writer, checked against the format text, not by Excel",
               "dense, ascending cell order inside rows as Excel writes them"]
PAD = True


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("mix", 5000 * k), ("spell", 150 * k), ("pos", 1500 * k), ("sst", 2 * (4 if tier == "thorough" else 1)), ("long", 60 * k), ("tall", 16 * k), ("wide", 16 * k), ("far", 8 * k), ("huge", 6 * k, 2)]


def required(tier):
    return {f"reads_{CONTAINER}": 5000, "cells_compared": 500000, "non_null_cells": 300000, "file_spellings": 500, "long_columns": 5}


def clean(book):
    """Empty texts are null in XLSX and texts in XLSB: both as documented by the model, none is generated here."""
    return book


def run(ctx, book, r, **kw):
    data = wb.write(book, CONTAINER)
    sheet = r.randrange(len(book.sheets))
    exp, _ = rd.against_model(ctx, book, CONTAINER, sheet if r.random() < 0.7 else book.sheets[sheet].name, kw.pop("header", 0), source=r.choice(["bytes", "bytes", "path", "Path", "file"]), data=data, **kw)
    if exp.kind == "table":
        ctx.seen_case(data, any(v is not None for c in exp.cols for v in c))
    return exp


def kinds(ctx, book):
    for s in book.sheets:
        for row in s.rows:
            for c in row.values():
                ctx.hit(f"cell_{c.kind}_{c.form or 'plain'}")
    for k in book.opts:
        ctx.hit(f"opt_{k}")


def case(ctx, group, r, i):
    if group == "mix":
        b = gen.book(r, gen_ok=True, pad_ok=PAD)
        kinds(ctx, b)
        run(ctx, b, r, header=r.choice([0, 0, 1]), take_rows_non_empty=r.random() < 0.6)
        if i < 3:
            ctx.sample(rd.describe(b, CONTAINER, cap=2))
    elif group == "pos":
        # every cell tells its own position: any shift is visible
        st, by = gen.style_table(r)
        cols = gen.col_set(r)
        n = r.choice([1, 3, 10, 40])
        rows = []
        for y in range(n):
            row = {}
            for x in cols:
                if r.random() < r.choice([0.1, 0.5, 0.9]):
                    continue
                k = r.random()
                row[x] = (wb.C("s", f"r{y}c{x}", r.choice([0, *by["tmp"]]), r.choice(["shared", "str", "inline"])) if k < 0.5
                          else wb.C("n", float(y * 20000 + x), r.choice(by["num"]), r.choice(["rk", "real", "fml"])) if k < 0.9
                          else r.choice([wb.C("blank", None, r.choice(by["gen"])), wb.C("e", r.choice(gen.ERRS), 0, r.choice(["plain", "fml"]))]))
            rows.append(row)
        b = wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))
        kinds(ctx, b)
        run(ctx, b, r, take_rows_non_empty=r.random() < 0.8)
    elif group == "spell":
        # one logical workbook, many spellings of the file, one result
        b = gen.book(r, gen_ok=True, pad_ok=PAD, nrows=r.choice([3, 8, 15]))
        for _ in range(12):
            b.opts = gen.opts(r)
            run(ctx, b, r, take_rows_non_empty=True)
            ctx.hit("file_spellings")
    elif group == "sst":
        n = r.choice([65536, 65537, 70000]) if i % 2 == 0 else 16500
        rows = [{0: wb.C("s", f"t{y}", 0, "shared"), 2: wb.C("s", f"u{(y * 7919) % n}", 0, "shared")} for y in range(n)]
        run(ctx, wb.Book([wb.Sheet("S", rows)], opts=gen.opts(r)), r, take_rows_non_empty=True)
        ctx.hit("big_sst")
    elif group == "long":
        rows = []
        for y in range(6):
            n = r.choice([1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 65535, 65536, 200000])
            unit = r.choice(["a", "Ж", "長", "😀", "x&y<", "ab \n", "_x0041_"])
            t = (unit * (n // len(unit) + 1))[:n].strip() or "q"
            rows.append({r.randint(0, 3): wb.C("s", t, 0, r.choice(["shared", "str", "inline"]), runs=gen.split_runs(r, t) if r.random() < 0.4 else None),
                         5: wb.C("n", float(y), r.choice([0, 1]), "real")})
        run(ctx, wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num")], gen.opts(r)), r, take_rows_non_empty=True)
        ctx.hit("long_texts", 6)
    elif group == "tall":
        st, by = gen.style_table(r)
        b = wb.Book([wb.Sheet("S", gen.grid(r, by, r.choice([2000, 4000]), gen.col_set(r), True, PAD))], st, gen.opts(r))
        run(ctx, b, r, take_rows_non_empty=r.random() < 0.5)
    elif group == "huge":
        # one or two columns of more than 65536 cells in a run
        f = r.choice(["rk", "real", "fml"])
        mk = [lambda y: wb.C("n", y + 0.5, 1, f), lambda y: wb.C("n", float(y), 1, f), lambda y: wb.C("s", f"t{y % 700}", 0, "shared"), lambda y: wb.C("s", f"u{y}", 0, "inline"), lambda y: wb.C("n", 30000.0 + y, 2, f), lambda y: wb.C("b", y % 7 == 0, 0)]
        cols = [gen.long_col(r, r.choice(gen.LONG), [r.choice(mk)], r.choice([[], [r.choice(mk)], [r.choice(mk), r.choice(mk)]])) for _ in range(r.choice([1, 1, 2]))]
        b = wb.Book([wb.Sheet("S", gen.long_rows(cols))], [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")], {})
        run(ctx, b, r, take_rows_non_empty=r.random() < 0.5)
        ctx.hit("long_columns", len(cols))
    elif group == "far":
        # a few rows at far apart, large row numbers
        top = 1048576 if i % 8 == 0 else 140000
        marks = [255, 256, 4096, 65534, 65535, 65536, 65537, 65792, 131071, 131072, 139999] + ([262144, 524288, 1000000, 1048574, 1048575] if top > 140000 else [])
        at = sorted(set(r.sample(marks, r.choice([2, 4, 6])) + [r.randrange(top) for _ in range(3)] + ([0] if r.random() < 0.5 else [])))
        rows = [{}] * (at[-1] + 1)
        for y in at:
            rows[y] = {r.choice([0, 1, 30]): r.choice([wb.C("s", f"r{y}", 0, r.choice(["shared", "inline", "str"])), wb.C("n", float(y), 1, "rk")])}
        b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num")], {**gen.opts(r), "omit_empty": r.random() < 0.8 or top > 140000})
        o = {"skip_rows": r.choice([at[0], at[1], at[1] - 1, at[1] + 1, 65536])} if r.random() < 0.4 else {}
        if r.random() < 0.3:
            o["take_rows"] = r.choice([1, 2, 65536, 70000])
        run(ctx, b, r, take_rows_non_empty=top < 140001 and r.random() < 0.6, **o)
        ctx.hit("far_rows", len(at))
    else:
        st, by = gen.style_table(r)
        b = wb.Book([wb.Sheet("S", gen.grid(r, by, 6, sorted(r.sample(range(16384), r.choice([300, 800]))), True, PAD))], st, gen.opts(r))
        run(ctx, b, r, take_rows_non_empty=r.random() < 0.5)
