"""C26: arguments that mean nothing are refused, inert ones change nothing, none crashes.

Three workloads over both renderings of one workbook: one meaningless argument
among sound ones must raise; one inert argument must leave the table as it was;
arbitrary objects for any option must give the same outcome in both containers,
and a table, if any, that is sound and no longer than the sheet. Workers that die
by a signal are reported by the runner.
"""
from __future__ import annotations

import re

import pyarrow as pa

from .. import gen, rd, wb
from ..mon import Violation
from . import c08

ID = "C26"
LEVEL = "exploration"
RULE = ("random workbooks in both renderings, sound random options plus one meaningless or inert value of one option, or arbitrary "
        "objects for one to three options; non-trivial when the sheet has a non-null cell, distinct by workbook and arguments")
ASSUMPTIONS = ["text cells have no surrounding whitespace", "an unknown conflict strategy is not judged (it is read as 'no'), nor is a filter that names no column",
               "numbers are kept below 5000 where they are sizes, so that no case asks for all memory"]
ENV = {"PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165", "ARROW_DEFAULT_MEMORY_POOL": "system", "ARROW_DEBUG_MEMORY_POOL": "trap"}


def plan(tier):
    k = 25 if tier == "thorough" else 1
    return [("refused", 2500 * k), ("inert", 2500 * k), ("zoo", 4000 * k), ("formats", 1500 * k)]


def required(tier):
    return {"refused": 3000, "inert": 2500, "zoo_tables": 3000, "zoo_errors": 2500, "kinds_refused": 30, "kinds_inert": 15}


class Odd:
    """An object with nothing to it."""

    def __repr__(self):
        return "Odd()"


def refusals(r, b, header, o, ncols, names):
    """(name, header, sheet, options) that mean nothing."""
    neg = -r.choice([1, 1, 2, 3, 30, 1000, 2**31, 2**63])
    inexact = r.choice([1.0, 0.5, "1", None, (), b"1", Odd()])
    lst = r.choice([0, len(b.sheets)])
    yield "header<0", neg, 0, {}
    yield "header float", r.choice([1.0, 0.5, Odd(), 2j]), 0, {}
    yield "header short", [f"n{k}" for k in range(ncols - 1)], 0, {}
    yield "header long", [f"n{k}" for k in range(ncols + r.choice([1, 2, 50]))], 0, {}
    yield "header types", [r.choice([k, 1.5, Odd()]) for k in range(ncols)], 0, {}
    yield "skip_rows<0", header, 0, {"skip_rows": neg}
    yield "take_rows<0", header, 0, {"take_rows": neg}
    yield "after<0", header, 0, {"skip_rows_after_header": neg}
    yield "skip_rows type", header, 0, {"skip_rows": inexact}
    yield "take_rows type", header, 0, {"take_rows": inexact}
    yield "after type", header, 0, {"skip_rows_after_header": r.choice(["1", None, b"1", Odd(), (), 1j, 0.0, 1.0, 1.5, 2.0, float('nan')])}
    yield "sheet name", header, r.choice(["no such sheet", "", b.sheets[0].name + "x", b.sheets[0].name + " ", "xl/worksheets/sheet1.xml", "rId1"]), {}
    yield "sheet number", header, r.choice([-1, -2, -len(b.sheets), len(b.sheets), len(b.sheets) + 1, 10**6]), {}
    yield "sheet type", header, r.choice([None, 0.5, b"S", (0,), Odd()]), {}
    yield "lookup column", header, 0, {"lookup_head": r.choice([-1, -ncols, 16384, 10**6])}
    yield "lookup pattern", header, 0, {"lookup_head": r.choice(["(", "[", "*", "a{2,1}", "\\"])}
    yield "lookup type", header, 0, {"lookup_head": r.choice([1.5, ["a"], ("a",), Odd()])}
    yield "lookup nowhere", header, 0, {"lookup_head": "^no such text in any cell$"}
    yield "filters type", header, 0, {"row_filters": r.choice([5, 1.5, ("a",), {"a"}, {0: 1}, Odd(), b"a"])}
    yield "filters mixed", header, 0, {"row_filters": r.choice([["a", 0], [0, "a"], ["a", None], [None], [1.0], [0, 1.5], [b"a"], [Odd()]])}
    yield "filters pattern", header, 0, {"row_filters": r.choice(["(", "[", "*", ["(", "["], ["*"]])}
    yield "dtypes length", header, 0, {"dtypes": [pa.large_string()] * r.choice([n for n in (0, 1, ncols - 1, ncols + 1, ncols + 5) if n != ncols])}
    yield "dtypes type", header, 0, {"dtypes": r.choice([5, int, 1.5, Odd(), True])}
    yield "dtypes items", header, 0, {"dtypes": [r.choice([None, 5, Odd(), "no such type"]) for _ in range(ncols)]}
    yield "dtypes named items", header, 0, {"dtypes": {n: r.choice([5, Odd(), "no such type", int]) for n in names}}
    yield "skip_cols type", header, 0, {"skip_cols": r.choice([5, 1.5, Odd(), True])}
    yield "null_values type", header, 0, {"null_values": r.choice([5, 1.5, True, Odd(), 1j])}
    yield "callback type", header, 0, {"row_callback": r.choice([5, "x", [1], Odd(), 1.5])}
    yield "callback arity", header, 0, {"row_callback": r.choice([lambda a: None, lambda a, b: None])}
    if ncols > 1:
        n = r.choice([n for n in (0, 1, ncols - 2, ncols, ncols + 3) if n != ncols - 1])
        f = list(range(ncols))
        yield "strategy length", header, 0, {"row_filters": f, "row_filters_strategy": r.choice([list, tuple])(r.choice(["or", "and"]) for _ in range(n))}
        yield "strategy word", header, 0, {"row_filters": f, "row_filters_strategy": r.choice(["xor", "OR", "", None, 5, Odd(), ["no"] * (ncols - 1), [None] * (ncols - 1), [1] * (ncols - 1)])}
    yield "no archive", None, None, {}


def table_of(data, sheet, header, o, src):
    return rd.attempt(data, sheet, list(header) if isinstance(header, list) else header, source=src, **o)


def setup(r):
    b = gen.book(r, gen_ok=False, nrows=r.choice([2, 3, 5, 8, 13]), cols=None, hole=r.choice([0.0, 0.2]), empty_rows=r.random() < 0.3)
    datas = {}
    for c in ("xlsx", "xlsb"):
        b.opts = gen.opts(r)
        datas[c] = wb.write(b, c)
    return b, datas


KINDS: dict = {"refused": set(), "inert": set()}


def finish(ctx):
    # every worker sees nearly all kinds; counted per worker
    for k, v in KINDS.items():
        ctx.hit("kinds_" + k, len(v))


def case(ctx, group, r, i):
    b, datas = setup(r)
    src = r.choice(["bytes", "bytes", "path", "file"])
    {"refused": refused, "inert": inert, "zoo": zoo, "formats": formats}[group](ctx, r, b, datas, src)


def refused(ctx, r, b, datas, src):
    header = r.choice([0, 1, 1, 2])
    base = {"take_rows_non_empty": r.random() < 0.5}
    if r.random() < 0.5:
        base["conflict_resolve"] = r.choice(["numeric", "temporal", "all"])
    oks = {c: rd.attempt(d, 0, header, **base) for c, d in datas.items()}
    st, t = oks["xlsx"]
    if st == "err" or oks["xlsb"][0] == "err":
        raise Violation(f"sound options failed: {st} {t!r:.200}, {oks['xlsb']!r:.200}", case=rd.describe(b, "both", header=header, **base))
    if not t.num_columns:
        ctx.seen_case(("no cells", b.sheets), False)
        return
    every = list(refusals(r, b, header, base, t.num_columns, t.column_names))
    for name, h, sheet, o in r.sample(every, 3):
        for c, d in datas.items():
            if name == "no archive":
                h, sheet = header, 0
                d = r.choice([b"", b"PK", d[: r.randint(0, len(d) - 30)], b"x" * 100, d[:30] * 3])
            a = {**base, **o}
            st, res = table_of(d, sheet, h, a, src)
            ctx.hit("oracle_evaluations")
            if st == "ok":
                raise Violation(f"{c}: a meaningless argument ({name}) gives a table {res.column_names!r} x {res.num_rows}", case=rd.describe(b, c, sheet=sheet, header=h, **a))
            ctx.hit("refused")
        KINDS["refused"].add(name)
        ctx.seen_case((repr(b.sheets), name, repr(h), repr(sheet), repr(o)))
    # and a refusal leaves nothing behind
    for c, d in datas.items():
        st, t2 = rd.attempt(d, 0, header, **base)
        if st == "err" or c08.compare(oks[c][1], t2):
            raise Violation(f"{c}: after refused arguments the sound read changed: {t2!r:.200}", case=rd.describe(b, c, header=header, **base))


def inerts(r, b, t, base, header):
    cols = {c for row in b.sheets[0].rows for c in row}
    nr = len(b.sheets[0].rows)
    free = [c for c in (0, 1, 5, 30, 700, 16383, 16384, 10**6, -1) if c not in cols]
    zz = "\u2603no such name"
    yield "skip_cols", {"skip_cols": r.choice([[], (), set(), [r.choice(free)], {r.choice(free)}, tuple(free), None, range(16384, 16400)])}
    yield "take_rows", {"take_rows": r.choice([0, nr, nr + 1, nr + r.randint(2, 10**6), False])}
    yield "skip_rows", {"skip_rows": r.choice([0, False])}
    yield "after", {"skip_rows_after_header": r.choice([0, False])}
    yield "null_values", {"null_values": r.choice([None, [], (), set(), [zz], {zz}, frozenset(), {zz: 1}, lambda s: False, lambda s: None, lambda s: ""])}
    yield "row_callback", {"row_callback": r.choice([None, lambda: None, lambda: 1, list, lambda *a: a, lambda: False])}
    yield "dtypes", {"dtypes": r.choice([None, {}, {zz: pa.int8()}, {5: pa.int8()}, {None: pa.int8()}, {n + "\u2603": pa.int8() for n in t.column_names}])}
    yield "dtypes same", {"dtypes": r.choice([[f.type for f in t.schema], tuple(f.type for f in t.schema), {f.name: f.type for f in t.schema}])}
    yield "row_filters", {"row_filters": r.choice([None, [], ""])}
    yield "strategy", {"row_filters_strategy": r.choice(["or", "and", ["or"], ("and",), []])}
    yield "lookup_head", {"lookup_head": None, "lookup_size": r.choice([0, 1, 30, 1000])}
    yield "lookup_size", {"lookup_size": r.choice([1, 2, 30, 5000])}
    if base.get("conflict_resolve", "no") in ("no", "numeric"):
        yield "datetime_formats", {"datetime_formats": r.choice([None, (), "%Y", ("%d", "%H:%M"), "%Q", ("",), "", "%"])}
        yield "no formats", {"datetime_formats": r.choice([None, ()])}
    else:
        yield "no formats", {"datetime_formats": r.choice([None, ()])}
    yield "utf8_type_infers", {"utf8_type_infers": r.random() < 0.5}
    kinds = {str(f.type) for f in t.schema}
    if kinds <= {"timestamp[ms]"} and not header:
        yield "float_precision", {"float_precision": r.choice([0, 1, 15])}
    yield "float_precision same", {"float_precision": base.get("float_precision", 6)}
    yield "conflict no", {"conflict_resolve": base.get("conflict_resolve", "no")}


def inert(ctx, r, b, datas, src):
    header = r.choice([0, 1, 1, 2])
    base = {"take_rows_non_empty": r.random() < 0.7}
    if r.random() < 0.5:
        base["conflict_resolve"] = r.choice(["no", "numeric", "temporal", "all"])
    if r.random() < 0.3:
        base["float_precision"] = r.choice([0, 2, 9])
    for c, d in datas.items():
        st, t = rd.attempt(d, 0, header, **base)
        if st == "err":
            raise Violation(f"{c}: sound options failed: {t!r:.200}", case=rd.describe(b, c, header=header, **base))
        for name, o in r.sample(list(inerts(r, b, t, base, header)), 2):
            a = {**base, **o}
            s2, t2 = table_of(d, 0, header, a, src)
            ctx.hit("oracle_evaluations")
            if s2 == "err":
                raise Violation(f"{c}: an inert argument ({name}) makes the read fail: {type(t2).__name__}: {t2}", case=rd.describe(b, c, header=header, **a))
            if df := c08.compare(t, t2):
                raise Violation(f"{c}: an inert argument ({name}) changes the table: {df}", case=rd.describe(b, c, header=header, **a))
            ctx.hit("inert")
            KINDS["inert"].add(name)
            ctx.seen_case((repr(b.sheets), name, repr(o), header), t.num_rows > 0)


# anything at all, as a caller who confused the options would pass it
ZOO = [None, True, False, 0, 1, 2, 7, -1, 300, 4999, 0.0, 1.0, -0.5, float("nan"), float("inf"), 1j, "", "a", "0", ".*", "(", "all", "or", "%Y", "%", b"", b"a", (), [], {}, set(),
       (0,), [0], [1, 2], {0}, {0: 0}, ["a"], ("a", "b"), [None], [[]], [1.5], range(0), range(3), range(-2, 2), Odd(), len, str, list, int, Ellipsis, NotImplemented, re.compile("a"), re.compile(b"a"),
       pa.int64(), pa.null(), pa.list_(pa.int8()), pa.struct([("a", pa.int8())]), pa.dictionary(pa.int8(), pa.string()), pa.binary(), pa.binary(3), pa.decimal128(5, 2), pa.decimal128(38, 9), pa.bool_(), pa.duration("ms"),
       pa.time32("s"), pa.float16(), pa.uint64(), pa.month_day_nano_interval(), pa.large_list(pa.string()), pa.map_(pa.string(), pa.int8()), pa.timestamp("ns", "Europe/Paris"), pa.timestamp("s"), "int64", "float", "timestamp[ms]",
       pa.schema([]), pa.array([1]), pa.scalar(1), slice(1), object, Exception, memoryview(b"ab"), bytearray(b"a"), frozenset({"a"}), {"a": None}, {"a": pa.int8()}, {"Unnamed": pa.list_(pa.int8())}, "\udc80", "a\x00b", ["\udc80"], ("%Q",), ("",), ["%Y-%m-%d", ""], "%z", "%Y-%m-%d%z", "%s"]
OPTS = ["header", "dtypes", "skip_cols", "skip_rows", "skip_rows_after_header", "take_rows", "take_rows_non_empty", "lookup_head", "lookup_size", "row_filters", "row_filters_strategy",
        "float_precision", "datetime_formats", "conflict_resolve", "null_values", "row_callback", "utf8_type_infers"]


FMT = "%%%%%%YmdHMSzZTRDFjaAbBpIyeQsCGUVWun -:/.T0\x00é"


def formats(ctx, r, b, datas, src):
    """Any text as a date format, where there are texts to be read with it."""
    st = [wb.Style(0, None, "gen"), wb.Style(14, None, "tmp")]
    rows = []
    for _ in range(r.choice([2, 3, 6, 12])):
        row = {0: wb.C("n", gen.serial(r), 1, "rk")}
        for c in (1, 2):
            if r.random() < 0.5:
                row[c] = wb.C("n", gen.serial(r), 1, "real")
            elif r.random() < 0.8:
                row[c] = wb.C("s", r.choice(["2020-01-01", "01.02.2020", "12:30", "12:30:15", "2020-01-01T10:00:00+0100", "7", "x", "%", "Jan 5 2021", "é", "1e400", "99999999999", gen.word(r)]), 0, "shared")
        rows.append(row)
    b = wb.Book([wb.Sheet("S", rows)], st, {})
    datas = {c: wb.write(b, c) for c in ("xlsx", "xlsb")}
    one = lambda: r.choice(["", "%", "%%", "%z", "%Y-%m-%d", "%d.%m.%Y", "%H:%M", "%Y-%m-%dT%H:%M:%S%z", "x", "%s", "\x00", "".join(r.choice(FMT) for _ in range(r.randint(0, 9)))])
    o = {"conflict_resolve": r.choice(["temporal", "all"]), "datetime_formats": r.choice([one(), (one(),), [one(), one()], (one(), one(), one())])}
    judge(ctx, b, datas, src, 0, o)


def zoo(ctx, r, b, datas, src):
    names = [r.choice(OPTS) for _ in range(r.choice([1, 1, 2, 3]))]
    o = {"take_rows_non_empty": r.random() < 0.5, "conflict_resolve": r.choice(["no", "all"]), "header": r.choice([0, 1])}
    for n in names:
        o[n] = r.choice(ZOO)
    judge(ctx, b, datas, src, o.pop("header"), o)


def judge(ctx, b, datas, src, header, o):
    outs = {c: table_of(d, 0, header, o, src) for c, d in datas.items()}
    what = rd.describe(b, "both", header=header, **o)
    (sx, tx), (sb, tb) = outs["xlsx"], outs["xlsb"]
    ctx.hit("oracle_evaluations")
    ctx.seen_case((repr(b.sheets), repr(header), repr(o)))
    for c, (st, t) in outs.items():
        ctx.hit("zoo_errors" if st == "err" else "zoo_tables")
        if st == "err":
            continue
        if not isinstance(t, pa.Table):
            raise Violation(f"{c}: the read returned {type(t).__name__}", case=what)
        try:
            t.validate(full=True)
        except Exception as e:
            raise Violation(f"{c}: invalid table: {e}", case=what) from None
        if t.num_rows > len(b.sheets[0].rows):
            raise Violation(f"{c}: {t.num_rows} rows from a sheet of {len(b.sheets[0].rows)}", case=what)
    if sx == sb == "ok" and (d := c08.compare(tx, tb)):
        raise Violation(f"renderings differ: {d}", case=what)
