"""C16: requested column types are honoured exactly or refused."""
from __future__ import annotations

import pyarrow as pa

from .. import gen, rd, wb
from ..mon import Violation

ID = "C16"
LEVEL = "exploration"
RULE = ("random sheets read untyped and with dtypes as one type, a dict by name (present and absent names) or a sequence (right and "
        "wrong length), over 30 Arrow types incl. units, zones, decimals, dictionaries; expected values are Arrow's checked cast of "
        "the untyped read; non-trivial when a requested type differs from the untyped one, distinct by types and data")
ASSUMPTIONS = ["Arrow's checked cast defines what a conversion gives and which conversions are impossible"]
TYPES = [pa.string(), pa.large_string(), pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.uint8(), pa.uint32(), pa.uint64(), pa.float32(), pa.float64(), pa.bool_(),
         pa.timestamp("s"), pa.timestamp("ms"), pa.timestamp("us"), pa.timestamp("ns"), pa.timestamp("ms", "UTC"), pa.timestamp("us", "Europe/Paris"), pa.timestamp("s", "UTC"),
         pa.date32(), pa.date64(), pa.time32("s"), pa.time64("us"), pa.duration("ms"), pa.decimal128(20, 4), pa.decimal128(5, 0), pa.binary(), pa.large_binary(),
         pa.dictionary(pa.int32(), pa.large_string()), pa.dictionary(pa.int8(), pa.string()), pa.null()]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("one", 1800 * k), ("dict", 2700 * k), ("seq", 2000 * k), ("len", 300 * k), ("long", 6 * k, 2)]


def required(tier):
    return {"typed_tables": 1500, "refused": 1500, "changed_columns": 1500, "untouched_columns": 2000, "wide_sequences": 40, "long_columns": 4, "given_heads": 800, "repeated_names": 250}


def sheet(r):
    """Columns of known kinds, so that many conversions succeed."""
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    cols = gen.col_set(r, r.choice([1, 2, 3, 4])) if r.random() < 0.96 else list(range(r.choice([9, 17, 33, 70, 260])))
    n = r.choice([1, 2, 5, 12])
    rows = [{c: wb.C("s", r.choice(["a", "b", "a", "c"]), 0, "shared") for c in cols}]
    prof = {c: r.choice(["small", "int", "float", "half", "date", "day", "numtext", "datetext", "text", "bool", "null", "bool01", "mix"]) for c in cols}
    for y in range(n):
        row = {}
        for c in cols:
            if r.random() < 0.15:
                continue
            k = prof[c]
            row[c] = (wb.C("n", float(r.randint(0, 100)), 1, "rk") if k == "small" else wb.C("n", gen.int_val(r), 1, "real") if k == "int" else wb.C("n", gen.float_val(r), 1, "real") if k == "float"
                      else wb.C("n", r.randint(-50, 50) + 0.5, 1, "rk") if k == "half" else wb.C("n", float(r.randint(20000, 50000)) + r.choice([0, 0.5, 0.123456]), 2, "real") if k == "date"
                      else wb.C("n", float(r.randint(61, 60000)), 2, "rk") if k == "day" else wb.C("s", str(r.randint(0, 300)), 0, "shared") if k == "numtext"
                      else wb.C("s", f"20{r.randint(10, 30)}-0{r.randint(1, 9)}-1{r.randint(0, 9)}", 0, "inline") if k == "datetext" else wb.C("s", gen.word(r), 0, "shared") if k == "text"
                      else wb.C("b", r.random() < 0.5, 0) if k == "bool" else wb.C("n", float(r.randint(0, 1)), 1, "rk") if k == "bool01"
                      else r.choice([wb.C("n", 1.0, 1, "rk"), wb.C("s", "x", 0, "shared"), wb.C("n", 40000.0, 2, "rk")]) if k == "mix" else None)
            if row[c] is None:
                row.pop(c)
        rows.append(row)
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def long_sheet(r):
    form = r.choice(["rk", "real"])
    mk = r.choice([lambda y: wb.C("n", float(y % 120), 1, form), lambda y: wb.C("n", float(y % 120), 1, form), lambda y: wb.C("n", 30000.0 + y % 9999, 2, form), lambda y: wb.C("s", str(y % 100), 0, "shared")])
    odd = r.choice([[], [lambda y: wb.C("n", 300.0, 1, form)], [lambda y: wb.C("n", -1.0, 1, form)], [lambda y: wb.C("n", 0.5, 1, form)], [lambda y: wb.C("s", "x", 0, "inline")], [lambda y: wb.C("n", 40000.25, 2, form)]])
    head = wb.C("s", "a", 0, "shared")
    return wb.Book([wb.Sheet("S", gen.long_rows([[head, *gen.long_col(r, r.choice(gen.LONG), [mk], odd)]]))], [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")], {})


def case(ctx, group, r, i):
    if group == "long":
        b = long_sheet(r)
        group = r.choice(["one", "dict", "seq"])
        ctx.hit("long_columns")
    else:
        b = sheet(r)
    cont = r.choice(["xlsx", "xlsb"])
    data = wb.write(b, cont)
    header = r.choice([1, 1, 0])
    o = {"take_rows_non_empty": True}
    if r.random() < 0.3:
        o["conflict_resolve"] = r.choice(["all", "numeric", "temporal"])
    s0, base = rd.attempt(data, 0, header, **o)
    if s0 == "ok" and r.random() < 0.25:
        # names of the caller's own, some of them more than once
        header = [r.choice(["a", "b", "c", "", "a.1", f"n{k}"]) for k in range(base.num_columns)]
        s0, base = rd.attempt(data, 0, header, **o) if header else (s0, base)
        ctx.hit("given_heads")
        ctx.hit("repeated_names", len(set(header)) < len(header))
    if s0 == "err":
        raise Violation(f"{cont}: untyped read failed: {base!r}", case=rd.describe(b, cont))
    n = base.num_columns
    names = base.column_names
    if group == "one":
        dtypes = r.choice(TYPES)
        want = {k: dtypes for k in range(n)}
    elif group == "dict":
        dtypes = {x: r.choice(TYPES) for x in r.sample(names, r.randint(0, n))}
        if r.random() < 0.3:
            dtypes[r.choice(["absent", "A", "Unnamed"])] = r.choice(TYPES)
        want = {k: dtypes[x] for k, x in enumerate(names) if x in dtypes}
    elif group == "seq":
        wide = n > 8
        seq = [r.choice([base.column(k).type, pa.large_string(), pa.string()] if wide and r.random() < 0.997 else [r.choice(TYPES), base.column(k).type, pa.large_string()]) for k in range(n)]
        ctx.hit("wide_sequences", wide)
        dtypes = r.choice([list, tuple])(seq)
        want = dict(enumerate(seq))
    else:
        m = r.choice([n + 1, n - 1, n + 4, 0])
        dtypes = [pa.large_string()] * max(m, 0)
        want = None if m != n else {k: pa.large_string() for k in range(n)}
    exp, refuse = [], want is None
    for k in range(n if want is not None else 0):
        a = base.column(k).combine_chunks() if base.column(k).num_chunks != 1 else base.column(k).chunk(0)
        if k in want and a.type != want[k]:
            try:
                a = a.cast(want[k])
            except Exception:
                refuse = True
                break
            ctx.hit("changed_columns")
        else:
            ctx.hit("untouched_columns")
        exp.append(a)
    st, tab = rd.attempt(data, 0, header, dtypes=dtypes, **o)
    ctx.hit("oracle_evaluations")
    what = rd.describe(b, cont, header=header, dtypes=dtypes, **o)
    ctx.seen_case((data, repr(dtypes)), bool(want))
    ctx.sample(what, cap=2)
    if refuse:
        if st == "ok":
            raise Violation(f"{cont}: impossible dtypes {dtypes!r} were accepted for {[str(c.type) for c in base.columns]}", case=what)
        if not isinstance(tab, ValueError):
            raise Violation(f"{cont}: impossible dtypes raise {type(tab).__name__} ({tab}), not ValueError", case=what)
        ctx.hit("refused")
        return
    if st == "err":
        raise Violation(f"{cont}: possible dtypes {dtypes!r} are refused: {type(tab).__name__}: {tab} (untyped: {[str(c.type) for c in base.columns]})", case=what)
    if tab.column_names != names:
        raise Violation(f"{cont}: names {tab.column_names!r} instead of {names!r}", case=what)
    for k in range(n):
        got = tab.column(k)
        if got.type != exp[k].type:
            raise Violation(f"{cont}: column {k} is {got.type}, expected {exp[k].type}", case=what)
        g = got.combine_chunks() if got.num_chunks != 1 else got.chunk(0)
        e = exp[k].combine_chunks() if isinstance(exp[k], pa.ChunkedArray) else exp[k]
        same = repr(g.to_pylist()) == repr(e.to_pylist()) if pa.types.is_floating(g.type) else g.equals(e)
        if not same:
            raise Violation(f"{cont}: column {k} ({got.type}) is {str(g)[:200]}, the checked cast gives {str(e)[:200]}", case=what)
    ctx.hit("typed_tables")
