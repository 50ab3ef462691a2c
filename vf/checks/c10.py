"""C10: row and column windows select exactly the requested part of the sheet."""
from __future__ import annotations

from .. import gen, rd, wb
from ..mon import Violation

ID = "C10"
LEVEL = "exploration"
RULE = ("random and ragged sheets (leading/inner/trailing/omitted empty rows, columns ending at different rows, null cells, null "
        "texts) x skip_rows x take_rows x take_rows_non_empty x skip_cols x skip_rows_after_header, and complete option grids of "
        "small sheets, both containers; non-trivial when the window cuts something off or keeps an empty row, distinct by sheet and options")
ASSUMPTIONS = ["rows omitted from the file (gaps in row numbers) count as empty rows", "trailing rows without a value are not part of the table"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("rand", 1500 * k), ("grid", 40 * k), ("ragged", 1200 * k), ("tall", 6 * k), ("runs", 40 * k), ("long", 4 * k, 2)]


def required(tier):
    return {"reads_xlsx": 4000, "reads_xlsb": 4000, "cells_compared": 50000, "skips": 2000, "takes": 2000, "kept_empty": 2000, "skip_cols": 500, "given_heads": 300, "many_runs": 30, "long_columns": 3}


def tagged(r, n, cols, ragged=False):
    """Sheet whose cells say where they are."""
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    last = {c: (r.randint(0, n) if ragged else n) for c in cols}
    firstr = {c: (r.randint(0, max(0, last[c] - 1)) if ragged and r.random() < 0.4 else 0) for c in cols}
    kind = {c: r.choice(["s", "n", "t", "mix"]) for c in cols}
    p_empty = r.choice([0.0, 0.1, 0.3, 0.6])
    hole = r.choice([0.0, 0.2, 0.5])
    rows = []
    lead = r.choice([0, 0, 1, 3]) if n > 3 else 0
    for y in range(n):
        row = {}
        if y < lead or r.random() < p_empty:
            if r.random() < 0.4:
                row = {c: r.choice([wb.C("blank", None, 1), wb.C("e", "#N/A"), wb.C("s", "#N/A", 0, r.choice(["shared", "inline"])), wb.C("s", "NULL!", 0, r.choice(["shared", "inline"]))]) for c in cols if r.random() < 0.5}
            rows.append(row)
            continue
        for c in cols:
            if not firstr[c] <= y < last[c] or r.random() < hole:
                continue
            k = kind[c] if kind[c] != "mix" else r.choice(["s", "n", "t"])
            if k == "s":
                row[c] = wb.C("s", f"r{y}c{c}", 0, r.choice(["shared", "shared", "inline", "str"]))
            elif k == "n":
                row[c] = wb.C("n", float(y * 1000 + c), 1, r.choice(["rk", "real", "fml"]))
            else:
                row[c] = wb.C("n", float(40000 + y), 2, r.choice(["rk", "real"]))
        rows.append(row)
    for _ in range(r.choice([0, 0, 1, 4])):
        rows.append({})
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def window(r, n, cols):
    o: dict = {}
    if r.random() < 0.6:
        o["skip_rows"] = r.choice([0, 1, 2, 3, n // 2, n - 1, n, n + 1, n + 5])
        o["skip_rows"] = max(0, o["skip_rows"])
    if r.random() < 0.6:
        o["take_rows"] = max(0, r.choice([0, 1, 2, 3, n // 2, n - 1, n, n + 3]))
    if r.random() < 0.7:
        o["take_rows_non_empty"] = r.random() < 0.6
    if r.random() < 0.35:
        o["skip_cols"] = r.sample(cols, r.randint(0, len(cols))) + ([max(cols) + 1] if r.random() < 0.3 else [])
        k = r.random()
        if k < 0.3:  # listed by something else than a list
            o["skip_cols"] = r.choice([tuple, set, frozenset, dict.fromkeys])(o["skip_cols"])
        elif k < 0.45:
            a = r.choice([0, *cols])
            o["skip_cols"] = range(a, a + r.choice([1, 2, 5, 300]), r.choice([1, 1, 2]))
    header = r.choice([0, 0, 1, 1, 2])
    if r.random() < 0.15:  # names given by the caller
        header = gen.names_for(r, [c for c in cols if c not in o.get("skip_cols", ())])
    if r.random() < 0.35:
        o["skip_rows_after_header"] = r.choice([1, 2, n, n // 2, r.randint(0, n)])
    if r.random() < 0.4:
        o["null_values"] = ["NULL!"]
    return header, o


def both(ctx, b, header, o):
    for cont in ("xlsx", "xlsb"):
        rd.against_model(ctx, b, cont, 0, header, **o)
    ctx.hit("skips", bool(o.get("skip_rows")))
    ctx.hit("takes", bool(o.get("take_rows")))
    ctx.hit("kept_empty", bool(o.get("take_rows_non_empty")))
    ctx.hit("given_heads", isinstance(header, list))
    ctx.hit("skip_cols", bool(o.get("skip_cols")))
    ctx.seen_case((repr(b.sheets[0].rows), repr(header), repr(sorted(o.items()))), any(o.get(k) for k in ("skip_rows", "take_rows", "take_rows_non_empty", "skip_cols", "skip_rows_after_header")), n=2)


def case(ctx, group, r, i):
    if group == "rand":
        b = gen.book(r, gen_ok=True, nsheets=1, nrows=r.choice([1, 3, 6, 12, 25]))
        cols = sorted({c for row in b.sheets[0].rows for c in row}) or [0]
        header, o = window(r, len(b.sheets[0].rows), cols)
        both(ctx, b, header, o)
    elif group == "ragged":
        n = r.choice([1, 2, 3, 5, 8, 15, 30])
        cols = gen.col_set(r)
        b = tagged(r, n, cols, ragged=True)
        header, o = window(r, n, cols)
        both(ctx, b, header, o)
        if i < 2:
            ctx.sample(rd.describe(b, "both", header=header, **o))
    elif group == "grid":
        # every window of a small sheet
        n = r.choice([2, 3, 4])
        cols = r.choice([[0], [0, 1], [1, 3]])
        b = tagged(r, n, cols, ragged=r.random() < 0.5)
        for s in range(0, n + 3):
            for t in range(0, n + 3):
                for ne in (False, True):
                    both(ctx, b, 0, {"skip_rows": s, "take_rows": t, "take_rows_non_empty": ne})
    elif group == "long":
        n = r.choice(gen.LONG)
        mk = r.choice([lambda y: wb.C("n", y + 0.5, 1, "real"), lambda y: wb.C("n", float(y), 1, "rk"), lambda y: wb.C("s", f"t{y % 700}", 0, "shared"), lambda y: wb.C("n", 30000.0 + y, 2, "rk")])
        b = wb.Book([wb.Sheet("S", gen.long_rows([gen.long_col(r, n, [mk]), gen.long_col(r, 65536 + r.randint(1, 50), [mk])]))], [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")], {})
        header, o = window(r, n, [0, 1])
        o.pop("skip_rows", None)
        o.update(r.choice([{}, {"skip_rows": r.choice([65535, 65536, 65537])}, {"take_rows": r.choice([65534, 65535, 65536, 65537])}, {"skip_rows_after_header": r.choice([65534, 65535, 65536])} if header else {}]))
        both(ctx, b, header, o)
        ctx.hit("long_columns")
    elif group == "runs":
        # hundreds of stored runs in every column
        n = r.choice([130, 270, 600])
        kinds = [lambda y, c: wb.C("s", f"r{y}c{c}", 0, "shared"), lambda y, c: wb.C("s", f"i{y}c{c}", 0, "inline"), lambda y, c: wb.C("n", float(y), 1, "rk"), lambda y, c: wb.C("n", y + 0.125, 1, "real"), lambda y, c: wb.C("n", 40000.0 + y, 2, "rk")]
        rows = [{c: kinds[(y + c) % len(kinds)](y, c) for c in (0, 2) if r.random() < 0.95} for y in range(n)]
        b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")], gen.opts(r))
        for _ in range(3):
            header, o = window(r, n, [0, 2])
            if r.random() < 0.6:
                header = r.choice([1, ["p", "q"]]) if not o.get("skip_cols") else 1
                o["skip_rows_after_header"] = r.randint(0, n)
            both(ctx, b, header, o)
        ctx.hit("many_runs")
    else:
        n = r.choice([3000, 5000])
        b = tagged(r, n, [0, 3, 26], ragged=True)
        for _ in range(3):
            header, o = window(r, n, [0, 3, 26])
            both(ctx, b, header, o)
