"""C11: column names come from the header rows, in order, complete and unique."""
from __future__ import annotations

from .. import gen, rd, wb
from ..mon import Violation

ID = "C11"
LEVEL = "exploration"
RULE = ("sheets with header rows drawn from a small vocabulary (repeats, suffix collisions, empties, numbers, dates, booleans, null "
        "texts), header heights 0-6, True, lists of right and wrong length, header-only sheets, both containers; non-trivial when a "
        "name is empty, repeated, joined or taken from a neighbour, distinct by header cells and height")
ASSUMPTIONS = ["an integer header cell may be spelled '1' or '1.0'-free as int64/double text; instants compare to the millisecond",
               "a column whose header cells are all empty is named 'Unnamed' and is not used as left neighbour"]
VOC = ["a", "a", "b", "a.1", "a.1.1", "b.1", "Unnamed", "Unnamed.1", "итог", "x, y", "c", "a.2", " ", "сумма\nруб", "A"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("one", 2000 * k), ("multi", 2000 * k), ("list", 500 * k), ("only", 500 * k), ("none", 300 * k), ("wide", 60 * k), ("spread", 60 * k)]


def required(tier):
    return {"reads_xlsx": 4000, "reads_xlsb": 4000, "repeated_names": 500, "header_only": 300, "rejected_lists": 100, "joined": 500, "tall_heads": 60, "wide": 40, "spread": 40}


def hcell(r, typed=True):
    k = r.random()
    if k < 0.25:
        return None
    if k < 0.3:
        return r.choice([wb.C("blank", None, 0), wb.C("e", "#N/A"), wb.C("s", "#N/A", 0, "shared"), wb.C("s", "nul", 0, r.choice(["shared", "inline"]))])
    if k < 0.9 or not typed:
        return wb.C("s", r.choice(VOC).strip() or "z", r.choice([0, 0, 1, 2]), r.choice(["shared", "shared", "inline", "str"]))
    if k < 0.95:
        return wb.C("n", r.choice([1.0, 2.0, 2020.0, 2.5, 0.0, -3.0, 12345678.0]), 1, r.choice(["rk", "real"]))
    if k < 0.98:
        return wb.C("n", r.choice([43831.0, 43831.5, 61.0]), 2, r.choice(["rk", "real"]))
    return wb.C("b", r.random() < 0.5, 0)


def make(r, heads, ndata, cols):
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    rows = []
    for _ in range(heads):
        row = {}
        for c in cols:
            x = hcell(r)
            if x is not None:
                row[c] = x
        rows.append(row)
    for y in range(ndata):
        row = {}
        for n, c in enumerate(cols):
            if r.random() < 0.15:
                continue
            k = (n + len(cols)) % 3
            row[c] = (wb.C("s", f"v{y}_{c}", 0, r.choice(["shared", "inline"])) if k == 0 else wb.C("n", float(y * 100 + c), 1, "rk") if k == 1 else wb.C("n", 40000.0 + y, 2, "real"))
        rows.append(row)
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def both(ctx, b, header, o):
    for cont in ("xlsx", "xlsb"):
        exp, res = rd.against_model(ctx, b, cont, 0, header, **o)
        if res is not None and exp.kind == "table":
            names = res.column_names
            if len(set(names)) != len(names) and not isinstance(header, list):
                raise Violation(f"{cont}: repeated column names {names!r}", case=rd.describe(b, cont, header=header, **o))
            # Arrow must resolve every name to its own column
            ctx.hit("repeated_names", sum(1 for n in names if n[-2:-1] == "." and n[-1:].isdigit()))
            ctx.hit("joined", sum(", " in n for n in names))
    ctx.seen_case((repr(b.sheets[0].rows[: 6]), repr(header), repr(o)), bool(header), n=2)


def case(ctx, group, r, i):
    cols = gen.col_set(r)
    o: dict = {}
    if r.random() < 0.3:
        o["null_values"] = ["nul"]
    if r.random() < 0.3:
        o["take_rows_non_empty"] = True
    if r.random() < 0.2:
        o["conflict_resolve"] = r.choice(["numeric", "temporal", "all"])
    if group == "one":
        b = make(r, 1, r.choice([0, 1, 3, 10]), cols)
        both(ctx, b, r.choice([1, 1, True]), o)
    elif group == "multi":
        h = r.choice([2, 2, 3, 4, 6]) if r.random() < 0.85 else r.choice([9, 10, 11, 12, 20, 101])
        ctx.hit("tall_heads", h > 10)
        b = make(r, h, r.choice([0, 1, 3, 10]), cols)
        both(ctx, b, h, o)
        if i < 2:
            ctx.sample(rd.describe(b, "both", header=h, **o))
    elif group == "wide":
        # one name dozens of times, with names that look like the suffixed ones among them
        n = r.choice([11, 12, 25, 101, 120]) if i % 15 else r.choice([1003, 1500])
        b = make(r, 1, r.choice([0, 1, 3]), range(n))
        base = r.choice(["a", "Unnamed", "a.1", "x.10", "é"])
        b.sheets[0].rows[0] = {c: wb.C("s", base if r.random() < 0.9 else r.choice([f"{base}.{r.randint(1, n)}", base.upper(), f"{base}.{r.randint(1, 12)}.{r.randint(1, 3)}"]), 0, "shared") for c in range(n) if r.random() < 0.95}
        ctx.hit("wide")
        both(ctx, b, 1, o)
    elif group == "spread":
        # a few names above dozens of columns
        n, h = r.choice([27, 40, 100, 256, 300]), r.choice([2, 3])
        b = make(r, h, r.choice([1, 2]), range(n))
        p = r.choice([0.0, 0.02, 0.1])
        for y in range(h - 1):
            b.sheets[0].rows[y] = {c: wb.C("s", f"g{y}_{c}", 0, "shared") for c in range(n) if not c or r.random() < p}
        ctx.hit("spread")
        both(ctx, b, h, o)
    elif group == "only":
        # sheets with nothing but a header, and headers taller than the sheet
        h = r.choice([1, 1, 2, 3])
        b = make(r, h, 0, cols)
        if r.random() < 0.5:
            b.sheets[0].rows[0] = {c: wb.C("s", r.choice(VOC[:7]), 0, "shared") for c in cols}
        both(ctx, b, h + r.choice([0, 0, 1, 3]), o)
        ctx.hit("header_only")
    elif group == "list":
        b = make(r, 0, r.choice([1, 3, 10]), cols)
        n = len({c for row in b.sheets[0].rows for c in row})
        names = [r.choice(VOC).strip() or f"n{k}" for k in range(n)]
        if r.random() < 0.3:
            m = r.choice([n + 1, max(0, n - 1), n + 3])
            names = [f"c{k}" for k in range(m)]
            ctx.hit("rejected_lists", m != n)
        else:
            names = list(dict.fromkeys(names)) + [f"z{k}" for k in range(n)]
            names = names[:n]
        if names:
            both(ctx, b, names, o)
    else:
        b = make(r, 0, r.choice([0, 1, 4]), cols)
        both(ctx, b, r.choice([0, False]), o)
