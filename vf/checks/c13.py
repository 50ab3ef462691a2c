"""C13: row filters keep exactly the rows whose filter columns say so."""
from __future__ import annotations

from .. import gen, rd, wb
from ..mon import Violation

ID = "C13"
LEVEL = "exploration"
RULE = ("sheets with random null patterns under known names x name patterns (one, several, prefix traps) x strategies (or, and, "
        "left-to-right operator lists, wrong counts, unknown operators), with windows and headers, both containers; rows carry "
        "their own number so misalignment is visible; non-trivial when some rows are kept and some dropped, distinct by mask and filter")
ASSUMPTIONS = ["a pattern that matches no column name means no filtering (not specified, not generated)"]
NAMES = ["id", "name", "sum", "sum total", "Name", "id2", "date", "сумма", "a.b", "xsum"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("filter", 3000 * k), ("ops", 1500 * k), ("bad", 500 * k), ("tall", 10 * k), ("masks", 16), ("long", 4 * k, 2)]


def required(tier):
    return {"reads_xlsx": 4000, "reads_xlsb": 4000, "kept_and_dropped": 2000, "expected_errors": 500, "by_position": 150, "not_a_number": 500, "long_columns": 3}


def make(r, n, cols, names, p=None, nan=0.0):
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    rows = [{c: wb.C("s", nm, 0, r.choice(["shared", "inline"])) for c, nm in zip(cols, names)}]
    kind = {c: r.choice("snt") for c in cols}
    prob = {c: (r.choice([0.0, 0.2, 0.5, 0.8, 0.95, 1.0]) if p is None else p) for c in cols}
    for y in range(n):
        row = {}
        for c in cols:
            if r.random() < prob[c]:
                if r.random() < 0.3:
                    row[c] = r.choice([wb.C("blank", None, 0), wb.C("e", "#N/A"), wb.C("s", "nul", 0, r.choice(["shared", "inline"]))])
                continue
            row[c] = wb.C("s", f"r{y}c{c}", 0, r.choice(["shared", "inline"])) if kind[c] == "s" else wb.C("n", float("nan"), 1, "real") if kind[c] == "n" and r.random() < nan else wb.C("n", float(y), 1, r.choice(["rk", "real"])) if kind[c] == "n" else wb.C("n", 40000.0 + y, 2, r.choice(["rk", "real"]))
        rows.append(row)
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def both(ctx, b, header, o):
    for cont in ("xlsx", "xlsb"):
        exp, res = rd.against_model(ctx, b, cont, 0, header, **o)
        if exp.kind == "skip":
            return
        if exp.kind == "table" and res is not None:
            base = {k: v for k, v in o.items() if not k.startswith("row_filters")}
            n0 = rd.model.expect(b, cont, 0, header, **base).nrows
            ctx.hit("kept_and_dropped", 0 < exp.nrows < n0)
    ctx.seen_case((repr([sorted(row) for row in b.sheets[0].rows]), repr(header), repr(o)), exp.kind == "table", n=2)


def case(ctx, group, r, i):
    if group == "masks":
        # all null patterns of 2 columns x 4 rows for every simple strategy
        for m in range(256):
            if m % 16 != i:
                continue
            rows = [{0: wb.C("s", "a", 0, "shared"), 1: wb.C("s", "ab", 0, "shared"), 2: wb.C("s", "n", 0, "shared")}]
            for y in range(4):
                row = {2: wb.C("n", float(y), 1, "rk")}
                for c in (0, 1):
                    if m >> (2 * y + c) & 1:
                        row[c] = wb.C("s", f"{y}{c}", 0, "shared")
                rows.append(row)
            b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num")])
            for st in ("or", "and", ["or"], ("and",)):
                both(ctx, b, 1, {"row_filters": "a", "row_filters_strategy": st})
            both(ctx, b, 1, {"row_filters": "ab"})
        return
    if group == "long":
        n = r.choice(gen.LONG)
        rk = lambda y: wb.C("n", float(y), 1, "rk")
        flag = [None if r.random() < 0.5 else wb.C("s", "f", 0, "shared") for _ in range(n)] if r.random() < 0.5 else [None] * n
        for _ in range(3):
            flag[r.choice([n - 1, 65535, 65536, 65537 % n, r.randrange(n)])] = wb.C("n", 0.0, 1, "real")
        rows = gen.long_rows([[wb.C("s", "a", 0, "shared"), *gen.long_col(r, n, [rk])], [wb.C("s", "ab", 0, "shared"), *flag]])
        b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num")], {})
        both(ctx, b, 1, {"row_filters": r.choice(["ab", [1], ["a", "ab"]]), "row_filters_strategy": r.choice(["or", "and"]), "take_rows_non_empty": True})
        ctx.hit("long_columns")
        return
    cols = gen.col_set(r, r.choice([2, 3, 4, 5, 6]))
    names = r.sample(NAMES, len(cols))
    n = r.choice([1, 2, 4, 9, 20]) if group != "tall" else 5000
    header = r.choice([1, 1, 1, list(names), [r.choice(names) for _ in names], 0])
    nan = r.choice([0.0, 0.0, 0.3]) if header else 0.0
    ctx.hit("not_a_number", nan > 0)
    b = make(r, n, cols, names, nan=nan)
    if isinstance(header, list):
        b.sheets[0].rows.pop(0)
    o: dict = {}
    if r.random() < 0.5:
        o["take_rows_non_empty"] = True
    if r.random() < 0.3:
        o["null_values"] = ["nul"]
    if r.random() < 0.2:
        o["take_rows"] = r.randint(1, n + 1)
    if header == 1 and r.random() < 0.2:
        o["skip_rows_after_header"] = 1
    if r.random() < 0.2:
        o["conflict_resolve"] = "all"
    if header == 0:
        o["row_filters"] = r.choice(["Unnamed", ".*", ["Unnamed", "U"], list(range(len(cols)))])
    else:
        pick = r.sample(names, r.randint(1, len(names)))
        o["row_filters"] = r.choice([r.choice(names), [r.choice(names)], pick, pick, "(?i)n", "s", ".", [pick[0], pick[0]], "^" + pick[0] + "$", r.choice(names)[1:] or "x", ["(?i)N", pick[0]], [r"(.)\w*\b(?!\1)", r"(n)ame"], [r"(x)?(?(1)s|i)", r"(s)um\Z", "a|n"], ["(?P<x>s)", "(?P<x>n)"], ["x*", "sum "], ["(?x) i d", "sum total"]])
    k = len(cols)
    at = r.sample(range(k), r.randint(1, k)) + ([k, 99, 16383] if r.random() < 0.2 else [])
    if r.random() < 0.12:  # positions in the table instead of names
        o["row_filters"] = at
        ctx.hit("by_position")
    if group in ("filter", "tall"):
        o["row_filters_strategy"] = r.choice(["or", "and"])
    elif group == "ops":
        o["row_filters"] = pick if header != 0 and (pick := r.sample(names, r.randint(2, len(names)))) else ".*"
        m = len(o["row_filters"]) - 1 if isinstance(o["row_filters"], list) else k - 1
        m = max(0, m + r.choice([0, 0, 0, 0, 1, -1]))
        o["row_filters_strategy"] = r.choice([list, tuple])(r.choice(["or", "and"]) for _ in range(m))
    else:
        o["row_filters"] = ".*"
        o["row_filters_strategy"] = r.choice(["xor", "OR", "", "nand"]) if r.random() < 0.5 else [r.choice(["or", "and", "xor", "AND"]) for _ in range(max(0, k - 1 + r.choice([-1, 0, 1])))]
    both(ctx, b, header, o)
    if i < 2:
        ctx.sample(rd.describe(b, "both", header=header, **o))
