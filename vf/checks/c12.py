"""C12: header lookup starts the table at the matching row, or fails loudly."""
from __future__ import annotations

import copy
import re

from .. import gen, rd, wb
from ..mon import Violation
from .c08 import compare

ID = "C12"
LEVEL = "exploration"
RULE = ("sheets with a marker text planted at a known row of one column under junk above it (texts, numbers, dates, empties, null "
        "texts), patterns of several regex forms, column numbers, lookup windows around the marker row, headers 0-3, both containers; "
        "judged by the reference reader and by re-reading the same sheet without the rows above (metamorphic); non-trivial when rows "
        "lie above the match or the window excludes it, distinct by sheet, pattern and window")
ASSUMPTIONS = ["patterns are within the common subset of Python and RE2 regular expressions", "only one column matches, as the property says"]
MARK = ["Head#", "Итого по", "ID [x]", "a+b", "code", "Sum($)"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("pattern", 1800 * k), ("column", 900 * k), ("missing", 500 * k), ("deep", 8 * k)]


def required(tier):
    return {"reads_xlsx": 2500, "reads_xlsb": 2500, "found": 2000, "not_found": 500, "metamorphic": 1000, "given_heads": 250}


def junk(r, c):
    k = r.random()
    if k < 0.4:
        return None
    if k < 0.65:
        return wb.C("s", r.choice(["junk", "x", "report", "HEAD", "итог", "zz 1"]), 0, r.choice(["shared", "inline", "str"]))
    if k < 0.8:
        return wb.C("n", float(r.randint(0, 99)), 1, r.choice(["rk", "real"]))
    if k < 0.9:
        return wb.C("n", float(r.randint(40000, 41000)), 2, "real")
    return r.choice([wb.C("blank", None, 0), wb.C("e", "#N/A"), wb.C("b", True, 0)])


def near(r, mark):
    """A text that is almost the mark: other letter case, or an end cut off."""
    return r.choice([mark.swapcase(), mark.upper(), mark.lower(), mark.title(), mark[:-1], mark[1:], mark.replace(" ", ""), mark.replace(" ", "  ")]).strip() or "q"


def make(r, at, col, cols, mark, ndata, h, almost=None):
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    rows = []
    for _ in range(at):
        row = {c: x for c in cols if (x := junk(r, c)) is not None}
        if almost and r.random() < 0.4:
            row[r.choice(cols)] = wb.C("s", near(r, almost), 0, r.choice(["shared", "inline", "str"]))
        rows.append(row)
    row = {c: wb.C("s", f"n{c}", 0, "shared") for c in cols if r.random() < 0.8}
    if mark is not None:
        row[col] = wb.C("s", mark, 0, r.choice(["shared", "inline", "str"]))
    rows.append(row)
    for y in range(ndata + max(0, h - 1)):
        rows.append({c: r.choice([wb.C("s", f"v{y}", 0, "shared"), wb.C("n", float(y), 1, "rk"), wb.C("n", 40000.0 + y, 2, "real")]) for c in cols if r.random() < 0.85})
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def pattern(r, mark):
    """(regex that matches the mark text, mark text in the cell)"""
    e = re.escape(mark)
    return r.choice([
        (e, mark), (e, "pre " + mark + " post"), ("^" + e + "$", mark), ("^" + e, mark + " tail"), (e + "$", "lead " + mark), ("(?i)" + e, mark.swapcase()),
        (e[: max(2, len(e) - 2)] if not e[-2:-1] == "\\" and "\\" not in e else e, mark), (f"(?:{e}|Nothing)", mark), (f"{e}.*", mark + "\n2"), (f".{{0,3}}{e}", mark),
    ])


def both(ctx, b, header, o, at=None):
    if at and isinstance(o.get("lookup_head"), str):  # a text above may match as well: the first one counts
        at = next((y for y, row in enumerate(b.sheets[0].rows) if any(c.kind == "s" and re.search(o["lookup_head"], c.val) for c in row.values())), at)
    for cont in ("xlsx", "xlsb"):
        exp, res = rd.against_model(ctx, b, cont, 0, header, **o)
        if exp.kind == "skip":
            return
        ctx.hit("found" if exp.kind == "table" else "not_found")
        if exp.kind == "table" and at and o.get("take_rows_non_empty"):
            # the same sheet without the rows above, where every column still exists
            b2 = copy.deepcopy(b)
            b2.sheets[0].rows = b2.sheets[0].rows[at:]
            have = {c for row in b2.sheets[0].rows for c, x in row.items() if x.kind not in ("blank", "e")}
            if have == {c for row in b.sheets[0].rows for c, x in row.items() if x.kind not in ("blank", "e")}:
                o2 = {k: v for k, v in o.items() if not k.startswith("lookup")}
                st, t2 = rd.attempt(wb.write(b2, cont), 0, header, **o2)
                if st == "err":
                    raise Violation(f"{cont}: the sheet without the rows above the match cannot be read: {t2!r}")
                d = compare(res, t2)
                if d:
                    raise Violation(f"{cont}: lookup result differs from the sheet without the rows above: {d}", case=rd.describe(b, cont, header=header, **o))
                ctx.hit("metamorphic")
    ctx.hit("given_heads", isinstance(header, list))
    ctx.seen_case((repr(b.sheets[0].rows), repr(header), repr(o)), bool(at), n=2)


def case(ctx, group, r, i):
    cols = gen.col_set(r)
    col = r.choice(cols)
    h = r.choice([0, 1, 1, 1, 2, 3])
    if group != "deep" and r.random() < 0.15:  # names given by the caller
        h = gen.names_for(r, cols)
    o: dict = {"take_rows_non_empty": r.random() < 0.7}
    if r.random() < 0.2:
        o["conflict_resolve"] = r.choice(["all", "temporal", "numeric"])
    if r.random() < 0.2:
        o["skip_rows_after_header"] = 1
    if group == "deep":
        at = r.choice([29, 30, 31, 100, 1000, 66000])
        o["take_rows_non_empty"] = True
        pat, txt = pattern(r, r.choice(MARK))
        b = make(r, at, col, cols, txt, 3, h)
        if r.random() < 0.7:
            o["lookup_size"] = r.choice([at, at + 1, at + 2, at * 2 + 2])
        both(ctx, b, h, {**o, "lookup_head": pat}, at)
        return
    at = r.choice([0, 1, 2, 3, 5, 10, 28, 29, 30])
    if r.random() < 0.4:
        o["lookup_size"] = max(1, r.choice([at - 1, at, at + 1, at + 2, 5, 50]))
    if group == "pattern":
        mark = r.choice(MARK)
        pat, txt = pattern(r, mark)
        b = make(r, at, col, cols, txt, r.choice([0, 1, 4]), h if isinstance(h, int) else 0, r.choice([None, mark, txt]))
        if r.random() < 0.3 and at < len(b.sheets[0].rows) - 1:
            # a second match further down the same column: the first one counts
            b.sheets[0].rows[-1][col] = wb.C("s", txt, 0, "shared")
        both(ctx, b, h, {**o, "lookup_head": pat}, at)
        if i < 2:
            ctx.sample(rd.describe(b, "both", header=h, lookup_head=pat, **o))
    elif group == "column":
        b = make(r, at, col, cols, r.choice([None, "Head"]), r.choice([1, 4]), h if isinstance(h, int) else 0)
        for row in b.sheets[0].rows[: r.choice([0, at])]:
            row.pop(col, None)
        c = r.choice([col, col, r.choice(cols)])
        both(ctx, b, h, {**o, "lookup_head": c})
    else:
        b = make(r, at, col, cols, None, 3, h if isinstance(h, int) else 0)
        both(ctx, b, h, {**o, "lookup_head": r.choice(["absent text", "^$", "Head#$", "^unk$", "v0x"])}, at)
