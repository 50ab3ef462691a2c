"""C14: column types follow the values and never change a value."""
from __future__ import annotations

from fractions import Fraction

from .. import gen, rd, wb
from ..mon import Violation

ID = "C14"
LEVEL = "exploration"
RULE = ("columns made of runs of one or several kinds (integers up to the int64 limits and beyond, doubles of any fraction, dates, "
        "texts, booleans) with nulls at every place, precisions 0-12, stored as RK/real/formula/shared/inline, both containers; "
        "non-trivial when the column has at least two runs or an extreme value, distinct by column content")
ASSUMPTIONS = ["values within half a unit of a rounding tie of the precision are not generated (both answers are acceptable there)"]
BIG = [2.0**53, 2.0**53 - 1, -(2.0**53), 2.0**53 + 2, 2.0**62, 2.0**63 - 1024, -(2.0**63), 2.0**63, -(2.0**63) - 2048, 2.0**64, 1e18, 123456789012345678.0, 1e15, 4503599627370497.0, 9007199254740993.0, 1e20, 1e300, -1e300, 999999999999999.0]
FRAC = [0.5, 0.25, -0.125, 0.1, 0.01, 1e-3, 1 / 3, 2.675, 1e-300, 5e-324, 4503599627370496.5, 0.001953125, 123456.789, -99.99, 1e-9 + 5, 1e-12 + 7, 0.99, 1e15 + 0.5]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("col", 4000 * k), ("extreme", 1500 * k), ("prec", 1200 * k), ("mixed", 1500 * k), ("tall", 10 * k), ("late", 60 * k), ("long", 6 * k, 2)]


def required(tier):
    return {"reads_xlsx": 6000, "reads_xlsb": 6000, "type_i": 1500, "type_f": 1500, "type_t": 1500, "type_s": 1500, "cells_compared": 100000, "late": 40, "long_columns": 4}


ST = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp"), wb.Style(22, None, "tmp"), wb.Style(2, None, "num")]


def num(r, v):
    return wb.C("n", v, r.choice([1, 4]), r.choice(["rk", "rk", "real", "fml"]), lit=gen.literal(r, v), formula=gen.fml(r))


def cell(r, kind):
    if kind == "int":
        return num(r, gen.int_val(r))
    if kind == "big":
        return num(r, r.choice(BIG))
    if kind == "frac":
        return num(r, r.choice(FRAC) if r.random() < 0.5 else gen.float_val(r))
    if kind == "date":
        v = gen.serial(r)
        return wb.C("n", v, r.choice([2, 3]), r.choice(["rk", "real", "fml"]), lit=gen.literal(r, v), formula=gen.fml(r))
    if kind == "bool":
        return wb.C("b", r.random() < 0.5, r.choice([0, 1, 2]), r.choice(["plain", "fml"]))
    t = r.choice([gen.word(r), "1", "2.50", "-0", "1e5", "2020-01-01", "12:00", "0001", "1,5", "NaN", "True"])
    return wb.C("s", t, r.choice([0, 1, 2]), r.choice(["shared", "inline", "str"]))


def column(r, n, kinds, p_null):
    out, k = [], r.choice(kinds)
    stick = r.choice([0.0, 0.5, 0.9])
    for _ in range(n):
        if r.random() > stick:
            k = r.choice(kinds)
        out.append(r.choice([None, None, wb.C("blank", None, 1), wb.C("e", "#N/A")]) if r.random() < p_null else cell(r, k))
    return out


def near_tie(v, prec):
    x = Fraction(v) * 10**prec
    d = abs(x - x.__floor__() - Fraction(1, 2))
    return d < Fraction(1, 10**4)


def both(ctx, r, colsets, o, header=0):
    prec = o.get("float_precision", 6)
    colsets = [[None if x is not None and x.kind == "n" and abs(x.val) < 2**63 and near_tie(x.val, prec) else x for x in c] for c in colsets]
    n = max(len(c) for c in colsets)
    rows = [{j: c[y] for j, c in enumerate(colsets) if y < len(c) and c[y] is not None} for y in range(n)]
    b = wb.Book([wb.Sheet("S", rows)], ST, gen.opts(r))
    for cont in ("xlsx", "xlsb"):
        exp, _ = rd.against_model(ctx, b, cont, 0, header, **o)
        if exp.kind == "table":
            for t in exp.types:
                ctx.hit(f"type_{t}")
    for c in colsets:
        ctx.seen_case(repr([(x.kind, x.val) if x else None for x in c]) + repr(o), len(c) > 1, n=2)
    return b


def case(ctx, group, r, i):
    n = r.choice([1, 2, 3, 5, 9, 20]) if group != "tall" else 4000
    p = r.choice([0.0, 0.1, 0.5, 0.9])
    o = {"take_rows_non_empty": True}
    if r.random() < 0.3:
        o["float_precision"] = r.choice([0, 1, 2, 3, 6, 9, 12])
    pure = [["int"], ["frac"], ["int", "bool"], ["bool"], ["date"], ["text"], ["int", "frac"], ["big"], ["big", "int"]]
    mixed = [["int", "text"], ["date", "int"], ["date", "text"], ["frac", "text", "date"], ["bool", "text"], ["bool", "date"], ["int", "frac", "date", "text", "bool"], ["big", "text"]]
    if group == "col":
        sets = [column(r, n, r.choice(pure), p) for _ in range(4)]
    elif group == "extreme":
        sets = [column(r, r.choice([1, 2, 3]), r.choice([["big"], ["big", "frac"], ["big", "int"], ["frac"]]), 0.1) for _ in range(5)]
    elif group == "prec":
        prec = o["float_precision"] = r.choice([0, 1, 2, 3, 4, 6, 8, 10])
        d = 10.0**-prec
        sets = []
        for _ in range(4):
            base = float(r.randint(0, 2000))
            eps = r.choice([0.3 * d, 0.1 * d, 1e-13, 0.7 * d, 2 * d, 0.0, 0.9 * d])
            sg = r.choice([1, -1])
            sets.append([num(r, sg * (base + (eps if k == 0 or r.random() < 0.3 else 0.0))) for k in range(r.choice([1, 3]))])
    elif group == "late":
        # hundreds of stored runs of integers; what decides the type is somewhere among them
        m = r.choice([130, 260, 300, 600, 1100])
        form = lambda k: ("rk", "real", "fml")[k % 3 if k % 2 else 0]
        c = [wb.C("n", float(k), 1, form(k)) if r.random() < 0.9 else None for k in range(m)]
        odd = r.choice([wb.C("n", 0.5, 1, "real"), wb.C("n", 0.25, 1, "rk"), wb.C("n", 2.0**63, 1, "real"), wb.C("s", "x", 0, "shared"), wb.C("n", 40000.0, 2, "rk"), wb.C("b", True, 0), None])
        c[r.choice([0, m // 2, m - 1, m - 2, r.randrange(m)])] = odd
        sets = [c]
        ctx.hit("late")
    elif group == "long":
        form = r.choice(["rk", "real", "fml"])
        whole, day, day_of = (lambda y: wb.C("n", float(y), 1, form)), (lambda y: wb.C("n", 30000.0 + y, 2, form)), (lambda y: wb.C("n", 40000.25, 2, form))
        half, text = (lambda y: wb.C("n", y + 0.5, 1, form)), (lambda y: wb.C("s", f"t{y % 500}", 0, "shared"))
        mk, odd = [(whole, [half]), (whole, [lambda y: wb.C("n", 2.0**63, 1, form)]), (day, [day_of])][i % 6] if i % 6 < 3 else r.choice(
            [(whole, []), (day, []), (half, []), (text, [lambda y: wb.C("s", "x", 0, "inline")]), (whole, [text]), (half, [lambda y: wb.C("b", True, 0)]), (text, [half])])
        sets = [gen.long_col(r, r.choice(gen.LONG), [mk], odd, beyond=True)]
        ctx.hit("long_columns")
    elif group == "mixed":
        sets = [column(r, n, r.choice(mixed), p) for _ in range(4)]
    else:
        sets = [column(r, n, r.choice(pure + mixed), p) for _ in range(3)]
    b = both(ctx, r, sets, o)
    if i < 2:
        ctx.sample(rd.describe(b, "both", **o))
