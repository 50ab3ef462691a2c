"""C15: conflict resolution converts a mixed column entirely, or leaves it text."""
from __future__ import annotations

import datetime as dt

from .. import gen, rd, wb
from ..model import parse_num

ID = "C15"
LEVEL = "exploration"
RULE = ("columns mixing dates, numbers, numeric texts, date texts (default and custom formats, 1900-9999, midnight, 1970-01-01, bare "
        "times) and unconvertible texts in every proportion, order, run length and storage, x no/temporal/numeric/all, both "
        "containers; non-trivial when the column has two kinds, distinct by column content and options")
ASSUMPTIONS = ["numeric texts are decimal or exponent literals, infinities or NaN", "numbers that are read as serials are within Excel's 1900-9999 range, small negatives, or no instants at all (1e11 days and more, NaN)", "a run of adjacent texts is all dates or all numbers (mixed runs are not specified)",
               "date texts are years 1900-9999 in documented default formats or the formats given"]

DEF = ["%Y-%m-%d", "%d/%m/%Y", "%d.%m.%Y", "%d-%m-%Y", "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%d.%m.%Y %H:%M", "%d/%m/%YT%H:%M", "%d-%m-%Y %H:%M:%S", "%d.%m.%y", "%d/%m/%y %H:%M", "%H:%M:%S", "%H:%M"]
CUSTOM = ["%Y/%m/%d", "%Y%m%d", "%m.%Y.%d", "%Y-%m-%d", "%d %m %Y %H-%M", "%H-%M", "%d.%m.%Y %H:%M:%S", "Y%Y"]
ST = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp"), wb.Style(22, None, "tmp"), wb.Style(2, None, "num")]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("mix", 3000 * k), ("almost", 2000 * k), ("edges", 1500 * k), ("filters", 800 * k), ("tall", 8 * k), ("runs", 24 * k), ("long", 8 * k, 2)]


def required(tier):
    return {"reads_xlsx": 6000, "reads_xlsb": 6000, "converted_t": 2000, "converted_n": 1000, "left_text": 3000, "rival_formats": 400, "long_columns": 6}


def when(r):
    k = r.random()
    if k < 0.2:
        return r.choice([dt.datetime(1970, 1, 1), dt.datetime(1970, 1, 1, 0, 0, 1), dt.datetime(1969, 12, 31, 23, 59, 59), dt.datetime(1900, 1, 1), dt.datetime(1900, 3, 1), dt.datetime(9999, 12, 31, 23, 59, 59), dt.datetime(2000, 2, 29), dt.datetime(1970, 1, 2), dt.datetime(1999, 12, 31)])
    return dt.datetime(r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, r.randint(0, 23)]), r.choice([0, r.randint(0, 59)]), r.choice([0, r.randint(0, 59)]))


SEPS = ["/", ".", "-", " ", "|", ",", ";", ", ", "; ", " | ", "\u2026", " \u0439 ", "%%", "\\", "&", "=", "'", '"', "(", "$", "^", "*", "?", "[", "]", "{", "}", "<", ">", "#", "@", "~", "T", " of "]


def own_format(r):
    """A date format nobody has thought of."""
    d = r.sample(["%Y", r.choice(["%m", "%m", "%m", "%b", "%B"]), "%d"], 3)
    f = d[0] + r.choice(SEPS) + d[1] + r.choice(SEPS) + d[2]
    if r.random() < 0.4:
        s = r.choice(["-", ".", ":", "|", " ", ";"])
        f += r.choice([" ", "T", " at ", "|", ", ", " - "]) + s.join(["%H", "%M", "%S"][: r.choice([2, 3])])
    return f


def rivals(r):
    """Two formats, both of which fit most texts of either: the first of them counts."""
    a = r.choice([("%d", "%m", "%Y"), ("%Y", "%m", "%d"), ("%H", "%M"), ("%d", "%m", "%Y %H:%M")])
    s = r.choice(["/", ".", "-"] if len(a) > 2 else [":", "/"])  # no texts that are numbers as well
    b = (a[1], a[0], *a[2:]) if a[0] == "%d" else ("%Y", "%d", "%m") if len(a) > 2 else ("%M", "%S")
    x = [s.join(a), s.join(b)]
    r.shuffle(x)
    return tuple(x)


def date_text(r, formats):
    f = r.choice(list(formats) if formats else DEF)
    w = when(r)
    if "%y" in f:
        w = w.replace(year=r.randint(1970, 2068), day=min(w.day, 28))
    return w.strftime(f).replace(w.strftime("%Y") if w.year < 1000 else "\0", "")


ODD_NUM = ["nan", "NaN", "-nan", "inf", "-inf", "Infinity", "+INF", "1e300", "-1e12", "100000000000", "1e400", "1.", ".5", "+1", "+2.5e1", "-.5E2", "007", "1E+05"]


def num_text(r):
    if r.random() < 0.04:
        return r.choice(ODD_NUM)
    return r.choice([str(r.randint(-1000, 60000)), str(r.randint(0, 60000)), f"{r.randint(0, 50000)}.{r.randint(1, 99):02d}", "0", "1", "60", "-0.5", "1e3", "2.5E+2", "44000", "0.1", "2958465"])


def word(r):
    w = gen.word(r)
    return "w" if w.strip("+-").lower() in ("inf", "infinity", "nan") or parse_num(w) is not None else w


def bad_text(r):
    return r.choice([word(r), "n/d", "2020-13-01", "12:99", "32.01.2020", "1..2", "--", "12 345", "abc1", "2020-01-01 z", "z2020-01-01", "1,5", "0x10", "٣"])


def T(r, v, form=None):
    return wb.C("s", v, r.choice([0, 0, 1, 2]), form or r.choice(["shared", "shared", "inline", "str"]))


def D(r, v=None):
    if v is None:
        v = gen.serial(r)
    return wb.C("n", v, r.choice([2, 3]), r.choice(["rk", "real", "fml"]), lit=gen.literal(r, v), formula=gen.fml(r))


def N(r, v=None):
    if v is None:
        v = r.choice([1e11, -1e11, 1e12, 1e300, -1e15, 2.0**62]) if r.random() < 0.01 else r.choice([float(r.randint(0, 60000)), r.randint(0, 60000) + 0.5, 0.25, 1.0, 60.0, 25569.0])
    return wb.C("n", v, r.choice([1, 4]), r.choice(["rk", "real", "fml"]), lit=gen.literal(r, v), formula=gen.fml(r))


def column(r, n, parts, formats, p_null=0.15):
    """Runs of kinds; adjacent text runs keep one kind of text (separated by a null or a number)."""
    out = []
    last_text = None
    while len(out) < n:
        k = r.choice(parts)
        if k in ("dtext", "ntext", "bad"):
            if last_text not in (None, k) and "bad" not in (last_text, k):
                out.append(None)
        k_run = r.choice([1, 1, 2, 4, r.randint(9, 40)])
        form = r.choice(["shared", "inline", "str"]) if k_run > 1 and r.random() < 0.6 else None  # one storage: one stored run
        gap = p_null if k_run < 9 else p_null / 8
        for _ in range(k_run):
            if r.random() < gap:
                out.append(r.choice([None, wb.C("blank", None, 1), wb.C("e", "#N/A")]))
            out.append(D(r) if k == "date" else N(r) if k == "num" else wb.C("b", r.random() < 0.5, 0) if k == "bool"
                       else T(r, date_text(r, formats), form) if k == "dtext" else T(r, num_text(r), form) if k == "ntext" else T(r, bad_text(r), form))
        last_text = k if k in ("dtext", "ntext", "bad") else None
    # the cut may split a run, never join two kinds
    return out[:max(n, 1)]


def both(ctx, r, cols, o, header=0):
    n = max(len(c) for c in cols)
    rows = [{j: c[y] for j, c in enumerate(cols) if y < len(c) and c[y] is not None} for y in range(n)]
    b = wb.Book([wb.Sheet("S", rows)], ST, gen.opts(r))
    for cont in ("xlsx", "xlsb"):
        exp, _ = rd.against_model(ctx, b, cont, 0, header, **o)
        if exp.kind != "table":
            continue
        for c, t in zip(cols, exp.types):
            kinds = {("s" if x.kind == "s" else "b" if x.kind == "b" else ST[x.style].cls) for x in c if x is not None and x.kind in "snb"}
            if len(kinds) > 1:
                ctx.hit("converted_t" if t == "t" else "left_text" if t == "s" else "converted_n")
    for c in cols:
        ctx.seen_case(repr([(x.kind, x.val, x.form) if x else None for x in c]) + repr(o), len({x.kind for x in c if x}) > 1, n=2)
    return b


MIXES = [["date", "dtext"], ["date", "num"], ["date", "ntext"], ["num", "ntext"], ["num", "bool", "ntext"], ["date", "dtext", "num"], ["date", "num", "ntext"],
         ["date", "dtext", "ntext", "num"], ["num", "dtext"], ["date", "bool"], ["ntext"], ["dtext"], ["num"], ["date"]]


def case(ctx, group, r, i):
    conf = r.choice(["no", "temporal", "numeric", "all", "all", "temporal"])
    o: dict = {"conflict_resolve": conf, "take_rows_non_empty": True}
    formats = None
    if r.random() < 0.3:
        formats = tuple(own_format(r) if r.random() < 0.5 else f for f in r.sample(CUSTOM, r.choice([1, 1, 2])))
        o["datetime_formats"] = formats if len(formats) > 1 or r.random() < 0.5 else formats[0]
        if any(f in ("%Y%m%d",) for f in formats):  # a numeric text could be a date as well
            formats = tuple(f for f in formats if f != "%Y%m%d") or ("%Y/%m/%d",)
            o["datetime_formats"] = formats
        if r.random() < 0.3:
            o["datetime_formats"] = formats = rivals(r)
            ctx.hit("rival_formats")
    n = r.choice([1, 2, 3, 5, 8, 15]) if r.random() < 0.9 else 40
    if group == "mix":
        cols = [column(r, n, r.choice(MIXES), formats) for _ in range(4)]
    elif group == "almost":
        # convertible but for one text, at any place
        cols = []
        for _ in range(4):
            c = column(r, n, r.choice(MIXES[:9]), formats)
            c.insert(r.randint(0, len(c)), T(r, bad_text(r)))
            cols.append(c)
    elif group == "edges":
        w = [dt.datetime(1970, 1, 1), dt.datetime(1970, 1, 2), dt.datetime(1969, 12, 31), dt.datetime(1900, 1, 1), dt.datetime(2000, 1, 1), dt.datetime(1899, 12, 31) + dt.timedelta(days=1)]
        f = r.choice(DEF[:8])
        cols = []
        for x in r.sample(w, 3):
            c = [D(r)] if r.random() < 0.8 else [D(r), N(r)]
            c.insert(r.randint(0, len(c)), T(r, x.strftime(f)))
            cols.append(c)
        cols.append([T(r, r.choice(["00:00", "00:00:00", "0:00" if False else "23:59:59", "12:30"])), D(r, 0.5)])
        o.pop("datetime_formats", None)
    elif group in ("runs", "long"):
        if group == "long":
            conf = o["conflict_resolve"] = r.choice(["temporal", "all", "numeric"])
            ctx.hit("long_columns")
        # one long run of texts, the odd ones (another format, or not convertible) anywhere in it
        m = r.choice([500, 1025, 2000, 5000]) if group == "runs" else r.choice(gen.LONG)
        form = r.choice(["shared", "inline", "str"])
        few = [date_text(r, formats) for _ in range(5)] if conf in ("temporal", "all") else [num_text(r) for _ in range(5)]
        c = [T(r, r.choice(few[:1] if r.random() < 0.9 else few), form) for _ in range(m)]
        for _ in range(r.choice([1, 2])):
            c[r.choice([0, 1, m // 2, m - 1, m - 1, r.randrange(m)])] = T(r, date_text(r, formats) if conf in ("temporal", "all") else num_text(r), form)
        if r.random() < 0.3:
            c[r.choice([0, m // 2, m - 1, r.randrange(m)])] = T(r, bad_text(r), form)
        cols = [[*c, D(r) if conf in ("temporal", "all") else N(r)]]
        cols[0].insert(0, cols[0].pop()) if r.random() < 0.5 else None
    elif group == "filters":
        # dropped rows may join text runs, so that a column holds one kind of convertible texts here
        cols = [column(r, n, r.choice([m for m in MIXES if not {"dtext", "ntext"} <= set(m)]), formats) for _ in range(3)]
        cols = [[wb.C("s", f"h{j}", 0, "shared"), *c] for j, c in enumerate(cols)]
        if r.random() < 0.5:
            o["row_filters"] = r.choice(["h0", ["h0", "h1"], "h"])
            o["row_filters_strategy"] = r.choice(["or", "and"])
        if r.random() < 0.3:
            o["skip_rows_after_header"] = 1
        both(ctx, r, cols, o, header=1)
        return
    else:
        cols = [column(r, 3000, r.choice(MIXES), formats, 0.02) for _ in range(2)]
    b = both(ctx, r, cols, o)
    if i < 2:
        ctx.sample(rd.describe(b, "both", **o))
