"""Reference reader: what `read(...)` must return for a logical workbook.

Independent of rxls. Works on logical cells (vf.wb), never on file bytes.
Text renderings of numbers and instants are compared by reading them back.
"""
from __future__ import annotations

import datetime as dt
import math
import re
from functools import lru_cache
from dataclasses import dataclass, field
from fractions import Fraction

import pyarrow as pa

from .wb import Book, C

ERRORS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA",
          "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д"]

DAY = 86_400_000


def serial_ms(v: float) -> Fraction:
    """Exact UNIX milliseconds of an Excel (1900 system) serial."""
    f = Fraction(v)
    if f < 1:
        return f * DAY
    return (f - (25568 if f < 60 else 25569)) * DAY


def is_int_at(v: float, prec: int) -> bool:
    """Integral at the given precision (round(v, prec) has nothing after the point that truncation drops)."""
    if not math.isfinite(v):
        return False
    if v == math.trunc(v):
        return abs(v) < 2**63
    return Fraction(round(Fraction(v) * 10**prec), 10**prec) == math.trunc(v) and abs(v) < 2**63


# default formats a text instant may have (documented: ISO 8601 and common European ones)
_D = ["%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y"]
_T = ["%H:%M:%S", "%H:%M"]


@dataclass
class Expect:
    """kind: 'table' or 'err'"""

    kind: str
    err: tuple = ()
    names: list = field(default_factory=list)
    alt_names: list = field(default_factory=list)
    nrows: int = 0
    types: list = field(default_factory=list)  # 's' | 'i' | 'f' | 't'
    cols: list = field(default_factory=list)  # typed values or None
    note: str = ""


def typed(c: C, styles, container: str):
    """Logical cell -> ('s', text) | ('n', float) | ('t', serial) | None, before null texts."""
    if c is None or c.kind in ("blank", "e"):
        return None
    if c.kind == "b":
        return ("n", float(int(c.val)))
    if c.kind == "s":
        t = c.val.strip() if container == "xlsx" else c.val
        if container == "xlsx" and not t:
            return None
        return ("s", t)
    cls = styles[c.style].cls
    if cls == "tmp":
        return ("t", float(c.val))
    if container == "xlsx" and cls != "num":
        from .wb import num_lit

        return ("s", num_lit(c))
    return ("n", float(c.val))


def make_null(nv):
    if nv is None:
        return lambda s: s in ERRORS
    if callable(nv):
        return lambda s: s in ERRORS or bool(nv(s))
    st = set(ERRORS) | set(nv)
    return lambda s: s in st


def parse_num(t: str):
    """Number denoted by a text (decimal or exponent literal, infinity or NaN) or None."""
    if re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", t, re.ASCII) or re.fullmatch(r"[-+]?(nan|inf|infinity)", t, re.ASCII | re.IGNORECASE):
        return float(t)
    return None


def is_day(v) -> bool:
    """Is a number an instant? (milliseconds in it fit 64 bits)"""
    return abs(v) < 1e11


def parse_dt(t: str, formats):
    return _parse_dt(t, tuple(formats) if formats else None)


@lru_cache(50000)
def _parse_dt(t: str, formats):
    """Instant denoted by a text -> ms, or None. formats: None = defaults."""
    pats = []
    if any(c.isdigit() and not c.isascii() for c in t):
        return None
    if formats:
        pats = list(formats)
    else:
        for d in _D:
            for tf in _T:
                pats += [f"{d} {tf}", f"{d}T{tf}"]
            pats.append(d)
        pats += _T
    for p in pats:
        if "%Y" in p and not re.search(r"(?<!\d)\d{4}(?!\d)", t):
            continue
        try:
            v = dt.datetime.strptime(t, p.replace("%T", "%H:%M:%S").replace("%R", "%H:%M"))
        except ValueError:
            continue
        if not re.search(r"%[yYmdbBDF]", p):
            return (v.hour * 3600 + v.minute * 60 + v.second) * 1000
        return (v - dt.datetime(1970, 1, 1)) // dt.timedelta(milliseconds=1)
    return None


def runs(col):
    """Maximal runs of adjacent cells of one kind -> [(kind, [idx...])]."""
    out = []
    for i, v in enumerate(col):
        k = None if v is None else v[0]
        if out and out[-1][0] == k:
            out[-1][1].append(i)
        else:
            out.append((k, [i]))
    return out


def type_column(col, conflict="no", formats=None, prec=6):
    """-> (type, values); values per cell: None | number | ms Fraction | ('s'|'n'|'t', ...) for text columns."""
    kinds = {v[0] for v in col if v is not None}
    to_dt = conflict in ("temporal", "all")
    to_num = conflict in ("numeric", "all")
    if not kinds or kinds == {"s"}:
        return "s", list(col)
    out: list = [None] * len(col)
    if "t" in kinds:
        if kinds != {"t"} and not to_dt:
            return "s", list(col)
        for k, ix in runs(col):
            if k is None:
                continue
            if k in ("t", "n"):
                if k == "n" and not all(is_day(col[i][1]) for i in ix):
                    return "s", list(col)
                for i in ix:
                    out[i] = serial_ms(col[i][1])
                continue
            d = [parse_dt(col[i][1], formats) for i in ix]
            if all(v is not None for v in d):
                for i, v in zip(ix, d):
                    out[i] = Fraction(v)
                continue
            n = [parse_num(col[i][1]) for i in ix] if to_num else [None]
            if any(v is None or not is_day(v) for v in n):
                return "s", list(col)
            for i, v in zip(ix, n):
                out[i] = serial_ms(v)
        return "t", out
    # numbers, maybe texts
    for i, v in enumerate(col):
        if v is None:
            continue
        if v[0] == "n":
            out[i] = v[1]
        else:
            if not to_num or (p := parse_num(v[1])) is None:
                return "s", list(col)
            out[i] = p
    if all(v is None or is_int_at(v, prec) for v in out):
        return "i", [None if v is None else math.trunc(v) for v in out]
    return "f", out


def num_text(v: float) -> str:
    return pa.array([v], pa.float64()).cast(pa.large_string())[0].as_py()


def _ts_text(ms) -> str:
    return pa.array([round(ms)], pa.timestamp("ms")).cast(pa.large_string())[0].as_py()


def window_text(cells, conf, plain):
    """Texts (None when empty) of one column's header cells, rendered as the column's type over them."""
    t, vals = type_column(cells, *conf)
    out = []
    for v in vals:
        if v is None:
            out.append(None)
        elif t == "i":
            out.append(num_text(float(v)) if plain else str(v))
        elif t == "f":
            out.append(num_text(v))
        elif t == "t":
            out.append(_ts_text(v))
        elif v[0] == "s":
            out.append(v[1])
        elif v[0] == "n":
            out.append(num_text(v[1]))
        else:
            out.append(_ts_text(serial_ms(v[1])))
    return out


_TS = re.compile(r"\d{4,}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}")


def same_name(a, b) -> bool:
    """Equal up to the last millisecond of instants spelled in them."""
    if a == b:
        return True
    x, y = _TS.findall(a), _TS.findall(b)
    if not x or len(x) != len(y) or _TS.sub("@", a) != _TS.sub("@", b):
        return False
    ms = [[pa.scalar(t).cast(pa.timestamp("ms")).value for t in q] for q in (x, y)]
    return all(abs(p - q) <= 1 for p, q in zip(*ms))


def dedupe(names):
    out = []
    for n in names:
        m, i = n, 1
        while m in out:
            m = f"{n}.{i}"
            i += 1
        out.append(m)
    return out


def header_names(cols, first, h, conf=("no", None, 6), plain=False):
    texts = [window_text([(c[first + i] if first + i < len(c) else None) for i in range(h)], conf, plain) for c in cols]
    if h == 1:
        return dedupe([t[0] or "Unnamed" for t in texts])
    prev: dict = {}
    res = []
    for t in texts:
        parts = dict(enumerate(t))
        top = next((i for i in range(h) if parts[i] is not None), -1)
        if top < 0:
            res.append("Unnamed")
            continue
        for i in range(top):
            if prev:
                parts[i] = prev[i]
        prev = parts
        res.append(", ".join(p for i in range(h) if (p := parts[i])) or "Unnamed")
    return dedupe(res)


def pick_sheet(book: Book, sheet):
    ws = [s for s in book.sheets if s.kind == "worksheet"]
    if isinstance(sheet, int):
        return ws[sheet] if 0 <= sheet < len(ws) else IndexError
    for s in ws:
        if s.name == sheet:
            return s
    return KeyError


def window(book: Book, sheet, container, o):
    """Grid (list of dict col -> typed) after null texts and the row/column window."""
    null = make_null(o.get("null_values"))
    skip_cols = set(o.get("skip_cols") or ())
    grid = []
    for row in sheet.rows:
        d = {}
        for ci, c in row.items():
            if ci in skip_cols:
                continue
            v = typed(c, book.styles, container)
            if v is None or (v[0] == "s" and null(v[1])):
                continue
            d[ci] = v
        grid.append(d)
    grid = grid[o.get("skip_rows", 0):]
    if not o.get("take_rows_non_empty", False):
        grid = [d for d in grid if d]
    if o.get("take_rows", 0):
        grid = grid[: o["take_rows"] + 1]
    while grid and not grid[-1]:
        grid.pop()
    return grid


def expect(book: Book, container: str, sheet_sel=0, header=0, **o) -> Expect:
    sheet = pick_sheet(book, sheet_sel)
    if sheet in (IndexError, KeyError):
        return Expect("err", (sheet,))
    grid = window(book, sheet, container, o)
    keys = sorted({k for d in grid for k in d})
    total = len(grid)
    cols = [[d.get(k) for d in grid] for k in keys]
    conflict, formats, prec = o.get("conflict_resolve", "no"), o.get("datetime_formats"), o.get("float_precision", 6)
    if isinstance(formats, str):
        formats = (formats,)

    first = 0
    lk = o.get("lookup_head")
    if lk is not None:
        size = o.get("lookup_size", 30)
        first = None
        if isinstance(lk, int):
            if lk in keys:
                c = cols[keys.index(lk)][:size]
                first = next((i for i, v in enumerate(c) if v is not None), None)
        else:
            hits = []
            for c in cols:
                i = next((i for i, v in enumerate(c[:size]) if v is not None and v[0] == "s" and re.search(lk, v[1])), None)
                if i is not None:
                    hits.append(i)
            if len(hits) > 1:
                return Expect("skip", note="pattern matches several columns")
            first = hits[0] if hits else None
        if first is None:
            return Expect("err", (Exception,))

    h = 0
    alt = []
    if isinstance(header, list):
        if len(header) != len(keys):
            return Expect("err", (ValueError,))
        names = list(header)
    elif header:
        h = int(header)
        conf = (conflict, formats, prec)
        names = header_names(cols, first, h, conf)
        # an integer may equally be spelled as the double it is
        alt = header_names(cols, first, h, conf, plain=True)
    else:
        names = [("Unnamed", i) for i in range(len(keys))]

    g = first + h + o.get("skip_rows_after_header", 0)
    data = [c[g:] for c in cols]
    n = max(0, total - g)

    rf = o.get("row_filters")
    if rf:
        pn = [f"Unnamed. {x[1]}" if isinstance(x, tuple) else x for x in names]
        if isinstance(rf, str):
            sel = [i for i, nm in enumerate(pn) if re.match(rf, nm)]
        elif all(isinstance(x, int) for x in rf):
            sel = [i for i in range(len(keys)) if i in rf]
        else:
            sel = [i for i, nm in enumerate(pn) if any(re.match(x, nm) for x in rf)]
        if not sel:
            return Expect("skip", note="no filter column")
        st = o.get("row_filters_strategy", "or")
        masks = []
        for i in sel:  # NaN is null for filters, where it is a number
            t, v = type_column(data[i], conflict, formats, prec)
            masks.append([x is not None and not (t == "f" and x != x) for x in v])
        if len(masks) == 1:
            keep = masks[0]
        elif isinstance(st, str):
            if st not in ("or", "and"):
                return Expect("err", (ValueError, TypeError))
            keep = [(any if st == "or" else all)(t) for t in zip(*masks)]
        else:
            if len(st) != len(masks) - 1 or any(x not in ("or", "and") for x in st):
                return Expect("err", (ValueError, TypeError))
            keep = masks[0]
            for op, m in zip(st, masks[1:]):
                keep = [(a and b) if op == "and" else (a or b) for a, b in zip(keep, m)]
        if not any(keep):
            return Expect("err", (ValueError,))
        data = [[v for v, k in zip(c, keep) if k] for c in data]
        n = sum(keep)

    types, vals = [], []
    for c in data:
        t, v = type_column(c, conflict, formats, prec)
        types.append(t)
        vals.append(v)
    return Expect("table", names=names, alt_names=alt, nrows=n, types=types, cols=vals)


PA_TYPES = {"s": pa.large_string(), "i": pa.int64(), "f": pa.float64(), "t": pa.timestamp("ms")}
MS_EPS = Fraction(1, 2) + Fraction(1, 20)


def text_denotes(txt, v) -> bool:
    """Does a text (non-null) of a text column denote the typed value v?"""
    if v[0] == "s":
        return txt == v[1]
    if v[0] == "n":
        try:
            return float(txt) == v[1] or (v[1] != v[1] and txt.lower() == "nan")
        except ValueError:
            return False
    try:
        if len(txt) < 10:
            return False
        ms = pa.scalar(txt).cast(pa.timestamp("ms")).value
    except Exception:
        return False
    return abs(Fraction(ms) - serial_ms(v[1])) <= MS_EPS


def diff(exp: Expect, tab, typing: bool = True) -> str | None:
    """None when the pa.Table is what the reference reader says, else a description."""
    names = tab.column_names
    if len(names) != len(exp.names):
        return f"columns: got {names!r}, expected {len(exp.names)} columns {exp.names!r}"
    for i, (a, b) in enumerate(zip(names, exp.names)):
        if isinstance(b, tuple):
            if a not in (f"Unnamed. {b[1]}", f"Unnamed: {b[1]}"):
                return f"name of column {i}: got {a!r}, expected a numbered placeholder {b[1]}"
        elif a != b and not (exp.alt_names and (same_name(a, b) or same_name(a, exp.alt_names[i]))):
            return f"name of column {i}: got {a!r}, expected {b!r} (all: {names!r})"
    if exp.names and tab.num_rows != exp.nrows:
        return f"rows: got {tab.num_rows}, expected {exp.nrows}"
    for i, (t, want) in enumerate(zip(exp.types, exp.cols)):
        col = tab.column(i)
        if typing and col.type != PA_TYPES[t]:
            return f"type of column {i} ({names[i]!r}): got {col.type}, expected {PA_TYPES[t]}"
        got = col.cast(pa.int64()).to_pylist() if pa.types.is_timestamp(col.type) else col.to_pylist()
        if len(got) != len(want):
            return f"column {i}: {len(got)} rows, expected {len(want)}"
        for r, (g, w) in enumerate(zip(got, want)):
            if (g is None) != (w is None):
                return f"row {r} column {i} ({names[i]!r}): got {g!r}, expected {w!r}"
            if w is None:
                continue
            if t == "t":
                ok = abs(Fraction(g) - w) <= MS_EPS
            elif t in ("i", "f"):
                ok = g == w or (g != g and w != w)
            else:
                ok = text_denotes(g, w)
            if not ok:
                return f"row {r} column {i} ({names[i]!r}): got {g!r}, expected {w!r}"
    return None
