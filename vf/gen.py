"""Generators of hostile logical workbooks (every choice from the given rng)."""
from __future__ import annotations

import struct

from .wb import (BUILTIN_GEN, BUILTIN_NUM, BUILTIN_TMP, CUSTOM_GEN, CUSTOM_NUM, CUSTOM_TMP, Book, C, Sheet, Style)

WORDS = ["alpha", "Beta", "дата", "总计", "naïve", "x<y&z", "\"q\"", "it's", "a]]>b", "tab\there", "two\nlines", "cr\rx", "emoji😀𝒳",
         "\ufeffbom", "e\u0301", "שלום", "#REF", "N/A", "#n/a", "=1+1", "_x000D_", "ctl\x01\x1fz", "_x0041_y", "100%", "1 000", "true", "nan", "inf", "-", "null", "None",
         "Unnamed", "Unnamed.1", "&amp;", "&#65;", "<t>x</t>", "０１", "ä" * 40, "Z\u0000".replace("\u0000", ""), "a, b", "0x1F", "\ufffdx", "1e", "#DIV/0", "#VALUE! ", "x #N/A"]


def word(r, strip=True):
    k = r.random()
    if k < 0.04:
        w = chr(r.randint(0x21, 0x7E)) * r.choice([1, 1, 1, 2])
    elif k < 0.55:
        w = r.choice(WORDS)
    elif k < 0.75:
        w = "".join(chr(r.choice([r.randint(0x21, 0x7E), r.randint(0x400, 0x44F), r.randint(0x4E00, 0x4F00), r.randint(0x1F300, 0x1F5FF), r.randint(0xA1, 0x17F)])) for _ in range(r.randint(1, 12)))
    elif k < 0.9:
        w = f"{r.choice('abcdefgh')}{r.randint(0, 30)}"
    elif k < 0.97:
        w = " ".join(r.choice(WORDS) for _ in range(r.randint(2, 5)))
    else:
        base = r.choice(["long ", "Длинный ", "長い", "😀b"])
        w = (base * 9000)[: r.choice([255, 256, 1023, 4096, 8191, 8192, 8193, 16385, 20000])]
    if strip:
        w = w.strip()
    return w or "w"


def pad(r, w):
    return r.choice(["", " ", "\n", "\t "]) + w + r.choice(["", " ", "  ", "\n"])


def split_runs(r, w):
    if len(w) < 2:
        return [w]
    n = r.randint(2, min(4, len(w)))
    cuts = sorted(r.sample(range(1, len(w)), n - 1))
    return [w[a:b] for a, b in zip([0, *cuts], [*cuts, len(w)])]


def int_val(r):
    return float(r.choice([
        r.randint(-9, 9), r.randint(-100000, 100000), r.randint(-(2**29), 2**29 - 1), 2**29, -(2**29) - 1, 2**31, -(2**31) - 1,
        r.randint(10**10, 10**12), r.randint(-(2**53), 2**53), 2**53, 2**62, -(2**63), r.randint(0, 3), 0,
    ]))


def float_val(r):
    k = r.random()
    if k < 0.3:
        return r.randint(-10**7, 10**7) + r.choice([0.25, 0.5, 0.75, 0.125])
    if k < 0.5:
        h = r.choice([r.randint(-(2**29), 2**29 - 1), r.randint(-5000, 5000), r.randint(0, 300)])
        return h / 100
    if k < 0.65:
        return r.choice([0.1, 0.2, 0.3, 1 / 3, -0.07, 12345.678, 1e15 + 0.5, 99.99, 0.05, 2.675, -1.005])
    if k < 0.75:
        (v,) = struct.unpack("<d", struct.pack("<Q", (r.randint(0x3FF, 0x41F) << 52 | r.getrandbits(20) << 32) & ~0x3FFFFFFFF & (2**64 - 1)))
        return v if v != int(v) else v + 0.5
    if k < 0.8:
        return r.choice([1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, 2.0**63, -(2.0**64), 1e20])
    return round(r.uniform(-1e6, 1e6), r.randint(2, 6)) + r.choice([0.0, 0.02])


def serial(r):
    k = r.random()
    if k < 0.3:
        return float(r.randint(1, 2958465))
    if k < 0.6:
        return r.randint(36526, 47000) + r.randint(0, 86399) / 86400
    if k < 0.7:
        return r.randint(0, 86399999) / 86400000
    if k < 0.8:
        return r.randint(20000, 60000) + r.randint(0, 86399999) / 86400000
    if k < 0.9:
        return r.choice([0.0, 0.5, 1.0, 1.25, 59.0, 59.999, 60.0, 60.5, 61.0, 25568.0, 25569.0, 25569.5, 25570.0, 2958465.0, 2958465.999, 0.999988, 1.0 / 86400, 42.000011574])
    return r.uniform(0, 2958465)


def literal(r, v):
    """An XLSX spelling of a double."""
    k = r.random()
    if v == int(v) and abs(v) < 1e15 and 0.3 < k < 0.97:
        s = str(int(v))
    elif k < 0.5:
        s = repr(v)
    elif k < 0.8:
        s = f"{v:.17g}"
    elif k < 0.9:
        s = f"{v:.17G}"
    elif k < 0.97:
        s = f"{v:.16E}"
    else:  # more digits than needed
        s = r.choice([f"{v:.30E}", f"{v:.40e}", f"{v:.60g}", "0" * 30 + f"{v:.17g}" if v >= 0 else f"{v:.25E}", f"{v:.25f}" if abs(v) < 1e15 else repr(v)])
    return s if float(s) == v else repr(v)


def style_table(r, gen=True, n=None):
    """(styles, index lists by class). Style 0 is General unless drawn otherwise."""
    st = [Style(0, None, "gen")]
    fid = r.choice([164, 164, 165, 170, 200, 255, 256, 300, 1000])
    for _ in range(n if n is not None else r.choice([3, 6, 10, 14])):
        k = r.random()
        cls = r.choice(["num", "tmp", "gen"] if gen else ["num", "tmp"])
        if k < 0.45:
            st.append(Style(r.choice({"num": BUILTIN_NUM, "tmp": BUILTIN_TMP, "gen": BUILTIN_GEN}[cls]), None, cls))
        else:
            st.append(Style(fid, r.choice({"num": CUSTOM_NUM, "tmp": CUSTOM_TMP, "gen": CUSTOM_GEN}[cls]), cls))
            fid += r.choice([1, 1, 1, 7])
    st.append(Style(4, None, "num"))
    st.append(Style(14, None, "tmp"))
    tail = st[1:]
    r.shuffle(tail)
    if r.random() < 0.05:  # many styles: multi-byte style indices
        tail = tail + [Style(0, None, "gen")] * 250 + tail + [Style(0, None, "gen")] * 40
        tail = tail[:400]
        if not any(s.cls == "num" for s in tail):
            tail += [Style(4, None, "num")]
        if not any(s.cls == "tmp" for s in tail):
            tail += [Style(14, None, "tmp")]
    st = st[:1] + tail
    if not gen:
        st = st[:1] + [s for s in tail if s.cls != "gen"]
    by = {c: [i for i, s in enumerate(st) if s.cls == c] for c in ("num", "tmp", "gen")}
    return st, by


def fml(r, p=0.15):
    return r.choice(["A1+1", "SUM(A1:A3)", 'IF(A1>2,"a<b","&")', "t & v"]) if r.random() < p else None


def s_cell(r, by, text, pad_ok=False):
    form = r.choice(["shared", "shared", "shared", "str", "inline"])
    style = r.choice(r.choice([by["gen"], by["num"] or [0], by["tmp"] or [0], [0]]))
    if pad_ok and r.random() < 0.3:
        text = pad(r, text)
    rn = split_runs(r, text) if form in ("shared", "inline") and r.random() < 0.2 else None
    f = (fml(r, 1.0) if form == "str" else None)
    return C("s", text, style, form, runs=rn, formula=f)


def n_cell(r, by, cls, v=None, kind=None):
    st = r.choice(by[cls])
    if v is None:
        v = serial(r) if cls == "tmp" else int_val(r) if kind == "int" else float_val(r)
    form = r.choice(["real", "rk", "rk", "fml"])
    return C("n", v, st, form, lit=literal(r, v), formula=fml(r) if form != "fml" else fml(r, 1.0))


def b_cell(r, by):
    return C("b", r.random() < 0.5, r.choice(r.choice([by["gen"], by["num"] or [0], by["tmp"] or [0]])), r.choice(["plain", "fml"]), formula=fml(r))


ERRS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA"]


def e_cell(r, by):
    return C("e", r.choice(ERRS), r.choice(r.choice([by["gen"], by["num"] or [0], by["tmp"] or [0]])), r.choice(["plain", "fml"]), formula=fml(r))


PROFILES = ["int", "float", "num", "date", "text", "bool", "mix", "textnum", "sparse", "runs"]


def data_cell(r, by, prof, gen_ok, pad_ok):
    if prof == "int":
        return n_cell(r, by, "num", kind="int")
    if prof == "float":
        return n_cell(r, by, "num", kind="float")
    if prof == "num":
        return n_cell(r, by, "num", kind=r.choice(["int", "float"]))
    if prof == "date":
        return n_cell(r, by, "tmp")
    if prof == "text":
        return s_cell(r, by, word(r), pad_ok)
    if prof == "bool":
        return b_cell(r, by)
    if prof == "gen":
        return n_cell(r, by, "gen", kind=r.choice(["int", "float"]))
    if prof == "textnum":
        return s_cell(r, by, r.choice(["1", "2.5", "2020-01-01", "-7", "0", "12:30", "1e5", "05.06.2020", "12:30:15", "31/12/1999 23:59", word(r)]), pad_ok)
    return data_cell(r, by, r.choice(["int", "float", "date", "text", "bool"] + (["gen"] if gen_ok else [])), gen_ok, pad_ok)


def grid(r, by, nrows, cols, gen_ok=True, pad_ok=False, hole=None, empty_rows=True):
    """Random rows over the given column indices."""
    prof = {c: r.choice(PROFILES + (["gen"] if gen_ok else [])) for c in cols}
    hole_p = {c: r.choice([0.0, 0.1, 0.4, 0.8]) if hole is None else hole for c in cols}
    rows = []
    run: dict = {}
    for ri in range(nrows):
        row = {}
        kind = r.random() if empty_rows else 1.0
        if kind < 0.08:
            rows.append({})
            continue
        if kind < 0.12:
            rows.append({c: r.choice([C("blank", None, r.choice(by["gen"])), e_cell(r, by)]) for c in cols if r.random() < 0.6})
            continue
        for c in cols:
            if r.random() < hole_p[c]:
                if r.random() < 0.15:
                    row[c] = r.choice([C("blank", None, r.choice(by["gen"])), e_cell(r, by)])
                continue
            if prof[c] == "runs":
                if c not in run or r.random() < 0.25:
                    run[c] = r.choice(["int", "float", "date", "text", "bool"])
                row[c] = data_cell(r, by, run[c], gen_ok, pad_ok)
            elif prof[c] == "sparse" and r.random() < 0.7:
                continue
            else:
                row[c] = data_cell(r, by, prof[c], gen_ok, pad_ok)
        rows.append(row)
    return rows


def col_set(r, n=None):
    n = n or r.choice([1, 1, 2, 3, 4, 5, 6])
    k = r.random()
    if k < 0.5:
        return list(range(n))
    if k < 0.8:
        return sorted(r.sample(range(0, 30), n))
    return sorted(r.sample([0, 1, 24, 25, 26, 27, 51, 52, 255, 256, 675, 676, 701, 702, 703, 1000, 16382, 16383], n))


SHEET_NAMES = ["Sheet1", "Лист1", "A & B", "<x>", 'q"q', "it's", "数据", "x" * 31, "Sheet 2", "тест 😀", "0", "1", "sheet1", " lead", "a;b", "\ufeffz"]


def opts(r):
    o: dict = {}
    for k, p in [("stored", 0.3), ("rev_files", 0.25), ("odd_paths", 0.2), ("same_names", 0.12), ("abs_targets", 0.25), ("pretty", 0.25), ("decor", 0.5), ("ext", 0.5),
                 ("force_runs", 0.15), ("cdata", 0.2), ("selfclose", 0.4), ("explicit_s", 0.3), ("explicit_n", 0.3), ("drop_sst", 0.7), ("drop_styles", 0.7),
                 ("omit_empty", 0.35), ("no_cell_refs", 0.1), ("short_cells", 0.2), ("no_row_refs", 0.1), ("no_xfid", 0.1), ("phonetic_all", 0.1), ("dense_spans", 0.2), ("split_zip", 0.0)]:
        if r.random() < p:
            o[k] = True
    if r.random() < 0.5:
        o["part_order"] = r.randint(1, 10**6)
    if r.random() < 0.3:
        o["rels_shuffle"] = r.randint(1, 10**6)
    if r.random() < 0.08:
        o["dot_targets"] = r.randint(1, 2)
    if r.random() < 0.3:
        o["rid_off"] = r.randint(1, 500)
    if r.random() < 0.12:
        o["moved"] = r.randint(1, 100)
    if r.random() < 0.5:
        o["noise"] = r.randint(1, 10**6)
    if r.random() < 0.45:
        o["spice"] = r.randint(1, 10**6)
    return o


LONG = [65537, 65600, 70000, 131073]


def long_col(r, n, kinds, odd=(), gap=0.3, beyond=False):
    """A column of n cells in very few runs; what is odd stands anywhere, beyond 65536 most of the time.

    kinds, odd: makers of a cell from a row number.
    """
    cut = sorted(r.sample(range(1, n), r.choice([0, 0, 1])) + [n])
    col, at = [], 0
    for stop in cut:
        mk = r.choice(kinds)
        col += [mk(y) for y in range(at, stop)]
        at = stop
    for mk in odd:
        col[r.choice([n - 1, 65536, r.randrange(65536, n)] if beyond else [n - 1, n - 2, 65535, 65536, 65537 % n, r.randrange(65536, n), r.randrange(n)])] = mk(n)
    if r.random() < gap:
        for y in r.sample(range(n), 3):
            col[y] = None
    return col


def long_rows(cols):
    n = max(len(c) for c in cols)
    return [{j: c[y] for j, c in enumerate(cols) if y < len(c) and c[y] is not None} for y in range(n)]


def book(r, *, gen_ok=True, pad_ok=False, nrows=None, cols=None, nsheets=None, options=None, **kw):
    st, by = style_table(r, gen=gen_ok)
    ns = nsheets or r.choice([1, 1, 1, 2, 3])
    names = r.sample(SHEET_NAMES, ns)
    sheets = []
    for nm in names:
        n = nrows if nrows is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
        sheets.append(Sheet(nm, grid(r, by, n, cols or col_set(r), gen_ok, pad_ok, **kw)))
    b = Book(sheets, st, opts(r) if options is None else options)
    texts = [c.val for s in sheets for row in s.rows for c in row.values() if c.kind == "s"]
    if texts and r.random() < 0.3:
        b.phonetic = set(r.sample(texts, min(len(texts), 3)))
    return b


def names_for(r, cols):
    """Column names given by the caller: one for each of `cols`, at times one too many or too few, at times repeated."""
    n = len(cols) + r.choice([0] * 8 + [1, -1])
    names = [f"g{i}" for i in range(max(0, n))]
    if names and r.random() < 0.3:
        names[-1] = names[0]
    return names
