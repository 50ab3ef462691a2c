"""C23: slicing and filtering the column store is list slicing, and never disturbs it.

A column is grown cell by cell, either with cells made here or with the cells
the real readers yield, while a plain list is grown beside it. Extractions of
every kind are interleaved with the growth, and each is compared with the slice
of the list; every array ever returned is kept and looked at again at the end.
"""
from __future__ import annotations

import struct

import pyarrow as pa

from .. import gen, model, rd, wb
from ..mon import Violation
from .c15 import bad_text, date_text, num_text, word

ID = "C23"
LEVEL = "exploration"
RULE = ("histories of up to 60 steps (add a cell of any kind and storage with or without a gap, measure, extract by offset/length or "
        "offset/mask, typed or as text, on every conflict strategy) on one column of either container, cells made directly or taken from "
        "the real readers; and index/slice/mask programs over single runs of every kind; non-trivial when an extraction saw a cell, "
        "distinct by history")
ASSUMPTIONS = ["cells arrive in row order", "masks have no nulls", "a column holds one kind of convertible text"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("history", 2500 * k), ("fed", 250 * k), ("runs", 2500 * k), ("lists", 1200 * k), ("tall", 6 * k), ("far", 16 * k)]


def required(tier):
    return {"adds": 30000, "extractions": 25000, "masked": 5000, "as_text": 8000, "padded": 2500, "after_pull": 8000, "runs_taken": 10000, "kept_arrays": 25000, "lists_joined": 1000, "far_gaps": 40}


DAY_OK = [1.0, 1.5, 59.0, 60.0, 61.0, 25569.0, 44000.25, 0.5, 0.0, 2958465.0, 36526.0]


class Feed:
    """Makes cells of one container together with the value they stand for."""

    def __init__(self, r, binary, texts):
        from rxls import constants as k

        self.r, self.binary, self.k, self.texts = r, binary, k, texts
        self.table: list = [None if r.random() < 0.05 else r.choice(texts) for _ in range(r.choice([1, 5, 40]))]
        if not any(self.table):
            self.table[0] = texts[0]
        self.ok = [i for i, t in enumerate(self.table) if t is not None]
        self.shared = pa.array(self.table, pa.large_string())

    def make(self, kind):
        """(xdt, val, typed value)"""
        r, k, b = self.r, self.k, self.binary
        if kind == "sst":
            i = r.choice(self.ok)
            return k.TYPE_STRING | k.REPR_SHARED, (struct.pack("<I", i) if b else str(i)), ("s", self.table[i])
        if kind == "txt":
            t = r.choice(self.texts)
            return k.TYPE_STRING | k.REPR_PREPARED, t, ("s", t)
        if kind == "bool":
            v = r.random() < 0.5
            return (k.TYPE_NUMERIC | k.REPR_BOOLEAN, bytes([v]), ("n", float(v))) if b else (k.TYPE_NUMERIC, str(int(v)), ("n", float(v)))
        if kind in ("rk", "rkt"):
            t = kind == "rkt"
            v = gen.serial(r) if t else r.choice([gen.int_val(r), gen.float_val(r)])
            e = wb.rk_encode(v)
            if e is None:
                v = float(r.randint(1, 50000))
                e = wb.rk_encode(v)
            if b:
                return k.TYPE_NUMERIC | k.REPR_RKNUMBER | (k.REPR_TEMPORAL if t else 0), struct.pack("<I", e), ("t" if t else "n", v)
            return k.TYPE_NUMERIC | (k.REPR_TEMPORAL if t else 0), gen.literal(r, v), ("t" if t else "n", v)
        if kind == "date":
            v = r.choice(DAY_OK) if r.random() < 0.3 else gen.serial(r)
            return k.TYPE_NUMERIC | k.REPR_TEMPORAL, (struct.pack("<d", v) if b else gen.literal(r, v)), ("t", v)
        v = r.choice([gen.int_val(r), gen.float_val(r)]) if kind == "big" else r.choice([float(r.randint(0, 60000)), r.randint(0, 60000) + 0.5])
        return (k.TYPE_NUMERIC | k.REPR_PREPARED, struct.pack("<d", v), ("n", v)) if b else (k.TYPE_NUMERIC, gen.literal(r, v), ("n", v))


def text_ok(g, w, t):
    if t == "t":
        try:
            return len(g) >= 10 and abs(pa.scalar(g).cast(pa.timestamp("ms")).value - w) <= model.MS_EPS
        except Exception:
            return False
    if t in ("i", "f"):
        try:
            return (int(g) if t == "i" else float(g)) == w or (w != w and g.lower() == "nan")
        except ValueError:
            return t == "i" and float(g) == w
    return model.text_denotes(g, w)


def same(got, cells, conf, as_text, empty_store=False):
    """Difference between an extracted array and the list slice, or None."""
    try:
        got.validate(full=True)
    except Exception as e:
        return f"invalid array: {e}"
    if len(got) != len(cells):
        return f"{len(got)} values, expected {len(cells)}"
    t, want = model.type_column(cells, *conf)
    if as_text:
        if got.type != pa.large_string():
            return f"type {got.type}, expected large_string"
    elif any(c is not None for c in cells) and got.type != model.PA_TYPES[t]:
        return f"type {got.type}, expected {model.PA_TYPES[t]}"
    lst = got.cast(pa.int64()).to_pylist() if pa.types.is_timestamp(got.type) else got.to_pylist()
    for i, (g, w) in enumerate(zip(lst, want)):
        if (g is None) != (w is None):
            return f"item {i}: got {g!r}, expected {w!r}"
        if g is None:
            continue
        ok = text_ok(g, w, t) if as_text else abs(g - w) <= model.MS_EPS if t == "t" else g == w or (g != g and w != w) if t in ("i", "f") else model.text_denotes(g, w)
        if not ok:
            return f"item {i}: got {g!r}, expected {w!r} (column reads as {t})"
    return None


def mask_for(r, n):
    """A boolean mask of n items, sometimes a window of a longer array."""
    p = r.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    runs = r.random() < 0.4
    m, cur = [], r.random() < 0.5
    for _ in range(n):
        if runs:
            cur = cur if r.random() < 0.8 else not cur
            m.append(cur)
        else:
            m.append(r.random() < p)
    if r.random() < 0.5:
        return m, pa.array(m, pa.bool_())
    k = r.randint(1, 9)
    return m, pa.array([r.random() < 0.5 for _ in range(k)] + m + [r.random() < 0.5 for _ in range(r.randint(0, 9))], pa.bool_()).slice(k, n)


class Store:
    """The real column, the list beside it, and everything ever extracted."""

    def __init__(self, ctx, r, series, conf, what):
        self.ctx, self.r, self.s, self.conf, self.what = ctx, r, series, conf, what
        self.ref: list = []
        self.kept: list = []
        self.log: list = []
        self.saw = False
        self.pulled = False

    def fail(self, msg):
        raise Violation(msg, history=self.log[-80:], column=[repr(c)[:60] for c in self.ref[:80]], **self.what)

    def added(self, row, v):
        self.ref += [None] * (row - len(self.ref)) + [v]
        self.log.append(("add", row, repr(v)[:50]))
        self.ctx.hit("adds")
        if self.pulled:
            self.ctx.hit("after_pull")

    def measure(self):
        if len(self.s) != len(self.ref):
            self.fail(f"length is {len(self.s)}, expected {len(self.ref)}")
        self.ctx.hit("oracle_evaluations")

    def extract(self, off=None, ln=None, masked=None):
        r, n = self.r, len(self.ref)
        off = r.choice([0, 0, 0, 1, r.randint(0, n), n, n + 1, r.randint(0, n + 5)]) if off is None else off
        txt = r.random() < 0.4
        fn = self.s.to_utf8 if txt else self.s.to_arrow
        kw: dict = {}
        if masked if masked is not None else r.random() < 0.3:
            rest = max(0, n - off)
            m, arr = mask_for(r, r.choice([rest, rest, rest, rest + r.randint(1, 6), r.randint(0, rest)]))
            kw["idx"] = arr
            src = self.ref[off:] + [None] * max(0, len(m) - rest)
            cells = [v for v, keep in zip(src, m) if keep]
            ln = r.choice([0, len(m)])  # a mask overrides the length
            self.ctx.hit("masked")
            self.log.append(("mask", off, ln, "".join("01"[x] for x in m), txt))
        else:
            ln = r.choice([0, 0, 1, 2, r.randint(0, n + 3), n, n + r.randint(1, 5), max(0, n - off)]) if ln is None else ln
            cells = self.ref[off:off + ln] if ln else self.ref[off:]
            if len(cells) < ln:
                cells = cells + [None] * (ln - len(cells))
                self.ctx.hit("padded")
            self.log.append(("slice", off, ln, txt))
        try:
            got = fn(off, ln, **kw) if off or ln or r.random() < 0.5 else fn(**kw)
        except Exception as e:
            self.fail(f"extraction raised {type(e).__name__}: {e}")
        d = same(got, cells, self.conf, txt)
        if d:
            self.fail(f"{'text' if txt else 'typed'} extraction {self.log[-1]!r}: {d}")
        self.pulled = True
        self.saw |= any(c is not None for c in cells)
        self.kept.append((got, got.to_pylist() if not pa.types.is_timestamp(got.type) else got.cast(pa.int64()).to_pylist(), got.type, self.log[-1]))
        for k in ("extractions", "kept_arrays", "oracle_evaluations") + (("as_text",) if txt else ()):
            self.ctx.hit(k)

    def finish(self):
        self.measure()
        self.extract(0, 0, False)
        for got, was, t, op in self.kept:
            now = got.to_pylist() if not pa.types.is_timestamp(got.type) else got.cast(pa.int64()).to_pylist()
            if repr(now) != repr(was) or got.type != t:
                self.fail(f"an array returned earlier by {op!r} has changed")
        self.ctx.seen_case(self.log, self.saw)


KINDS = ["sst", "txt", "bool", "rk", "rkt", "date", "num", "big"]


def texts_for(r, formats):
    k = r.choice(["dtext", "ntext", "bad", "word"])
    return [{"dtext": lambda: date_text(r, formats), "ntext": lambda: num_text(r), "bad": lambda: bad_text(r), "word": lambda: word(r)}[k]() for _ in range(6)] + ([bad_text(r)] if r.random() < 0.15 else [])


def column(ctx, r, group):
    from rxls.cell import cell
    from rxls.series import xl_series

    binary = r.random() < 0.5
    formats = r.choice([None, None, ("%Y/%m/%d", "%H-%M")])
    conf = (r.choice(["no", "temporal", "numeric", "all"]), formats, r.choice([6, 6, 2, 0, 10]))
    f = Feed(r, binary, texts_for(r, formats))
    st = Store(ctx, r, xl_series(f.shared, binary, conflict_resolve=conf[0], datetime_formats=formats, float_precision=conf[2]), conf, {"binary": binary, "conf": conf})
    kinds = r.sample(KINDS, r.choice([1, 2, 2, 3, 8]))
    if conf[0] in ("temporal", "all") and {"date", "rkt"} & set(kinds):
        kinds = [k for k in kinds if k not in ("big", "rk")]  # serials beyond the calendar are no instants
    row, cur, left = r.choice([0, 0, 0, 1, 7]), r.choice(kinds), 0
    steps = 4000 if group == "tall" else 6 if group == "far" else r.choice([3, 8, 20, 60])
    p_ext = 0.004 if group == "tall" else r.choice([0.1, 0.3, 0.6])
    for _ in range(steps):
        x = r.random()
        if x < p_ext:
            st.extract()
        elif x < p_ext + 0.05:
            st.measure()
        elif x > 0.97 and row:
            # a row that is already there, or was passed by
            last = st.s.add(cell(r.randrange(len(st.s)), 0, *f.make(r.choice(kinds))[:2])) if len(st.s) else -1
            if last != len(st.s) - 1:
                st.fail(f"a cell for a row already there: add returned {last}, length {len(st.s)}")
            ctx.hit("late_cells")
        else:
            if left <= 0:
                cur, left = r.choice(kinds), r.choice([1, 1, 2, 5, 12])
            left -= 1
            xdt, val, v = f.make(cur)
            ret = st.s.add(cell(row, r.choice([0, 0, 5]), xdt, val))
            if ret != row:
                st.fail(f"add at row {row} returned {ret}")
            st.added(row, v)
            row += r.choice([1, 1, 1, 1, 1, 2, 3, 10]) if group != "far" else r.choice([1, 255, 256, 257, 32768, 65534, 65535, 65536, 65537, 65538, 70000, 131073])
            ctx.hit("far_gaps", group == "far")
    for _ in range(2):
        st.extract()
    st.finish()
    return st


def fed(ctx, r):
    """Cells of the real readers, in the middle of a read."""
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook
    from rxls.series import xl_series

    st, by = gen.style_table(r)
    cols = gen.col_set(r, r.choice([1, 2, 3]))
    b = wb.Book([wb.Sheet("S", gen.grid(r, by, r.choice([4, 12, 40]), cols))], st, gen.opts(r))
    import io

    for cont, Book in (("xlsx", XlsxWorkbook), ("xlsb", XlsbWorkbook)):
        data = io.BytesIO(wb.write(b, cont))
        null = model.make_null(None)
        want: dict = {}
        for y, row in enumerate(b.sheets[0].rows):
            for c, x in row.items():
                v = model.typed(x, st, cont)
                if v is not None and not (v[0] == "s" and null(v[1])):
                    want[y, c] = v
        stores: dict = {}
        conf = (r.choice(["no", "numeric"]), None, 6)
        with Book(data) as w:
            for c in w.iter_worksheet(0, take_rows_non_empty=True):
                if (c.row, c.col) not in want:
                    raise Violation(f"{cont}: the reader yields a cell at {c.row, c.col} that the sheet does not have", case=rd.describe(b, cont))
                s = stores.get(c.col)
                if s is None:
                    s = stores[c.col] = Store(ctx, r, xl_series(w.shared, cont == "xlsb", conflict_resolve=conf[0]), conf, {"case": rd.describe(b, cont)})
                s.s.add(c)
                s.added(c.row, want[c.row, c.col])
                if r.random() < 0.15:
                    r.choice(list(stores.values())).extract()
        for s in stores.values():
            s.extract()
            s.finish()


def py(a):
    return a.cast(pa.int64()).to_pylist() if pa.types.is_timestamp(a.type) else a.to_pylist()


def runs(ctx, r):
    """One run: index, slice and mask programs against list programs."""
    from rxls.chunk import chunk

    binary = r.random() < 0.5
    f = Feed(r, binary, texts_for(r, None))
    kind = r.choice([*KINDS, "null"])
    n = r.choice([0, 1, 2, 7, 8, 9, 31, 64, 65])
    c, vals = one_run(chunk, f, kind, n)
    kept = [(c, list(vals), "the run")]
    log = [(kind, n, binary)]
    for _ in range(r.choice([2, 5, 10])):
        src, ref, _ = r.choice(kept)
        m = len(ref)
        op = r.choice(["int", "slice", "slice", "mask"])
        if op == "int":
            k = r.choice([0, m - 1, m, r.randint(0, m + 2)])
            k = max(k, 0)
            arg, want = k, ref[k:k + 1]
        elif op == "slice":
            k = [r.choice([None, 0, r.randint(0, m + 3), -r.randint(1, m + 2)]) for _ in range(2)]
            arg = slice(*k)
            if r.random() < 0.15:
                arg = slice(k[0], k[1], r.choice([1, 2, 3]))
            want = ref[arg]
        else:
            mm, a = mask_for(r, m)
            arg, want = a, [v for v, keep in zip(ref, mm) if keep]
        log.append((op, repr(arg)[:200]))
        try:
            got = src.take(arg)
            k = len(got.arrow())
            size = got.size
        except Exception as e:
            raise Violation(f"taking raised {type(e).__name__}: {e}", history=log, run=repr(ref)[:400]) from None
        if size != len(want) or k != len(want):
            raise Violation(f"took {size} cells ({k} values), expected {len(want)}", history=log, run=repr(ref)[:400])
        is_ = (bool(got.is_null), bool(got.is_numeric), bool(got.is_temporal))
        if is_ != (kind == "null", kind not in ("null", "sst", "txt"), kind in ("rkt", "date")):
            raise Violation(f"is_null, is_numeric, is_temporal are {is_} on a part of a run of {kind}", history=log)
        if got.is_empty != (not want):
            raise Violation(f"is_empty is {got.is_empty} on {len(want)} cells", history=log)
        kept.append((got, want, log[-1]))
        ctx.hit("runs_taken")
    for got, want, op in kept:
        for _ in range(r.choice([1, 2])):
            txt = r.random() < 0.4
            d = same(got.utf8() if txt else got.arrow(), want, ("no", None, -1), txt) if kind not in ("bool", "rk", "num", "big") else nums(got.arrow(), want)
            if d:
                raise Violation(f"after {op!r}: {d}", history=log, run=repr(vals)[:400])
            ctx.hit("oracle_evaluations")
    ctx.seen_case((log, repr(vals)), n > 0)


def nums(a, want):
    g = [None if v is None else float(v) for v in a.to_pylist()]
    w = [v[1] for v in want]
    return None if len(g) == len(w) and all(a == b or (a is not None and b is not None and a != a and b != b) for a, b in zip(g, w)) else f"got {g!r}, expected {w!r}"


def one_run(chunk, f, kind, n):
    if kind == "null":
        return chunk.nulls(n), [None] * n
    made = [f.make(kind) for _ in range(n)]
    data, vals = [m[1] for m in made], [m[2] for m in made]
    if kind in ("sst", "txt"):
        return (chunk.xlsb_strings if f.binary else chunk.xlsx_strings)(data, is_shared=kind == "sst", shareds=f.shared), vals
    t = kind in ("date", "rkt")
    if f.binary:
        return chunk.xlsb_numeric(data, is_boolean=kind == "bool", is_temporal=t, is_rknumber=kind in ("rk", "rkt")), vals
    return chunk.xlsx_numeric(data, is_temporal=t), vals


def lists(ctx, r):
    """Lists of runs joined again and again with different windows and strategies."""
    from rxls.chunk import chunk

    binary = r.random() < 0.5
    formats = r.choice([None, None, ("%Y/%m/%d", "%H-%M")])
    f = Feed(r, binary, texts_for(r, formats))
    kinds = r.sample(KINDS, r.choice([1, 2, 3]))
    if {"date", "rkt"} & set(kinds):
        kinds = [k for k in kinds if k not in ("big", "rk")]
    chunks, ref = [], []
    for _ in range(r.choice([1, 2, 3, 6]) if r.random() < 0.97 else r.choice([130, 260, 300])):
        c, v = one_run(chunk, f, r.choice([*kinds, *kinds, "null"]), r.choice([1, 1, 2, 5, 9]))
        chunks.append(c)
        ref += v
    log = []
    kept = []
    before = list(chunks)
    for _ in range(r.choice([2, 4, 8])):
        n = len(ref)
        off, conf = r.choice([0, 0, r.randint(0, n + 2)]), r.choice(["no", "temporal", "numeric", "all"])
        kw = {"conf_to_datetime": conf in ("temporal", "all"), "conf_to_numerics": conf in ("numeric", "all"), "datetime_formats": formats}
        if r.random() < 0.4:
            rest = max(0, n - off)
            m, a = mask_for(r, r.choice([rest, rest, rest + 3, r.randint(0, rest)]))
            want = [v for v, keep in zip(ref[off:] + [None] * max(0, len(m) - rest), m) if keep]
            args = (off, 0, a)
        else:
            ln = r.choice([0, 0, r.randint(0, n + 3), n])
            want = ref[off:off + ln] if ln else ref[off:]
            want = want + [None] * (ln - len(want))
            args = (off, ln)
        log.append((repr(args)[:200], conf))
        try:
            if r.random() < 0.3:
                parts = chunk.take_over(chunks, *args)
                if sum(p.size for p in parts) != len(want):
                    raise Violation(f"taking over gives {sum(p.size for p in parts)} cells, expected {len(want)}", history=log, column=repr(ref)[:400])
                got = chunk.concatenate(parts, **kw) if parts else pa.nulls(0, pa.large_string())
            else:
                got = chunk.concatenate(chunks, *args, **kw)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"joining raised {type(e).__name__}: {e}", history=log, column=repr(ref)[:400]) from None
        d = same(got, want, (conf, formats, 6), False)
        if d:
            raise Violation(f"joining {log[-1]!r}: {d}", history=log, column=repr(ref)[:600])
        if len(chunks) != len(before) or any(a is not b for a, b in zip(chunks, before)):
            raise Violation("joining changed the list of runs it was given", history=log)
        kept.append((got, py(got), log[-1]))
        ctx.hit("lists_joined")
        ctx.hit("oracle_evaluations")
    for got, was, op in kept:
        if repr(py(got)) != repr(was):
            raise Violation(f"an array returned earlier by {op!r} has changed", history=log)
    ctx.seen_case((log, repr(ref)), any(v is not None for v in ref))


def case(ctx, group, r, i):
    if group == "fed":
        fed(ctx, r)
    elif group == "runs":
        runs(ctx, r)
    elif group == "lists":
        lists(ctx, r)
    else:
        st = column(ctx, r, group)
        if i < 3:
            ctx.sample({"conf": st.conf, "history": st.log[:20]})
