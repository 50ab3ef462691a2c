"""C20: no file content can make the reader touch memory outside its buffers.

Monitors: the worker runs under debugging allocators (CPython debug hooks with
guard bytes, glibc heap checking with poisoned free and fresh memory, Arrow's
canary-checking pool) and a signal that ends it is a violation; every returned
array is validated in full; every value must be found in the file's own bytes
(or texts); and a shared-string reference beyond the table must never become a
value.
"""
from __future__ import annotations

import io
import os
import re
import struct
import zipfile
from xml.parsers import expat

import numpy as np
import pyarrow as pa

from .. import gen, rd, wb
from ..mon import Violation
from .c19 import attempt, parts_of, rezip, role, small

ID = "C20"
LEVEL = "exploration"
RULE = ("valid small workbooks with structured damage (shared references at and beyond both ends of the table, every record of the sheet, "
        "string table, styles and workbook parts cut or padded to every length, lying length fields, huge columns and rows, odd numeric "
        "and reference texts) or random byte mutations of any part, containers rebuilt with valid checksums, plus low-level column stores "
        "given short, long and out-of-table payloads; non-trivial when the damage left a readable container, distinct by file bytes")
ASSUMPTIONS = ["an out-of-buffer access shows as a crash, an invalid array, a heap-check abort or a value that is not in the file",
               "origin of values is decided without conflict resolution (with it: crash and validity only)"]
ENV = {"PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165", "MALLOC_CHECK_": "3", "ARROW_DEFAULT_MEMORY_POOL": "system", "ARROW_DEBUG_MEMORY_POOL": "trap"}
for _l in ("/usr/lib/x86_64-linux-gnu/libc_malloc_debug.so.0", "/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"):
    if os.path.exists(_l):
        ENV["LD_PRELOAD"] = _l
        break


def plan(tier):
    k = 15 if tier == "thorough" else 1
    return [("refs", 900 * k), ("records", 120 * k), ("lies", 1500 * k), ("texts", 1500 * k), ("mutate", 8000 * k), ("styles", 500 * k), ("cuts", 500 * k), ("store", 600 * k)]


def required(tier):
    return {"reads": 12000, "raised": 2500, "tables": 4000, "values_traced": 20000, "bad_refs": 800, "store_ops": 500, "cut_cells": 900, "cut_or_padded": 3000}


# ------------------------------------------------------------------ origins --
def rk_all(u):
    i = (u & 0xFFFFFFFC).astype(np.uint32)
    f = np.where(u & 2, (i.view(np.int32) >> 2).astype(np.float64), (i.astype(np.uint64) << np.uint64(32)).view(np.float64))
    return np.where(u & 1, f / 100, f)


class XlsbOrigin:
    def __init__(self, parts):
        self.blobs = [d for n, d in parts if n.startswith("xl/")]
        v = [np.arange(256, dtype=np.float64)]
        for n, d in parts:
            if role(n) != "sheet":
                continue
            a = np.frombuffer(d, np.uint8)
            for w, t in ((8, "<f8"), (4, "<u4")):
                if len(a) >= w:
                    x = np.ascontiguousarray(np.lib.stride_tricks.sliding_window_view(a, w)).reshape(-1).view(t)
                    v.append(x if w == 8 else rk_all(x))
        with np.errstate(all="ignore"):
            self.nums = np.concatenate(v)
        self.finish()

    def finish(self):
        with np.errstate(all="ignore"):
            n = self.nums
            s = (n - (n >= 1.0) * (25569.0 - (n < 60.0))) * 86400000.0
            ok = np.abs(s) < 9.2e18
            self.ms = np.sort(np.rint(s[ok]))
        self.has_big = bool((~ok).any())
        self.num_set = set(n.tolist())
        self.int_ok = np.sort(np.trunc(n[np.abs(n) < 2e19]))

    def number(self, v):
        if v in self.num_set or v != v:
            return True
        if isinstance(v, int):  # integers at the precision in force
            k = np.searchsorted(self.int_ok, float(v))
            return any(0 <= j < len(self.int_ok) and abs(self.int_ok[j] - v) <= max(1.0, abs(v) * 1e-15) for j in (k - 1, k, k + 1))
        return False

    def instant(self, ms):
        k = np.searchsorted(self.ms, ms)
        return any(0 <= j < len(self.ms) and abs(self.ms[j] - ms) <= 1 + abs(ms) * 1e-15 for j in (k - 1, k, k + 1)) or (self.has_big and abs(ms) > 9e18)

    def text(self, t):
        b = t.encode("utf-16-le", "surrogatepass")
        return any(b in d for d in self.blobs)


class XlsxOrigin(XlsbOrigin):
    def __init__(self, parts):
        self.texts: set = set()
        self.whole = ""
        nums = [0.0]
        for n, d in parts:
            if not role(n):
                continue
            cur: list = []
            item: list = []
            tags: list = []

            def sh(tag, a):
                cur.clear()
                tag = tag.rpartition(":")[2]  # any prefix
                tags.append(tag)
                if tag in ("si", "c", "row"):
                    item.clear()

            def th(s):
                cur.append(s)
                if tags[-1] in "tv":
                    item.append(s)
                self.whole += s

            def eh(tag):
                tags.pop()
                self.texts.add("".join(cur).strip())
                self.texts.add("".join(item).strip())

            p = expat.ParserCreate()
            p.StartElementHandler, p.CharacterDataHandler, p.EndElementHandler = sh, th, eh
            try:
                p.Parse(d, True)
            except expat.ExpatError:
                pass
        unesc = lambda s: re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m[1], 16)) if not 0xD800 <= int(m[1], 16) < 0xE000 else m[0], s)
        self.texts |= {unesc(t).strip() for t in self.texts}
        self.whole += "\0" + unesc(self.whole)
        for t in self.texts:
            try:
                nums.append(float(t))
            except ValueError:
                pass
        self.nums = np.array(nums)
        self.finish()

    def text(self, t):
        return t in self.texts or t in self.whole


def trace(ctx, tab, og, msg, what):
    for k, c in enumerate(tab.columns):
        if pa.types.is_timestamp(c.type):
            vals = c.cast(pa.int64()).to_pylist()
            bad = [v for v in vals if v is not None and not og.instant(v)]
        elif pa.types.is_integer(c.type) or pa.types.is_floating(c.type):
            vals = c.to_pylist()
            bad = [v for v in vals if v is not None and not og.number(v)]
        elif pa.types.is_large_string(c.type) or pa.types.is_string(c.type):
            vals = c.to_pylist()
            bad = [v for v in vals if v is not None and not og.text(v) and not rendered(v, og)]
        elif pa.types.is_null(c.type):
            continue
        else:
            raise Violation(f"{msg}: column {k} has type {c.type}", case=what)
        ctx.hit("values_traced", sum(v is not None for v in vals))
        if bad:
            raise Violation(f"{msg}: column {k} ({c.type}) holds {bad[0]!r:.100}, which is nowhere in the file", case=what)


def rendered(t, og):
    try:
        return og.number(float(t))
    except ValueError:
        pass
    try:
        return og.instant(pa.scalar(t).cast(pa.timestamp("ms")).value)
    except Exception:
        # instants beyond what Arrow parses back
        return og.has_big or bool(re.fullmatch(r"-?\d{4,}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}|<value out of range: -?\d+>", t))


def probe(ctx, parts, cont, r, msg, what, header=0, o=None, origin=True):
    """Read a damaged container: exception, or a valid table made of the file's own values; the same again."""
    data = rezip(parts)
    o = o or {}
    st, t = attempt(io.BytesIO(data), header, o)
    ctx.hit("reads")
    ctx.hit("oracle_evaluations")
    ctx.seen_case((ID, data, header, repr(o)))
    if st == "err":
        ctx.hit("raised")
        if isinstance(t, MemoryError):
            raise Violation(f"{msg}: MemoryError", case=what)
        return None
    ctx.hit("tables")
    if t.num_rows > 1048576 + 4096:
        raise Violation(f"{msg}: a table of {t.num_rows} rows, more than a sheet can have", case=what)
    for c in t.columns:
        for ch in c.chunks:
            try:
                ch.validate(full=True)
            except Exception as e:
                raise Violation(f"{msg}: the table has an invalid column: {e}", case=what) from None
    if origin and o.get("conflict_resolve", "no") == "no":
        trace(ctx, t, (XlsxOrigin if cont == "xlsx" else XlsbOrigin)(parts), msg, what)
    if r.random() < 0.1:
        junk = [bytes(k) for k in range(16, 5000, 33)]
        st2, t2 = attempt(io.BytesIO(data), header, o)
        del junk
        if st2 != "ok" or not (t2.equals(t) or str(t2) == str(t)):
            raise Violation(f"{msg}: a second read gives another result ({st2})", case=what)
        ctx.hit("repeated")
    return t


def sub(parts, name, d):
    return [(n, d if n == name else x) for n, x in parts]


def records(d):
    out, p = [], 0
    while p < len(d):
        q = p
        i = d[p]
        p += 1
        if i & 0x80:
            i = (i & 0x7F) | d[p] << 7
            p += 1
        n, s = 0, 0
        for _ in range(4):
            b = d[p]
            p += 1
            n |= (b & 0x7F) << s
            s += 7
            if not b & 0x80:
                break
        out.append((i, d[p:p + n], q))
        p += n
    return out


def build(recs):
    return b"".join(wb.rec(i, d) for i, d, *_ in recs)


def options(r):
    o = {}
    if r.random() < 0.5:
        o["take_rows_non_empty"] = True
    if r.random() < 0.2:
        o["conflict_resolve"] = r.choice(["all", "numeric", "temporal"])
    if r.random() < 0.1:
        o["row_filters"] = [0]
    if r.random() < 0.1:
        o["lookup_head"] = r.choice([0, "a", "."])
    return r.choice([0, 0, 1, 2]), o


# -------------------------------------------------------------------- cases --
def case(ctx, group, r, i):
    if group == "store":
        return store(ctx, r)
    cont = ("xlsx", "xlsb")[i % 2]
    if group == "cuts":
        return cuts(ctx, r)
    if group in ("records", "lies", "styles") and cont == "xlsx":
        cont = "xlsb" if group != "styles" else cont
    b = small(r)
    b.phonetic = set()
    header, o = options(r)
    what = rd.describe(b, cont, header=header, **o)
    if i < 2:
        ctx.sample(what, cap=2)
    parts = parts_of(wb.write(b, cont))
    if group == "refs":
        return refs(ctx, r, cont)
    if group == "mutate":
        cand = [n for n, d in parts if n.startswith("xl/") and d and "theme" not in n]
        w = [8 if role(n) else 1 for n in cand]
        name = r.choices(cand, w)[0]
        d = bytearray(dict(parts)[name])
        for _ in range(r.choice([1, 1, 2, 4, 10])):
            p = r.randrange(len(d)) if d else 0
            k = r.random()
            if k < 0.5 and d:
                d[p] = r.choice([d[p] ^ (1 << r.randrange(8)), r.randrange(256), 0, 0xFF, 0x80, 0x7F])
            elif k < 0.65:
                del d[p:p + r.choice([1, 2, 4, 8])]
            elif k < 0.8:
                d[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 8])))
            elif k < 0.9 and len(d) > 8:
                q = r.randrange(len(d) - 4)
                d[p:p + 4] = d[q:q + 4]
            elif len(d) >= p + 4:
                d[p:p + 4] = r.choice([b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\0\0\0\0", struct.pack("<I", r.randrange(40))])
        probe(ctx, sub(parts, name, bytes(d)), cont, r, f"{cont}: {name} mutated", what, header, o)
    elif group == "records":
        for name, d in parts:
            if not name.endswith(".bin"):
                continue
            rc = records(d)
            seen = 0
            for k, (rid, x, _) in enumerate(rc):
                if not x or seen > 24:
                    continue
                seen += 1
                lens = range(0, len(x) + 9) if len(x) <= 24 else sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, len(x) - 2, len(x) - 1, len(x) + 1})
                for n in r.sample(list(lens), min(6, len(lens))):
                    if n == len(x):
                        continue
                    y = x[:n] + bytes(r.randrange(256) for _ in range(n - len(x)))
                    dmg = build([*rc[:k], (rid, y), *rc[k + 1:]])
                    probe(ctx, sub(parts, name, dmg), cont, r, f"{cont}: record {rid} of {name} is {n} bytes long instead of {len(x)}", what, header, o)
                    ctx.hit("cut_or_padded")
    elif group == "lies":
        # length and position fields that say something else than the data
        name = next(n for n, _ in parts if role(n) == "sheet") if r.random() < 0.7 else r.choice([n for n, _ in parts if n.endswith(".bin")])
        rc = [list(x[:2]) for x in records(dict(parts)[name])]
        fields = {6: [0, 4, 8], 8: [0, 4, 8], 7: [0, 4, 8], 2: [0, 4], 5: [0, 4], 9: [0, 4], 4: [0, 4], 10: [0], 0: [0], 19: [1], 44: [2], 47: [0, 2], 156: [8, 0], 159: [0, 4]}
        cand = [(k, f) for k, (rid, x) in enumerate(rc) for f in fields.get(rid, []) if len(x) >= f + 4]
        if not cand:
            return
        for _ in range(r.choice([1, 1, 2])):
            k, f = r.choice(cand)
            v = r.choice([0, 1, 2, 3, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x10000, 0x40000000, 0xFFFFF, 0x100000, 16383, 16384, r.randrange(64)])
            if rc[k][0] == 0 and f == 0 and v in (0xFFFFF, 0x10000) and not o.get("take_rows_non_empty"):
                o["take_rows_non_empty"] = True
            x = rc[k][1]
            rc[k][1] = x[:f] + struct.pack("<I", v) + x[f + 4:]
        if r.random() < 0.3:
            r.shuffle(rc)
        probe(ctx, sub(parts, name, build(rc)), cont, r, f"{cont}: a field of {name} lies", what, header, o)
    elif group == "texts":
        odd = ["", " ", "-1", "+1", "1.0", "1e3", "0x1", "1_0", "٣", "nan", "inf", "-inf", "1e999", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999", "true", "TRUE",
               "abc", "1,5", "--1", "1 2", "\u00a01", "1\n2", "-0", "2147483648", "9" * 400, "1e-400", "2020-01-01", "&amp;", "&#0;", "&#xD800;", "&bogus;", "&#x1F600;", "_x0000_", "_xD800_"]
        if cont == "xlsx":
            name = next(n for n, _ in parts if role(n) == "sheet")
            d = wb.as_text(dict(parts)[name])
            for _ in range(r.choice([1, 2, 3])):
                m = list(re.finditer(r"<v>([^<]*)</v>", d)) if r.random() < 0.6 else list(re.finditer(r' (?:r|s|t)="([^"]*)"', d))
                if not m:
                    continue
                m = r.choice(m)
                new = r.choice(odd) if d[m.start()] == "<" else r.choice([*odd[:12], "A", "ZZZZZZZZZZ9", "A0", "a1", "1A", "$A$1", "XFE1", "A1048577", "A99999999999", "s", "b", "e", "n", "str", "inlineStr", "d", "S", "1048576", "1048577", "0", "999999999999"])
                d = d[:m.start(1)] + new + d[m.end(1):]
            o["take_rows_non_empty"] = True
            probe(ctx, sub(parts, name, d.encode("utf-8", "surrogatepass")), cont, r, f"{cont}: odd cell texts", what, header, o)
        else:
            # strings that are not UTF-16, or hold odd characters
            name = r.choice([n for n, _ in parts if role(n)])
            rc = [list(x[:2]) for x in records(dict(parts)[name])]
            k = [k for k, (rid, x) in enumerate(rc) if rid in (6, 8, 19) and len(x) > (12 if rid != 19 else 5)]
            for k in r.sample(k, min(2, len(k))):
                off = 12 if rc[k][0] != 19 else 5
                x = bytearray(rc[k][1])
                x[off:off + 2] = r.choice([b"\x00\xd8", b"\x00\xdc", b"\xff\xff", b"\xfe\xff", b"\x00\x00"])
                rc[k][1] = bytes(x)
            probe(ctx, sub(parts, name, build(rc)), cont, r, f"{cont}: odd UTF-16", what, header, o)
    else:
        name = next((n for n, _ in parts if "styles" in n), None)
        if name is None:
            return
        d = dict(parts)[name]
        if cont == "xlsx":
            s = wb.as_text(d)
            m = list(re.finditer(r'="([^"]*)"', s))
            for m in [r.choice(m)]:
                s = s[:m.start(1)] + r.choice(["", "-1", "99999999999", "abc", "14", "164", ";", "[h]", "\\", "_"]) + s[m.end(1):]
            d = s.encode()
        else:
            rc = [list(x[:2]) for x in records(d)]
            k = r.choice([k for k, (rid, x) in enumerate(rc) if rid in (44, 47)])
            x = bytearray(rc[k][1])
            x[r.randrange(len(x))] = r.randrange(256)
            rc[k][1] = bytes(x[: r.choice([len(x), len(x), 2, 3, 4, 6, 7])])
            d = build(rc)
        probe(ctx, sub(parts, name, d), cont, r, f"{cont}: odd styles", what, header, o)


def refs(ctx, r, cont):
    """A sheet with shared references; some point outside of the table."""
    n = r.choice([0, 1, 2, 5, 40])
    words = [f"w{k}-{'x' * r.choice([0, 3, 90])}" for k in range(n)]
    bad = r.choice([n, n + 1, n + 7, 255 + n, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, -1, -2, -n or -3, 4294967296, 4294967296 + (n and r.randrange(n)), 10**18, 18446744073709551615])
    if cont == "xlsb" and not 0 <= bad < 2**32:
        bad = n
    rows, want = [], []
    h = r.choice([2, 3, 9])
    where = r.randrange(h)
    mixed = r.random() < 0.3
    for y in range(h):
        if y == where:
            rows.append(bad)
            want.append(None)
        elif n and r.random() < 0.8:
            k = r.randrange(n)
            rows.append(k)
            want.append(words[k])
        else:
            rows.append(None)
            want.append(None)
    b = wb.Book([wb.Sheet("S", [{0: wb.C("s", "kept", 0, "inline"), 1: wb.C("s", f"@{y}@", 0, "inline")} for y in range(h)])], [wb.Style(0, None, "gen")], {})
    parts = dict(parts_of(wb.write(b, cont)))
    name = next(k for k in parts if role(k) == "sheet")
    if cont == "xlsx":
        d = wb.as_text(parts[name])
        for y, k in enumerate(rows):
            d = re.sub(rf'<c t="inlineStr" r="B{y + 1}">.*?</c>', "" if k is None else f'<c r="B{y + 1}" t="s"><v>{k}</v></c>', d)
        assert "@" not in d
        parts[name] = d.encode()
        sst = f'<sst xmlns="{wb.MAIN}">' + "".join(f"<si><t>{w}</t></si>" for w in words) + "</sst>"
        if n or r.random() < 0.5:
            parts["xl/sharedStrings.xml"] = sst.encode()
    else:
        out, y = [], -1
        for rid, x, _ in records(parts[name]):
            y += rid == 0
            if rid == 6 and x[:4] == b"\1\0\0\0":
                if rows[y] is not None:
                    out.append((7, x[:8] + struct.pack("<I", rows[y])))
                continue
            out.append((rid, x))
        parts[name] = build(out)
        if n or r.random() < 0.5:
            parts["xl/sharedStrings.bin"] = wb.rec(159, struct.pack("<II", n, n)) + b"".join(wb.rec(19, b"\0" + wb.ws(w)) for w in words) + wb.rec(160)
    o = {"take_rows_non_empty": True}
    if mixed:
        o["null_values"] = [words[0]] if n else ["w"]
    what = {"container": cont, "references": rows, "table size": n, "options": repr(o)}
    header = r.choice([0, 0, 0, 1])
    t = probe(ctx, list(parts.items()), cont, r, f"{cont}: shared reference {bad} into a table of {n}", what, header, o)
    ctx.hit("bad_refs")
    if t is not None and not header and t.num_columns == 2:
        v = t.column(1)[where].as_py() if where < t.num_rows else None
        if v is not None:
            raise Violation(f"{cont}: shared reference {bad} into a table of {n} strings reads as {v!r:.100}", case=what)


NEED = {2: 12, 4: 9, 5: 16, 6: 12, 7: 12, 8: 12, 9: 16, 10: 9}


def cuts(ctx, r):
    """One cell record of a column ends before its value does: no value may take its place."""
    kind = r.choice(["b", "b", "rk", "real", "fml", "s", "shared"])
    h = r.choice([1, 2, 2, 3, 7])
    st = r.choice([0, 1, 1, 2]) if kind in ("b", "s", "shared") else r.choice([1, 2])

    def c(y):
        if kind == "b":
            return wb.C("b", r.random() < 0.3, st, r.choice(["plain", "fml"]))
        if kind in ("s", "shared"):
            return wb.C("s", f"text {y}", st, "shared" if kind == "shared" else r.choice(["inline", "str"]))
        return wb.C("n", float(r.choice([0, 1000 + y])), st, kind)

    rows = [{0: wb.C("s", f"row{y}", 0, "inline"), 2: c(y)} for y in range(h)]
    b = wb.Book([wb.Sheet("S", rows)], [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")], {})
    data = wb.write(b, "xlsb")
    s0, whole = attempt(io.BytesIO(data), 0, {"take_rows_non_empty": True})
    if s0 == "err":
        raise Violation(f"a valid sheet of {kind} cells cannot be read: {whole!r}")
    parts = parts_of(data)
    name = next(n for n, _ in parts if role(n) == "sheet")
    rc = records(dict(parts)[name])
    at = [k for k, (rid, x, _) in enumerate(rc) if rid in NEED and x[:4] == b"\2\0\0\0"]
    for j, k in enumerate(at):
        rid, x, _ = rc[k]
        full = NEED[rid] if rid not in (6, 8) else 12 + 2 * len(rows[j][2].val)
        for n in sorted({8, full - 1, r.randrange(8, full)}):
            dmg = sub(parts, name, build([*rc[:k], (rid, x[:n]), *rc[k + 1:]]))
            what = {"cells": [repr(q[2].val) for q in rows], "kind": kind, "style": st, "cut row": j, "record": rid, "bytes kept": n}
            o = {"take_rows_non_empty": True}
            t = probe(ctx, dmg, "xlsb", r, f"xlsb: {kind} cell of row {j} cut to {n} bytes of {full}", what, 0, o)
            ctx.hit("cut_cells")
            if t is not None and t.num_columns == 2:
                v = t.column(1)[j].as_py() if j < t.num_rows else None
                if v is not None and not (kind == "s" and n >= 12 and rows[j][2].val.startswith(v)):
                    raise Violation(f"xlsb: the {kind} cell of row {j} is cut to {n} bytes of {full} and reads as {v!r:.60}", case=what)


def store(ctx, r):
    """Column stores fed with payloads of wrong sizes and references out of the table."""
    from rxls.cell import cell
    from rxls.constants import REPR_BOOLEAN, REPR_PREPARED, REPR_RKNUMBER, REPR_SHARED, REPR_TEMPORAL, TYPE_NUMERIC, TYPE_STRING
    from rxls.series import xl_series

    words = [f"s{k}" for k in range(r.choice([0, 1, 3, 10]))]
    shared = pa.array(words, pa.large_string())
    if r.random() < 0.3 and len(words) > 1:
        shared = shared.slice(1)
        words = words[1:]
    s = xl_series(shared, True)
    kind, size = r.choice([("rk", 4), ("real", 8), ("bool", 1), ("tmp", 8), ("rktmp", 4), ("ref", 4)])
    xdt = {"rk": TYPE_NUMERIC | REPR_RKNUMBER, "real": TYPE_NUMERIC | REPR_PREPARED, "bool": TYPE_NUMERIC | REPR_BOOLEAN, "tmp": TYPE_NUMERIC | REPR_TEMPORAL,
           "rktmp": TYPE_NUMERIC | REPR_RKNUMBER | REPR_TEMPORAL, "ref": TYPE_STRING | REPR_SHARED}[kind]
    n = r.choice([1, 2, 5])
    good = [bytes(size) for _ in range(n)]
    if kind == "ref":
        good = [struct.pack("<I", r.randrange(max(1, len(words)))) for _ in range(n)]
    bad = r.random() < 0.8
    if bad:
        k = r.randrange(n)
        if kind == "ref" and r.random() < 0.6:
            good[k] = struct.pack("<I", r.choice([len(words), len(words) + 1, 0xFFFFFFFF, 0x80000000, 1000]))
        else:
            good[k] = bytes(r.choice([x for x in (0, 1, 2, 3, 5, 7, 9) if x != size]))
    elif kind == "ref" and not words:
        bad = True
    for y, v in enumerate(good):
        s.add(cell(y, 0, xdt, v))
    ctx.hit("store_ops")
    ctx.hit("oracle_evaluations")
    ctx.seen_case((ID, "store", kind, tuple(good), tuple(words)))
    what = {"kind": kind, "payloads": [v.hex() for v in good], "table": len(words)}
    try:
        a = s.to_arrow(*r.choice([(), (0, n), (0, n + 3)]))
        a.validate(full=True)
        u = s.to_utf8()
        u.validate(full=True)
    except Exception as e:
        if not bad:
            raise Violation(f"good {kind} payloads raise {e!r}", case=what) from None
        ctx.hit("raised")
        return
    if bad:
        raise Violation(f"{kind} payloads of sizes {[len(v) for v in good]} (values {[v.hex() for v in good]}, table of {len(words)}) read as {a.to_pylist()!r:.200}", case=what)
