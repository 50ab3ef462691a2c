"""C30: an open workbook can be walked sheet by sheet, in any order and manner.

Monitor: every cell the walks yield, logged with its walk; the walks over one open
workbook are advanced in a random interleaving, some are given up or made to fail on
the way, and new ones begin. Oracle: the reference reader for each walk alone
(cells, order and place), so a walk that sees anything of another one is refuted.
"""
from __future__ import annotations

import io
import os
import tempfile
import threading

import pyarrow as pa

from .. import gen, model, rd, wb
from ..mon import Violation

ID = "C30"
LEVEL = "exploration"
RULE = ("open workbooks of 1-6 sheets of both containers, walked through iter_worksheet under random windows, skipped columns, null texts "
        "and callbacks: one after another, repeated, interleaved cell by cell, given up half-way, failing half-way, in threads, and after "
        "closing and reopening; non-trivial when at least two walks met, distinct by file and schedule")
ASSUMPTIONS = ["the file does not change while the workbook is open", "cell values are looked at through the column store",
               "walks that meet in time meet over archives without extra fields (zipfile of Python 3.12 misplaces those when another member is being read)"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("serial", 700 * k), ("woven", 900 * k), ("threads", 150 * k, 2), ("life", 300 * k), ("big", 12 * k, 3)]


def required(tier):
    return {"walks": 4000, "full_walks": 2500, "given_up": 500, "failed_walks": 300, "cells": 60000, "switches": 4000, "non_null_cells": 60000, "listings": 1500, "refused": 800, "replaced": 100, "threads_met": 100, "counted_walks": 600}


class Walk:
    """One iteration over one sheet, with the columns grown from what it yields."""

    def __init__(self, ctx, w, b, cont, si, o, by_name, fail_at=None):
        self.ctx, self.w, self.b, self.cont, self.si, self.o = ctx, w, b, cont, si, o
        self.last, self.cols, self.n, self.calls = (-1, -1), {}, 0, 0
        self.fail_at = fail_at
        kw = {k: v for k, v in o.items() if k != "null_values"}
        self.full = not {"skip_rows", "take_rows", "skip_cols"} & set(kw)
        self.counts = fail_at is None and self.full and (si + len(o)) % 2 == 0
        if fail_at is not None or self.counts:
            kw["row_callback"] = self.call
        self.it = w.iter_worksheet(b.sheets[si].name if by_name else [s for s in range(len(b.sheets)) if b.sheets[s].kind == "worksheet"].index(si), **kw)
        self.done = False
        ctx.hit("walks")

    def call(self):
        self.calls += 1
        if self.fail_at is not None and self.calls > self.fail_at:
            raise Boom(self.si)

    def what(self):
        return dict(rd.describe(self.b, self.cont, sheet=self.si, **self.o))

    def step(self):
        """One more cell. False at the end."""
        from rxls.series import xl_series

        try:
            c = next(self.it, None)
        except Boom as e:
            if self.fail_at is None or e.args != (self.si,):
                raise Violation(f"{self.cont}: the exception of one walk ({e!r}) is raised in another, of sheet {self.si}", case=self.what()) from None
            self.done = True
            self.ctx.hit("failed_walks")
            return False
        except Exception as e:
            raise Violation(f"{self.cont}: a walk over sheet {self.si} of an intact workbook fails: {e!r}", case=self.what()) from e
        if c is None:
            self.done = True
            return False
        self.ctx.hit("cells")
        self.n += 1
        if not (hasattr(c, "row") and hasattr(c, "col")):
            raise Violation(f"{self.cont}: a walk over sheet {self.si} yields {c!r}, which is no cell", case=self.what())
        if not (c.row >= 0 and c.col >= 0 and (c.row, c.col) > self.last):
            raise Violation(f"{self.cont}: a cell at {(c.row, c.col)} after one at {self.last}", case=self.what())
        self.last = c.row, c.col
        s = self.cols.get(c.col)
        if s is None:
            s = self.cols[c.col] = xl_series(self.w.shared, self.cont == "xlsb")
        s.add(c)
        return True

    def judge(self):
        """The columns of a complete walk are those of its sheet."""
        if self.fail_at is not None:
            return
        exp = model.expect(self.b, self.cont, self.si_sel(), 0, **self.o)
        keys = sorted(self.cols)
        n = max((len(s) for s in self.cols.values()), default=0)
        t = pa.table([self.cols[k].to_arrow(0, n) for k in keys], [f"Unnamed. {i}" for i in range(len(keys))])
        d = model.diff(exp, t)
        if d:
            raise Violation(f"{self.cont}: walk over sheet {self.si}: {d}", case=self.what())
        if self.counts:
            n = sum(bool(row) or not self.b.opts.get("omit_empty") for row in self.b.sheets[self.si].rows) + 1
            self.ctx.check(self.calls == n, f"{self.cont}: {self.calls} calls of the callback of a walk over sheet {self.si}, expected {n}", case=self.what())
            self.ctx.hit("counted_walks")
        self.ctx.hit("full_walks")
        self.ctx.hit("non_null_cells", sum(v is not None for c in exp.cols for v in c))

    def si_sel(self):
        return self.b.sheets[self.si].name


class Boom(Exception):
    pass


def make(r, big=False):
    st, by = gen.style_table(r)
    n = r.choice([1, 2, 2, 3, 4, 6])
    names = r.sample(["S", "Sheet1", "данные", "a b", "1", "rId1", "x" * 31, "&<>"], n)
    sheets = [wb.Sheet(nm, gen.grid(r, by, r.choice([1500, 3000]) if big else r.choice([0, 1, 3, 8, 20, 40]), gen.col_set(r, r.choice([1, 2, 4])))) for nm in names]
    if n > 1 and r.random() < 0.2:
        sheets[r.randrange(n)].kind = "chartsheet"
        if not any(s.kind == "worksheet" for s in sheets):
            sheets[0].kind = "worksheet"
    return wb.Book(sheets, st, gen.opts(r))


def walk_options(r, b, si):
    o = {}
    cols = sorted({c for row in b.sheets[si].rows for c in row})
    if r.random() < 0.25:
        o["skip_rows"] = r.choice([1, 2, 5, 10])
    if r.random() < 0.25:
        o["take_rows"] = r.choice([1, 2, 5, 10])
    o["take_rows_non_empty"] = r.random() < 0.6
    if cols and r.random() < 0.2:
        o["skip_cols"] = r.sample(cols, r.randint(1, len(cols)))
    return o


def book_of(cont):
    from rxls.reader.xlsb import XlsbWorkbook
    from rxls.reader.xlsx import XlsxWorkbook

    return XlsxWorkbook if cont == "xlsx" else XlsbWorkbook


def case(ctx, group, r, i):
    b = make(r, group == "big")
    cont = r.choice(["xlsx", "xlsb"])
    if group in ("woven", "threads", "big"):
        b.opts["no_extra"] = True
    data = wb.write(b, cont)
    real = [k for k, s in enumerate(b.sheets) if s.kind == "worksheet"]
    texts = [c.val for s in b.sheets for row in s.rows for c in row.values() if c.kind == "s"]
    nv = r.sample(texts, min(3, len(texts))) if r.random() < 0.3 else None
    if nv and any(t != t.strip() for t in nv):
        nv = None
    path = None
    if r.random() < 0.3:
        path = os.path.join(rd.tmpdir(), f"c30-{os.getpid()}")
        with open(path, "wb") as f:
            f.write(data)
    W = book_of(cont)
    src = path or io.BytesIO(data)
    w = W(src, null_values=nv)
    base = {"null_values": nv} if nv else {}
    log = []
    try:
        if group == "life":
            return life(ctx, r, b, cont, w, W, src, data, base, real)
        with w:
            listing(ctx, b, cont, w, real, data)

            def new(full=False):
                si = r.choice(real)
                return Walk(ctx, w, b, cont, si, {**base, **walk_options(r, b, si)}, r.random() < 0.5, None if full or r.random() < 0.85 else r.choice([0, 0, 1, 2, 5]))

            if group == "serial":
                for _ in range(r.choice([2, 3, 6])):
                    k = new()
                    give = r.choice([0, 1, 2, 10, 30]) if r.random() < 0.35 else None
                    log.append((k.si, give))
                    while (give is None or k.n < give) and k.step():
                        pass
                    end(ctx, r, k)
            elif group in ("woven", "big"):
                live, cur, total = [new() for _ in range(r.choice([2, 2, 3, 5]))], None, 0
                give_p = r.choice([0, 0, 0.01])
                while live:
                    k = r.choice(live)
                    if k is not cur:
                        ctx.hit("switches")
                        cur = k
                    log.append(k.si)
                    burst = r.choice([1, 1, 2, 5]) if group == "woven" else r.choice([1, 100, 1000])
                    for _ in range(burst):
                        if not k.step():
                            break
                    if k.done or r.random() < give_p:
                        end(ctx, r, k)
                        live.remove(k)
                        total += 1
                        if total < 6 and r.random() < 0.3:
                            live.append(new())
            else:
                ks = [new(True) for _ in range(r.choice([2, 3, 4]))]
                errs = []

                def run(k):
                    try:
                        while k.step():
                            pass
                    except BaseException as e:
                        errs.append(e)

                ts = [threading.Thread(target=run, args=(k,)) for k in ks]
                [t.start() for t in ts]
                [t.join() for t in ts]
                ctx.hit("threads_met", len(ts))
                if errs:
                    if isinstance(errs[0], Violation):
                        raise errs[0]
                    raise Violation(f"{cont}: a walk in a thread failed: {errs[0]!r}", case=rd.describe(b, cont))
                for k in ks:
                    k.judge()
                log.append([k.si for k in ks])
            listing(ctx, b, cont, w, real, data)
    finally:
        if path:
            os.unlink(path)
    ctx.seen_case(data + repr(log).encode(), True)


def end(ctx, r, k):
    """A walk is over: by itself, or because its user has had enough."""
    if k.done:
        k.judge()
        if next(k.it, None) is not None:
            raise Violation(f"{k.cont}: a walk goes on after its end", case=k.what())
        ctx.hit("oracle_evaluations")
    else:
        ctx.hit("given_up")
        if r.random() < 0.7:
            k.it.close()
        else:
            k.it = None


def listing(ctx, b, cont, w, real, data):
    import zipfile

    ctx.hit("listings")
    names = [b.sheets[k].name for k in real]
    ctx.check(list(w.sheets) == names, f"{cont}: sheets {list(w.sheets)!r}, expected {names!r}", case=rd.describe(b, cont))
    inside = set(zipfile.ZipFile(io.BytesIO(data)).namelist())
    ctx.check(len(set(w.sheets.values())) == len(real) and set(w.sheets.values()) <= inside, f"{cont}: parts {w.sheets!r}", case=rd.describe(b, cont))


def life(ctx, r, b, cont, w, W, src, data, base, real):
    """Before opening, after closing, and opened again."""
    def refused(what, f):
        try:
            x = f()
        except Exception:
            ctx.hit("refused")
            return
        raise Violation(f"{cont}: {what} gives {x!r:.200} instead of an error", case=rd.describe(b, cont))

    refused("the list of sheets of a workbook that is not open", lambda: W(io.BytesIO(data)).sheets)
    refused("the strings of a workbook that is not open", lambda: W(io.BytesIO(data)).shared)
    refused("the styles of a workbook that is not open", lambda: W(io.BytesIO(data)).styles)
    refused("a walk over a workbook that is not open", lambda: list(W(io.BytesIO(data)).iter_worksheet(0)))
    for turn in range(r.choice([1, 2, 3])):
        if turn and r.random() < 0.6:
            # another file takes its place
            b = make(r)
            data = wb.write(b, cont)
            real = [k for k, s in enumerate(b.sheets) if s.kind == "worksheet"]
            if isinstance(src, io.BytesIO):
                src.seek(0)
                src.truncate()
                src.write(data)
            else:
                with open(src, "wb") as f:
                    f.write(data)
            ctx.hit("replaced")
        with w:
            if r.random() < 0.5:
                listing(ctx, b, cont, w, real, data)
            si = r.choice(real)
            k = Walk(ctx, w, b, cont, si, {**base, **walk_options(r, b, si)}, r.random() < 0.5)
            while k.step():
                pass
            k.judge()
            refused("a sheet beyond the last", lambda: list(w.iter_worksheet(len(real))))
            refused("a sheet that is not there", lambda: list(w.iter_worksheet("no such sheet")))
            if r.random() < 0.5:
                k = Walk(ctx, w, b, cont, si, dict(base), False)
                for _ in range(r.choice([0, 1, 3])):
                    k.step()
                k.it.close()
                ctx.hit("given_up")
        refused("a walk over a closed workbook", lambda: list(w.iter_worksheet(0)))
    wrong = wb.write(b, "xlsb" if cont == "xlsx" else "xlsx")
    if r.random() < 0.5:
        other = W(io.BytesIO(wrong))
        refused("a workbook of the other kind", other.__enter__)
    else:
        fd, path = tempfile.mkstemp(prefix="vf-c30-", dir="/tmp")
        try:
            os.write(fd, wrong)
            os.close(fd)
            other = W(path)
            refused("a workbook of the other kind", other.__enter__)
            held = [k for k in os.listdir("/proc/self/fd") if os.path.exists(f"/proc/self/fd/{k}") and os.path.samefile(f"/proc/self/fd/{k}", path)]
            ctx.check(not held, f"{cont}: a file of the other kind is still open after it was refused", case=wb.describe(b) if hasattr(wb, "describe") else None)
            ctx.hit("files_refused")
        finally:
            os.unlink(path)
    if other.zf is not None:
        other.__exit__(None, None, None)
    ctx.seen_case(data, True)
