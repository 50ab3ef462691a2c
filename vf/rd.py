"""Running the real reader under observation."""
from __future__ import annotations

import io
import os
import tempfile
from pathlib import Path

from . import model, wb
from .mon import Violation

_TMP = None


def tmpdir() -> str:
    global _TMP
    if _TMP is None:
        import atexit
        import shutil

        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _TMP = tempfile.mkdtemp(prefix="vf-rd-", dir=base)
        atexit.register(shutil.rmtree, _TMP, True)
    return _TMP


def cleanup() -> None:
    global _TMP
    if _TMP:
        import shutil

        shutil.rmtree(_TMP, ignore_errors=True)
        _TMP = None


def read(data: bytes, *a, source: str = "bytes", **kw):
    from rxls.reader import read as rd

    if source == "bytes":
        return rd(io.BytesIO(data), *a, **kw)
    fd, p = tempfile.mkstemp(dir=tmpdir())
    os.write(fd, data)
    os.close(fd)
    try:
        if source == "path":
            return rd(p, *a, **kw)
        if source == "Path":
            return rd(Path(p), *a, **kw)
        with open(p, "rb") as f:
            return rd(f, *a, **kw)
    finally:
        os.unlink(p)


def attempt(data: bytes, *a, **kw):
    """('ok', table) | ('err', exception)"""
    try:
        return "ok", read(data, *a, **kw)
    except Exception as e:
        return "err", e


def describe(book: wb.Book, container=None, cap=6, **o) -> dict:
    return {
        "container": container, "options": {k: repr(v) for k, v in o.items()}, "writer_opts": book.opts,
        "styles": [(s.fmt_id, s.code) for s in book.styles[:20]],
        "sheets": [{"name": s.name, "rows": len(s.rows), "head": [{k: (c.kind, c.val if not isinstance(c.val, str) else c.val[:60], c.style, c.form) for k, c in r.items()} for r in s.rows[:cap]]} for s in book.sheets],
    }


def against_model(ctx, book, container, sheet=0, header=0, *, source="bytes", typing=True, data=None, **o):
    """Read and compare with the reference reader. Returns (expect, outcome)."""
    exp = model.expect(book, container, sheet, header, **o)
    if exp.kind == "skip":
        ctx.hit("outside_domain")
        return exp, None
    if data is None:
        data = wb.write(book, container)
    st, res = attempt(data, sheet, list(header) if isinstance(header, list) else header, source=source, **o)
    ctx.hit(f"reads_{container}")
    ctx.hit("oracle_evaluations")
    what = dict(describe(book, container, sheet=sheet, header=header, **o))
    if exp.kind == "err":
        ctx.hit("expected_errors")
        if st == "ok":
            raise Violation(f"{container}: expected {[e.__name__ for e in exp.err]}, got a table {res.column_names!r} x {res.num_rows}", case=what)
        if not isinstance(res, exp.err):
            raise Violation(f"{container}: expected {[e.__name__ for e in exp.err]}, got {type(res).__name__}: {res}", case=what)
        return exp, res
    if st == "err":
        import traceback

        raise Violation(f"{container}: read failed on a valid workbook: {type(res).__name__}: {res}", case=what, tb="".join(traceback.format_exception(res))[-1500:])
    try:
        res.validate(full=True)
    except Exception as e:
        raise Violation(f"{container}: invalid table: {e}", case=what) from None
    d = model.diff(exp, res, typing)
    if d:
        raise Violation(f"{container}: {d}", case=what)
    ctx.hit("cells_compared", sum(len(c) for c in exp.cols))
    ctx.hit("non_null_cells", sum(v is not None for c in exp.cols for v in c))
    return exp, res
