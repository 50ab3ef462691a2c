"""C18: the requested sheet, and only it, is read."""
from __future__ import annotations

import io
import zipfile

from .. import gen, rd, wb
from ..mon import Violation

ID = "C18"
LEVEL = "exploration"
RULE = ("workbooks of 1-12 sheets whose every cell names its sheet, with shuffled/offset relationship ids, renamed, reordered and "
        "relocated parts, absolute targets, chart/dialog/macro sheets among them, hidden and very hidden sheets, special names; every sheet selected "
        "by name and by position, plus absent names, out-of-range positions and non-workbooks, both containers; non-trivial when the "
        "workbook has at least two sheets, distinct by layout and selection")
ASSUMPTIONS = ["positions count worksheets only, in workbook order", "sheet names differ (Excel forbids repeats)"]
NAMES = gen.SHEET_NAMES + ["Sheet10", "Sheet2", "SHEET3", "rId1", "xl/worksheets/sheet1.xml", "..", "'q'", "-1", "2", "True", "é", "e\u0301", "名前", "x\ty", "&amp;", "&#65;", "<", "sheet"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("books", 900 * k), ("reject", 300 * k), ("swap", 300 * k)]


def required(tier):
    return {"selections": 6000, "by_name": 2000, "by_index": 2000, "missing": 1500, "not_workbook": 200}


def layout(r):
    n = r.choice([1, 2, 2, 3, 3, 5, 12])
    names = r.sample(NAMES, n)
    sheets = []
    for k, nm in enumerate(names):
        kind = "worksheet" if r.random() < 0.8 or (k == n - 1 and not any(s.kind == "worksheet" for s in sheets)) else r.choice(["chartsheet", "dialogsheet", "xlMacrosheet"])
        rows = [] if kind != "worksheet" else [{c: wb.C("s", f"{nm}|{y}|{c}", 0, r.choice(["shared", "inline", "str"])) if r.random() < 0.6 else wb.C("n", float(k * 1000 + y * 10 + c), 1, "rk") for c in range(r.choice([1, 3]))} for y in range(r.choice([1, 1, 3]))]
        sheets.append(wb.Sheet(nm, rows, kind))
    o = gen.opts(r)
    if r.random() < 0.3:
        o["hidden"] = r.randrange(n)
        o["very"] = r.random() < 0.5
    return wb.Book(sheets, [wb.Style(0, None, "gen"), wb.Style(4, None, "num")], o)


def select(ctx, b, cont, data, sel, source):
    exp, _ = rd.against_model(ctx, b, cont, sel, 0, data=data, source=source)
    ctx.hit("selections")
    ctx.hit("by_name" if isinstance(sel, str) else "by_index")
    if exp.kind == "err":
        ctx.hit("missing")
    ctx.seen_case((data, sel), len(b.sheets) > 1)


def case(ctx, group, r, i):
    if group == "books":
        b = layout(r)
        ws = [s for s in b.sheets if s.kind == "worksheet"]
        for cont in ("xlsx", "xlsb"):
            data = wb.write(b, cont)
            src = r.choice(["bytes", "path", "Path", "file"])
            for k, s in enumerate(ws):
                select(ctx, b, cont, data, s.name, src)
                select(ctx, b, cont, data, k, src)
            absent = [len(ws), len(ws) + 5, -1, -len(ws), 10**9, "", "no such", ws[0].name + " ", ws[0].name.upper() + "x", "Sheet1x"]
            absent += [s.name for s in b.sheets if s.kind != "worksheet"]
            for sel in r.sample(absent, 4):
                if isinstance(sel, str) and any(s.name == sel for s in ws):
                    continue
                select(ctx, b, cont, data, sel, src)
        ctx.sample({"sheets": [(s.name, s.kind) for s in b.sheets], "opts": b.opts})
    elif group == "swap":
        # the same parts under another directory order: names follow the directory, not the files
        b = layout(r)
        for cont in ("xlsx", "xlsb"):
            b.sheets = r.sample(b.sheets, len(b.sheets))
            if b.opts.get("hidden") is not None:
                b.opts["hidden"] = r.randrange(len(b.sheets))
            data = wb.write(b, cont)
            ws = [s for s in b.sheets if s.kind == "worksheet"]
            for k, s in enumerate(ws):
                select(ctx, b, cont, data, s.name, "bytes")
                select(ctx, b, cont, data, k, "bytes")
    else:
        b = layout(r)
        cont = r.choice(["xlsx", "xlsb"])
        data = wb.write(b, cont)
        k = r.choice(["nowb", "notzip", "empty", "othername", "trunc"])
        if k == "notzip":
            bad = r.choice([b"", b"hello", r.randbytes(500), b"PK\x03\x04" + r.randbytes(100), b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + bytes(2000)])
        elif k == "trunc":
            bad = data[: r.randint(0, len(data) - 30)]
        else:
            bio = io.BytesIO()
            with zipfile.ZipFile(io.BytesIO(data)) as z, zipfile.ZipFile(bio, "w") as w:
                if k != "empty":
                    for n in z.namelist():
                        if n.startswith("xl/workbook."):
                            if k == "nowb":
                                continue
                            w.writestr(r.choice(["word/document.xml", "xl/Workbook.xml", "xl/workbook", "workbook.xml", "xl/workbook.bin.bak", "XL/WORKBOOK.BIN"]), z.read(n))
                        else:
                            w.writestr(n, z.read(n))
            bad = bio.getvalue()
        st, res = rd.attempt(bad, source=r.choice(["bytes", "path"]))
        ctx.hit("oracle_evaluations")
        ctx.hit("not_workbook")
        if st == "ok":
            raise Violation(f"a file that is not a workbook ({k}) was read as {res.column_names!r} x {res.num_rows}", data=bad)
        ctx.seen_case(bad)
