"""Logical workbooks and two independent writers (XLSX, XLSB).

Nothing here imports rxls: these are the "client side" of every check, so the
bytes handed to the reader never come from code under test.
"""
from __future__ import annotations

import io
import random
import re
import struct
import zipfile
from dataclasses import dataclass, field
from xml.sax.saxutils import escape

# ----------------------------------------------------------------- styles ---
# (fmt_id, code-or-None, class) ; class: how Excel displays a number in it.
BUILTIN_TMP = [14, 15, 16, 17, 18, 19, 20, 21, 22, 45, 46, 47]
BUILTIN_NUM = [1, 2, 3, 4, 37, 38, 39, 40, 48]
BUILTIN_GEN = [0, 9, 10, 11, 12, 13, 49]
CUSTOM_TMP = [
    "yyyy-mm-dd", "dd.mm.yyyy hh:mm", "[h]:mm:ss", "m/d/yy", "[$-409]d-mmm-yy;@",
    'yyyy"year"mm', "hh:mm AM/PM", "mm:ss.0", "[Red]dd/mm", r"yyyy\-mm\-dd",
    r"[$-F800]dddd\,\ mmmm\ dd\,\ yyyy", "YYYY/MM/DD HH:MM:SS", "d", "h", "[mm]:ss",
    "[ss]", "mmmm", "yy", 'dd" of "mmmm;@', "hh:mm:ss.00", "s.00", "[s].00",
    "dd/mm/yyyy;0.00", "hh:mm;@", '"on "dd', "hh:mm:ss.000", '"a;b"dd', "[H]:MM", "[hh]", "[h]", r"\;yy", '"no. "0.00" at "hh',
]
CUSTOM_NUM = [
    "0.00", "#,##0.00", '0.00 "days"', r"#,##0.00\ \d", "[Red]0.00",
    '#,##0.00 "₽";[Red]\\-#,##0.00 "₽"', "0", "0.000", "[$$-409]#,##0.00",
    r"#,##0.00\ [$USD];yyyy", '0;"hh:mm"', '[Blue]#,##0.00;[Red]"dmy"0.00',
    r'_-* #,##0.00\ "₽"_-;\-* #,##0.00\ "₽"_-;_-* "-"??\ "₽"_-;_-@_-',
    '"h:m:s" 0.00', r"\y0.00", "0.00E+00", '"days; total "0.00', '0.00"d;m"',
]
CUSTOM_GEN = ["0.0", "# ?/?", "#,##0", "@", '"day "0', "0%", r"\d0", "[Red]0", "#", '0 "s"', "[$y]0", '"days; total "0', r"0\;0;yy", "[>=100]0;dd", "#,##0_);[Red](#,##0)"]


@dataclass
class Style:
    fmt_id: int
    code: str | None
    cls: str  # num | tmp | gen


@dataclass
class C:
    kind: str  # s n b e blank
    val: object = None
    style: int = 0
    form: str = ""  # s: shared|str|inline ; n: real|rk|fml ; b: plain|fml ; e: plain|fml
    lit: str | None = None  # xlsx literal for n
    formula: str | None = None
    runs: list[str] | None = None  # rich text split of val (xlsx shared / inline)


@dataclass
class Sheet:
    name: str
    rows: list[dict[int, C]]
    kind: str = "worksheet"  # or chartsheet


@dataclass
class Book:
    sheets: list[Sheet]
    styles: list[Style] = field(default_factory=lambda: [Style(0, None, "gen")])
    opts: dict = field(default_factory=dict)
    phonetic: set[str] = field(default_factory=set)


def col_name(i: int) -> str:
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


def xesc(t: str) -> str:
    """ST_Xstring escapes: a literal _xHHHH_ and characters XML cannot hold."""
    t = re.sub(r"_(?=x[0-9A-Fa-f]{4}_)", "_x005F_", t)
    return re.sub(r"[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", lambda m: f"_x{ord(m[0]):04X}_", t)


def x(t: str) -> str:
    t = xesc(t)
    return escape(t, {'"': "&quot;", "\r": "&#13;"})


def attr(t: str) -> str:
    return escape(t, {'"': "&quot;", "\r": "&#13;", "\n": "&#10;", "\t": "&#9;"})


class SST:
    def __init__(self) -> None:
        self.ix: dict = {}
        self.items: list = []

    def add(self, c: C) -> int:
        key = (c.val, tuple(c.runs) if c.runs else None)
        if key not in self.ix:
            self.ix[key] = len(self.items)
            self.items.append(c)
        return self.ix[key]


def num_lit(c: C) -> str:
    if c.lit is not None:
        return c.lit
    v = c.val
    return repr(int(v)) if float(v).is_integer() and abs(v) < 1e15 else repr(float(v))


class Spice:
    """Legal variations of the markup, drawn from their own seed (absent: never)."""

    def __init__(self, seed, salt: str) -> None:
        self.r = random.Random(f"{seed}:{salt}") if seed else None

    def __call__(self, p: float) -> bool:
        return self.r is not None and self.r.random() < p

    def text(self, val: str) -> str:
        """Escaped text with comments, instructions, references between its characters."""
        if not val or not self(0.15):
            return x(val)
        r = self.r
        out, i = [], 0
        for c in sorted(r.sample(range(len(val) + 1), min(len(val) + 1, r.choice([1, 1, 2])))):
            out.append(_frag(val, i, c))
            out.append(r.choice(["<!-- note -->", "<?pi data?>", "<!--<t>-->"]))
            i = c
        out.append(_frag(val, i, len(val)))
        return "".join(out)

    def part(self, txt: str) -> bytes:
        """One of the encodings that every XML processor reads, at times with prefixed names."""
        if self(0.08):
            txt = prefixed(txt, self.r.choice(["x", "main", "ns0", "x14", "c", "row", "_", "\u00e9l"]), self.r.choice(["r", "d3p1", "rel"]))
        if self(0.3):
            k = self.r.choice(["utf-8-sig", "utf-16", "utf-16-be", "utf-8"])
            if k == "utf-8-sig":
                return txt.encode("utf-8-sig")
            if k.startswith("utf-16"):
                txt = txt.replace('encoding="UTF-8"', 'encoding="UTF-16"', 1)
                return b"\xfe\xff" + txt.encode("utf-16-be") if k == "utf-16-be" else b"\xff\xfe" + txt.encode("utf-16-le")
            return txt.split("?>", 1)[1].lstrip().encode()
        return txt.encode()


_MARKUP = re.compile(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<![A-Z][^>]*>|</?(?![^\s<>/=]*:)(?=[^\s<>/!?])", re.S)


def prefixed(txt: str, p: str, rel: str = "r") -> str:
    """The same document with a prefix for what was the default namespace (and another one for relationships)."""
    txt = _MARKUP.sub(lambda m: m[0] + p + ":" if m[0] in ("<", "</") else m[0], txt)
    txt = txt.replace(" xmlns=", f" xmlns:{p}=", 1)
    return re.sub(r' r:id=', f" {rel}:id=", txt.replace(" xmlns:r=", f" xmlns:{rel}=", 1)) if rel != "r" and "<" + p + ":workbook" in txt else txt


def as_text(part: bytes) -> str:
    """Text of an XML part in any of the encodings of `Spice.part`, declared as UTF-8."""
    if part[:2] in (b"\xff\xfe", b"\xfe\xff"):
        return part.decode("utf-16").replace('encoding="UTF-16"', 'encoding="UTF-8"', 1)
    return part.decode("utf-8-sig")


def _frag(val: str, a: int, b: int) -> str:
    """Slice [a:b] of the text, escaped so that concatenation stays the escaped whole."""
    mark = [m.start() for m in re.finditer(r"_(?=x[0-9A-Fa-f]{4}_)", val)]
    out = []
    for i in range(a, b):
        out.append("_x005F_" if i in mark else x1(val[i]))
    return "".join(out)


def x1(ch: str) -> str:
    return escape(re.sub(r"[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", lambda m: f"_x{ord(m[0]):04X}_", ch), {'"': "&quot;", "\r": "&#13;"})


def _zip(parts: list[tuple[str, bytes]], opts: dict) -> bytes:
    bio = io.BytesIO()
    sp = Spice(opts.get("spice"), "zip")
    if sp(0.3):
        class Pipe(io.RawIOBase):
            """Not seekable: sizes and checksums go after the data of each part."""

            def writable(self):
                return True

            def write(self, b):
                return bio.write(b)

        sink: object = Pipe()
    else:
        sink = bio
    comp = zipfile.ZIP_STORED if opts.get("stored") else zipfile.ZIP_DEFLATED
    if opts.get("part_order"):
        rnd = opts["part_order"]
        parts = sorted(parts, key=lambda p: hash_mix(p[0], rnd))
    if sp(0.2):
        parts = [("xl/", b""), *parts, ("docProps/app.xml", b"<Properties/>"), ("customXml/item1.xml", b"\x00\x01junk")]
    with zipfile.ZipFile(sink, "w", comp) as z:
        for n, d in parts:
            zi = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
            c = sp.r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]) if sp(0.3) else comp
            if sp(0.1) and not opts.get("no_extra"):
                zi.extra = b"\x34\x12\x02\x00ab"
            z.writestr(zi, d, c)
        if sp(0.2):
            z.comment = b"PK a comment"
    return bio.getvalue()


def hash_mix(s: str, k: int) -> int:
    import zlib

    return zlib.crc32(f"{k}:{s}".encode())


REL_NS = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
PK_NS = "http://schemas.openxmlformats.org/package/2006/relationships"
MAIN = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"


def _sheet_targets(book: Book, ext: str):
    """[(rId, sheet, target-path-inside-xl)] in workbook order."""
    o = book.opts
    off = o.get("rid_off", 0)
    res = []
    n = len(book.sheets)
    for i, sh in enumerate(book.sheets):
        num = (n - i) if o.get("rev_files") else i + 1
        d = "worksheets" if sh.kind == "worksheet" else "chartsheets"
        if sh.kind == "worksheet" and o.get("odd_paths"):
            d = "ws/deep"
        path = f"{d}/sheet{num}.{ext}"
        if o.get("same_names"):  # one file name in a folder per sheet
            path = f"{d}/{num}/sheet.{ext}"
        res.append((f"rId{num + off}", sh, path))
    return res


MOVED = [("Styles", "Styles", "SharedStrings", "SharedStrings"), ("styles", "Styles", "SharedStrings", "sharedStrings"), ("fmt/mystyles2", "fmt/mystyles2", "data/sharedStrings7", "/xl/data/sharedStrings7"),
         ("Styles1", "../xl/./Styles1", "sharedStrings", None), ("styles", None, "t/SHAREDSTRINGS_sharedStrings", "./t/sharedstrings_sharedstrings")]


def _moved(o: dict, kind: str, ext: str):
    """(name of the part inside xl/, target of the relationship or None)."""
    if not o.get("moved"):
        return f"{kind}.{ext}", f"{kind}.{ext}"
    m = MOVED[o["moved"] % len(MOVED)][0 if kind == "styles" else 2:][:2]
    return f"{m[0]}.{ext}", m[1] and f"{m[1]}.{ext}"


def _rels(book: Book, tg, ext: str) -> bytes:
    o = book.opts
    rel = []
    for rid, sh, t in tg:
        typ = sh.kind
        target = ("/xl/" + t) if o.get("abs_targets") else t
        if o.get("dot_targets"):
            target = ("/xl/./" + t) if o.get("abs_targets") else ("../xl/" + t) if o["dot_targets"] % 2 else ("./" + t)
        rel.append(f'<Relationship Id="{rid}" Type="{REL_NS}/{typ}" Target="{attr(target)}"/>')
    extra = [("theme", f"theme/theme1.xml")]
    for k in ("styles", "sharedStrings"):
        path, target = _moved(o, k, ext)
        if target is not None:
            extra.append((k, target))
    for i, (t, p) in enumerate(extra):
        rel.append(f'<Relationship Target="{p}" Type="{REL_NS}/{t}" Id="rIdX{i}"/>')
    if o.get("rels_shuffle"):
        rel.sort(key=lambda s: hash_mix(s, o["rels_shuffle"]))
    sep = "\n  " if o.get("pretty") else ""
    return (f'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<Relationships xmlns="{PK_NS}">{sep}' + sep.join(rel) + "</Relationships>").encode()


def to_xlsx(book: Book) -> bytes:
    o = book.opts
    nl = "\n  " if o.get("pretty") else ""
    sst = SST()
    sp = Spice(o.get("spice"), "xlsx")
    hdr = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
    tg = _sheet_targets(book, "xml")
    parts: list[tuple[str, bytes]] = []

    def txt(runs, val, tag_is=False):
        ps = ' xml:space="preserve"'
        if runs and len(runs) > 1 or (runs and o.get("force_runs")):
            body = "".join(
                f'{nl}<r>{nl}<rPr><b/><sz val="11"/></rPr><t{ps}>{sp.text(r)}</t></r>' if i else f"{nl}<r><t{ps}>{sp.text(r)}</t></r>"
                for i, r in enumerate(runs)
            )
        elif o.get("cdata") and "]]>" not in val and "\r" not in val and val:
            body = f"{nl}<t><![CDATA[{xesc(val)}]]></t>"
        else:
            body = f"{nl}<t{ps}>{sp.text(val)}</t>"
        return body

    def fml(c, ref):
        """Formula element in any of its forms."""
        if c.formula is None:
            return ""
        if not sp(0.4):
            return f"<f>{x(c.formula)}</f>"
        return sp.r.choice([
            f'<f t="shared" ref="{ref}:{ref}" si="0">{x(c.formula)}</f>', '<f t="shared" si="0"/>', f'<f t="array" ref="{ref}">{x(c.formula)}</f>',
            '<f ca="1"/>', f'<f t="dataTable" ref="{ref}" dt2D="0" dtr="0" r1="A1"/>', f'<f xml:space="preserve"> {x(c.formula)}\n</f>', "<f></f>",
        ])

    def blank(ref, st):
        if not sp(0.5):
            return f"<c{ref}{st}/>"
        return sp.r.choice([
            f"<c{ref}{st}></c>", f"<c{ref}{st}><v/></c>", f"<c{ref}{st}><v></v></c>", f'<c{ref}{st} t="str"><f>A1</f><v></v></c>', f'<c{ref}{st} t="str"><v/></c>',
            f'<c{ref}{st} t="inlineStr"><is/></c>', f'<c{ref}{st} t="inlineStr"><is><t/></is></c>', f'<c{ref}{st} t="s"/>', f"<c{ref}{st}><f>A1</f></c>",
            f'<c{ref}{st} t="s"><v></v></c>', f'<c{ref}{st} t="b"/>', f'<c{ref}{st} t="n"><v/></c>', f'<c{ref}{st} t="e"/>',
        ])

    def more():
        """Attributes of the cell that say nothing about its value."""
        return sp.r.choice([' cm="1"', ' vm="1"', ' ph="1"', " cm='2' vm='3'"]) if sp(0.1) else ""

    for rid, sh, t in tg:
        if sh.kind != "worksheet":
            parts.append((f"xl/{t}", (hdr + f'<chartsheet xmlns="{MAIN}"><sheetViews><sheetView workbookViewId="0"/></sheetViews></chartsheet>').encode()))
            continue
        b = [hdr, f'<worksheet xmlns="{MAIN}" xmlns:r="{REL_NS}" xmlns:x14ac="http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac">']
        if o.get("decor"):
            b.append('<sheetPr><tabColor rgb="FF00FF00"/></sheetPr><dimension ref="A1"/><sheetViews><sheetView workbookViewId="0"><selection activeCell="A1"/></sheetView></sheetViews><sheetFormatPr defaultRowHeight="15"/><cols><col min="1" max="1" width="9"/></cols>')
        b.append(f"<sheetData>")
        no_rr = o.get("no_row_refs") and not o.get("omit_empty")
        for ri, row in enumerate(sh.rows):
            if not row and o.get("omit_empty"):
                continue
            rr = "" if no_rr else f' r="{ri + 1}"'
            if sp(0.2):
                rr += sp.r.choice([' ht="15.5" customHeight="1"', ' hidden="1" outlineLevel="1"', ' s="1" customFormat="1"', ' x14ac:dyDescent="0.25"', " thickBot='1'"])
            b.append(f'{nl}<row{rr} spans="1:9">' if not o.get("pretty") else f'{nl}<row{rr}>')
            if not row and o.get("selfclose"):
                b[-1] = f'{nl}<row{rr}/>'
                continue
            for ci in sorted(row):
                c = row[ci]
                at = f"{col_name(ci)}{ri + 1}"
                ref = f' r="{at}"'
                if o.get("no_cell_refs") and (ci == 0 or ci - 1 in row):
                    ref = ""
                st = f' s="{c.style}"' if c.style or o.get("explicit_s") else ""
                f = fml(c, at)
                st += more()
                vs = ' xml:space="preserve"' if sp(0.1) else ""
                if c.kind == "s":
                    if c.form == "shared":
                        b.append(f'{nl}<c{ref}{st} t="s">{f}<v>{sst.add(c)}</v></c>')
                    elif c.form == "str":
                        b.append(f'{nl}<c{ref} t="str"{st}>{f}<v{vs}>{sp.text(c.val)}</v>{nl}</c>')
                    else:
                        ph = '<rPh sb="0" eb="1"><t>フリガナ</t></rPh><phoneticPr fontId="1"/>' if c.val in book.phonetic else ""
                        b.append(f'{nl}<c t="inlineStr"{ref}{st}><is>{txt(c.runs, c.val)}{ph}{nl}</is></c>')
                elif c.kind == "n":
                    tn = ' t="n"' if o.get("explicit_n") else ""
                    b.append(f'{nl}<c{ref}{st}{tn}>{f}{nl}<v{vs}>{num_lit(c)}</v>{'<extLst><ext uri="u"><x14ac:v>9</x14ac:v></ext></extLst>' if sp(0.03) else ""}</c>')
                elif c.kind == "b":
                    b.append(f'{nl}<c{ref} t="b"{st}>{f}<v>{int(c.val)}</v></c>')
                elif c.kind == "e":
                    b.append(f'{nl}<c{ref} t="e"{st}>{f}<v>{x(c.val)}</v></c>')
                else:
                    b.append(nl + blank(ref, st))
            b.append(f"{nl}</row>")
        b.append("</sheetData>")
        if o.get("decor"):
            b.append('<mergeCells count="1"><mergeCell ref="A1:B1"/></mergeCells><pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/><extLst><ext uri="{x}"><v>ghost</v></ext></extLst>' if o.get("ext") else '<mergeCells count="1"><mergeCell ref="A1:B1"/></mergeCells><pageMargins left="0.7" right="0.7"/>')
        b.append("</worksheet>")
        parts.append((f"xl/{t}", sp.part("".join(b))))

    wbx = [hdr, f'<workbook xmlns="{MAIN}" xmlns:r="{REL_NS}">']
    if o.get("decor"):
        wbx.append('<fileVersion appName="xl"/><workbookPr defaultThemeVersion="1"/><bookViews><workbookView activeTab="0"/></bookViews>')
    wbx.append("<sheets>")
    for i, (rid, sh, t) in enumerate(tg):
        hid = (' state="veryHidden"' if o.get("very") else ' state="hidden"') if o.get("hidden") == i else ""
        wbx.append(f'{nl}<sheet name="{attr(sh.name)}" sheetId="{i + 7}"{hid} r:id="{rid}"/>')
    wbx.append("</sheets><calcPr calcId=\"1\"/></workbook>")

    # shared strings
    items = list(sst.items)
    sx = [hdr, f'<sst xmlns="{MAIN}" count="{len(items)}" uniqueCount="{len(items)}">']
    for c in items:
        ph = ""
        if c.val in book.phonetic:
            ph = '<rPh sb="0" eb="1"><t>フリガナ</t></rPh><phoneticPr fontId="1"/>'
        if c.val == "" and o.get("empty_si"):
            sx.append(f"{nl}<si/>")
        else:
            sx.append(f"{nl}<si>{txt(c.runs, c.val)}{ph}{nl}</si>")
    sx.append("</sst>")

    # styles
    fm, seen = [], set()
    for s in book.styles:
        if s.code is not None and s.fmt_id not in seen:
            seen.add(s.fmt_id)
            fm.append(f'<numFmt numFmtId="{s.fmt_id}" formatCode="{attr(s.code)}"/>')
    xid = "" if o.get("no_xfid") else ' xfId="0"'
    xf = "".join(
        f'{nl}<xf numFmtId="{s.fmt_id}" fontId="0" fillId="0" borderId="0"{xid} applyNumberFormat="1"><alignment horizontal="left"/></xf>'
        for s in book.styles
    )
    # formats of conditional formatting have numbers of their own
    dr = Spice(o.get("spice"), "dxf")
    dxf = "</dxf><dxf>".join(
        f'<numFmt numFmtId="{dr.r.choice([0, 2, 14, 164, 165, 166, 170, 177, *(s.fmt_id for s in book.styles)])}" formatCode="{attr(dr.r.choice(["yyyy-mm-dd", "0.00", "General", "hh:mm", "#,##0.00", "@"]))}"/>'
        for _ in range(dr.r.randint(1, 5))
    ) if dr(0.5) else ""
    stx = (
        hdr + f'<styleSheet xmlns="{MAIN}">' + (f'<numFmts count="{len(fm)}">{nl.join(fm)}</numFmts>' if fm else "")
        + '<fonts count="1"><font><sz val="11"/></font></fonts>'
        + '<cellStyleXfs count="2"><xf numFmtId="0" fontId="0" fillId="0" borderId="0"/><xf numFmtId="14" fontId="0" fillId="0" borderId="0"/></cellStyleXfs>'
        + f'<cellXfs count="{len(book.styles)}">{xf}</cellXfs>'
        + '<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles>'
        + '<dxfs count="1"><dxf><font><b/></font>' + dxf + '</dxf></dxfs></styleSheet>'
    )
    parts += [
        ("[Content_Types].xml", (hdr + '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>').encode()),
        ("_rels/.rels", (hdr + f'<Relationships xmlns="{PK_NS}"><Relationship Id="rId1" Type="{REL_NS}/officeDocument" Target="xl/workbook.xml"/></Relationships>').encode()),
        ("xl/workbook.xml", sp.part("".join(wbx))),
        ("xl/_rels/workbook.xml.rels", sp.part(_rels(book, tg, "xml").decode())),
    ]
    if items or not o.get("drop_sst"):
        parts.append((f"xl/{_moved(o, 'sharedStrings', 'xml')[0]}", sp.part("".join(sx))))
    if not (o.get("drop_styles") and len(book.styles) == 1 and book.styles[0].fmt_id == 0):
        parts.append((f"xl/{_moved(o, 'styles', 'xml')[0]}", sp.part(stx)))
    return _zip(parts, o)


# ------------------------------------------------------------------- XLSB ---
def rid(i: int) -> bytes:
    """Record id (spec number) -> raw bytes."""
    return bytes([i]) if i < 128 else bytes([i & 0x7F | 0x80, i >> 7])


def rsz(n: int) -> bytes:
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def rec(i: int, data: bytes = b"") -> bytes:
    return rid(i) + rsz(len(data)) + data


def ws(s: str | None) -> bytes:
    if s is None:
        return b"\xff\xff\xff\xff"
    e = s.encode("utf-16-le")
    return struct.pack("<I", len(e) // 2) + e


def rk_encode(v: float) -> int | None:
    """Some RK bit pattern that denotes exactly v per MS-XLSB 2.5.122, or None."""
    import math

    if v == math.floor(v) and -(2**29) <= v < 2**29 and math.copysign(1, v) * (v or 1) == (v or 1):
        return ((int(v) & 0x3FFFFFFF) << 2) | 2
    h = round(v * 100) if abs(v) < 1e9 else 2**40
    if -(2**29) <= h < 2**29 and h / 100 == v and v:
        return ((h & 0x3FFFFFFF) << 2) | 3
    (u,) = struct.unpack("<Q", struct.pack("<d", v))
    if u & 0x3FFFFFFFF == 0:
        return u >> 32
    return None


ERR_CODE = {"#NULL!": 0, "#DIV/0!": 7, "#VALUE!": 15, "#REF!": 23, "#NAME?": 29, "#NUM!": 36, "#N/A": 42, "#GETTING_DATA": 43}


def to_xlsb(book: Book) -> bytes:
    o = book.opts
    sst = SST()
    tg = _sheet_targets(book, "bin")
    parts: list[tuple[str, bytes]] = []
    noise = o.get("noise", 0)
    sp = Spice(o.get("spice"), "xlsb")

    def tokens() -> bytes:
        """Flags of formula and formula itself (never needed for the value)."""
        if not sp(0.5):
            return struct.pack("<HII", 0, 0, 0)
        r = sp.r
        rgce, rgcb = r.randbytes(r.choice([1, 3, 7, 11, 40, 200])), r.randbytes(r.choice([0, 0, 8]))
        return struct.pack("<HI", r.choice([0, 2, 0x10]), len(rgce)) + rgce + struct.pack("<I", len(rgcb)) + rgcb

    def after() -> bytes:
        """Records that follow a formula cell: shared formula, array, table."""
        if not sp(0.15):
            return b""
        r = sp.r
        return rec(r.choice([426, 427, 428]), struct.pack("<IIII", 0, 1, 0, 1) + r.randbytes(r.choice([5, 13, 130])))

    def row_hdr(ri: int) -> bytes:
        if not sp(0.4):
            return struct.pack("<IIHBBBI", ri, 0, 300, 0, 0, 0, 0)
        r = sp.r
        n = r.randint(0, 16)
        spans = b"".join(struct.pack("<II", k * 1024, k * 1024 + r.randint(0, 1023)) for k in range(n))
        return struct.pack("<IIHBBBI", ri, r.randint(0, 3), r.randint(0, 8191), r.randint(0, 3), r.choice([0, 0x10, 0x20, 0x40, 0x77]), r.randint(0, 1), n) + spans

    def full(c: C) -> bool:
        """Formulas and rich texts have no short form."""
        return c.form == "fml" or (c.kind == "s" and c.form != "shared" and (c.form == "str" or bool(c.runs and len(c.runs) > 1)))

    def rich(c: C) -> bytes:
        flags, tail = 0, b""
        if c.runs and len(c.runs) > 1:
            flags |= 1
            pos, rr = 0, []
            for x in c.runs[:-1]:
                pos += len(x.encode("utf-16-le")) // 2
                rr.append(struct.pack("<HH", min(pos, 0xFFFF), 1))
            tail += struct.pack("<I", len(rr)) + b"".join(rr)
        if c.val in book.phonetic:
            flags |= 2
            tail += ws("フリガナ") + struct.pack("<I", 0)
        return bytes([flags]) + ws(c.val) + tail

    for r_id, sh, t in tg:
        if sh.kind != "worksheet":
            parts.append((f"xl/{t}", rec(129) + rec(130)))
            continue
        b = [rec(129), rec(147, b"\0" * 23), rec(148, struct.pack("<IIII", 0, max(0, len(sh.rows) - 1), 0, 9)), rec(145)]
        for ri, row in enumerate(sh.rows):
            if noise and hash_mix(str(ri), noise) % 3 == 0:
                b.append(rec(37, b"\x01\x00\x00\x00\x02\x01") + rec(1024 + 5, b"\x07" * (hash_mix(str(ri), noise) % 300)) + rec(38))
            if not row and o.get("omit_empty"):
                continue
            b.append(rec(0, row_hdr(ri)))
            for ci in sorted(row):
                c = row[ci]
                head = struct.pack("<I", c.style & 0xFFFFFF | (1 << 24 if sp(0.15) else 0))
                # a cell next to the one before may be written without its column
                near = o.get("short_cells") and ci - 1 in row and not full(c) and hash_mix(f"{ri} {ci}", 5) % 3
                if not near:
                    head = struct.pack("<I", ci) + head
                fx = tokens()
                if sp(0.05):
                    b.append(rec(sp.r.choice([49, 50]), struct.pack("<I", sp.r.randint(0, 5))))
                if c.kind == "s":
                    if c.form == "shared":
                        b.append(rec(18 if near else 7, head + struct.pack("<I", sst.add(c))))
                    elif c.form == "str":
                        b.append(rec(8, head + ws(c.val) + fx))
                    elif c.runs and len(c.runs) > 1:  # rich text outside of the table of strings
                        b.append(rec(62, head + rich(c)))
                    else:
                        b.append(rec(17 if near else 6, head + ws(c.val)))
                elif c.kind == "n":
                    if c.form == "rk" and (k := rk_encode(float(c.val))) is not None:
                        b.append(rec(13 if near else 2, head + struct.pack("<I", k)))
                    elif c.form == "fml":
                        b.append(rec(9, head + struct.pack("<d", c.val) + fx))
                    else:
                        b.append(rec(16 if near else 5, head + struct.pack("<d", c.val)))
                elif c.kind == "b":
                    b.append(rec(10, head + bytes([int(c.val)]) + fx) if c.form == "fml" else rec(15 if near else 4, head + bytes([int(c.val)])))
                elif c.kind == "e":
                    code = bytes([ERR_CODE.get(c.val, 42)])
                    b.append(rec(11, head + code + fx) if c.form == "fml" else rec(14 if near else 3, head + code))
                else:
                    b.append(rec(12 if near else 1, head))
                if c.form == "fml" or (c.kind == "s" and c.form == "str"):
                    b.append(after())
        b.append(rec(146))
        if noise:
            b.append(rec(476, b"\0" * 48) + rec(4 + 500, b"abc"))
        b.append(rec(130))
        parts.append((f"xl/{t}", b"".join(b)))

    wbx = [rec(131), rec(128, b"\0" * 20), rec(143)]
    for i, (r_id, sh, t) in enumerate(tg):
        wbx.append(rec(156, struct.pack("<II", (2 if o.get("very") else 1) if o.get("hidden") == i else 0, i + 7) + ws(r_id) + ws(sh.name)))
    wbx += [rec(144), rec(132)]

    sx = [rec(159, struct.pack("<II", len(sst.items), len(sst.items)))]
    sx += [rec(19, rich(c)) for c in sst.items]
    sx.append(rec(160))

    fm, seen = [], set()
    for s in book.styles:
        if s.code is not None and s.fmt_id not in seen:
            seen.add(s.fmt_id)
            fm.append(rec(44, struct.pack("<H", s.fmt_id) + ws(s.code)))
    xf = lambda parent, fid: rec(47, struct.pack("<HHHHHBBHBB", parent, fid, 0, 0, 0, 0, 0, 0x1018, 1, 0))
    st = [rec(278)]
    if fm:
        st += [rec(615, struct.pack("<I", len(fm))), *fm, rec(616)]
    st += [rec(626, struct.pack("<I", 2)), xf(0xFFFF, 0), xf(0xFFFF, 14), rec(627)]
    st += [rec(617, struct.pack("<I", len(book.styles)))] + [xf(0, s.fmt_id) for s in book.styles] + [rec(618), rec(279)]

    parts += [
        ("[Content_Types].xml", b'<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'),
        ("_rels/.rels", f'<Relationships xmlns="{PK_NS}"><Relationship Id="rId1" Type="{REL_NS}/officeDocument" Target="xl/workbook.bin"/></Relationships>'.encode()),
        ("xl/workbook.bin", b"".join(wbx)),
        ("xl/_rels/workbook.bin.rels", _rels(book, tg, "bin")),
    ]
    if sst.items or not o.get("drop_sst"):
        parts.append((f"xl/{_moved(o, 'sharedStrings', 'bin')[0]}", b"".join(sx)))
    if not (o.get("drop_styles") and len(book.styles) == 1 and book.styles[0].fmt_id == 0):
        parts.append((f"xl/{_moved(o, 'styles', 'bin')[0]}", b"".join(st)))
    return _zip(parts, o)


def write(book: Book, container: str) -> bytes:
    return to_xlsx(book) if container == "xlsx" else to_xlsb(book)
