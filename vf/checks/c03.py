"""C03: wide strings, sheet-directory records and relationships round trip."""
from __future__ import annotations

import io
import struct
from xml.sax.saxutils import quoteattr

from .. import gen, wb
from ..mon import Violation

ID = "C03"
LEVEL = "exploration"
RULE = ("random and boundary Unicode texts (every plane, U+FEFF/U+FFFE starts, null, empty, up to 70000 characters) through "
        "xstr/BrtBundleSh/Relationship and through independent encoders; non-trivial when the text has a non-ASCII or special "
        "character or a neighbour string follows, distinct by text")
ASSUMPTIONS = ["texts are valid Unicode (no lone surrogates); XML attribute texts use only characters XML can hold"]

EDGE = ["", None, "a", "\ufeff", "\ufffe", "\ufeffabc", "\ufffeabc", "\U0001F600", "a\U0010FFFFb", "\x00", "a\x00b", "\ud7ff\ue000", "é" * 300, "x" * 65535, "x" * 65536,
        "\U0001F600" * 32768, "\uffff", " ", "\r\n", "\ufeff\ufeff", "\U00010000", "ab\ufeff"]


def plan(tier):
    k = 30 if tier == "thorough" else 1
    return [("edge", len(EDGE)), ("xstr", 500 * k), ("bundle", 400 * k), ("rels", 400 * k), ("planes", 17)]


def required(tier):
    return {"strings": 3000, "bundles": 300, "relationships": 1000, "planes": 17}


def text(r, xml=False):
    k = r.random()
    if not xml and k < 0.15:
        return r.choice(EDGE[2:13])
    if k < 0.3:
        return r.choice(gen.WORDS) if not xml else r.choice([w for w in gen.WORDS if ord(min(w)) >= 32 or "\x01" not in w])
    n = r.choice([0, 1, 2, 5, 20, 100])
    out = []
    for _ in range(n):
        c = r.choice([r.randint(0x20, 0x7E), r.randint(0xA0, 0x2FF), r.randint(0x3000, 0x9FFF), r.randint(0xE000, 0xFFFD), r.randint(0x10000, 0x10FFFD)] + ([r.choice([0x22, 0x26, 0x27, 0x3C, 0x3E, 0x9, 0xA, 0xD])] if True else []))
        if xml and c in (0xFFFE, 0xFFFF):
            c = 0x41
        out.append(chr(c))
    return "".join(out)


def one(ctx, seq, r):
    from rxls.biff_recs import xstr

    # written by the code, compared with the format, read back one after another
    sink = io.BytesIO()
    for s in seq:
        pos = xstr(s).dump(sink)
        if pos != sink.tell():
            raise Violation(f"xstr.dump returned {pos}, stream at {sink.tell()}")
    want = b"".join(wb.ws(s) for s in seq)
    if sink.getvalue() != want:
        raise Violation(f"xstr.dump wrote {sink.getvalue()[:24].hex()}, the format says {want[:24].hex()}", texts=seq)
    src = io.BytesIO(want + b"\xaa\xbb")
    pos = 0
    for s in seq:
        x = xstr.load(src)
        pos += len(wb.ws(s))
        if src.tell() != pos:
            raise Violation(f"xstr.load of {s!r:.80} consumed up to byte {src.tell()}, the string ends at {pos}")
        if x.s != s or x.value != (s or ""):
            raise Violation(f"xstr.load returned {x.s!r:.80} for {s!r:.80}")
        y = xstr.from_binary(wb.ws(s) + b"\x01\x02\x03")
        if y.s != s:
            raise Violation(f"xstr.from_binary returned {y.s!r:.80} for {s!r:.80}")
        z = io.BytesIO()
        xstr.from_string(s).dump(z)
        if z.getvalue() != wb.ws(s):
            raise Violation(f"xstr.from_string({s!r:.80}) dumps differently from the format")
    ctx.hit("strings", len(seq))
    ctx.hit("oracle_evaluations", 4 * len(seq))
    for s in seq:
        ctx.seen_case(("s", s), s is not None and s != "")


def case(ctx, group, r, i):
    if group == "edge":
        s = EDGE[i]
        one(ctx, [s], r)
        one(ctx, [s, "next", s, "", None, "z"], r)
    elif group == "planes":
        lo = i * 0x10000
        for part in range(0, 0x10000, 0x1000):
            t = "".join(chr(c) for c in range(lo + part, lo + part + 0x1000) if not 0xD800 <= c < 0xE000)
            one(ctx, [t, "x"], r)
        ctx.hit("planes")
    elif group == "xstr":
        one(ctx, [r.choice([text(r), text(r), None, ""]) for _ in range(r.randint(1, 10))], r)
    elif group == "bundle":
        from rxls.biff import record, scan_biff
        from rxls.biff_recs import BrtBundleSh

        st, tab = r.choice([0, 1, 2]), r.choice([1, 7, 255, 256, 65536, 0xFFFF, 2**31, 0xFFFFFFFF])
        rid, name = r.choice([f"rId{r.randint(1, 9999)}", text(r) or "r"]), text(r) or "n"
        raw = struct.pack("<II", st, tab) + wb.ws(rid) + wb.ws(name)
        for rc in (record(412, raw), next(scan_biff(io.BytesIO(wb.rec(156, raw))))):
            b = BrtBundleSh.loadr(rc)
            got = (b.hsState, b.iTabID, b.strRelID.value, b.strName.value)
            if got != (st, tab, rid, name):
                raise Violation(f"BrtBundleSh.loadr: {got!r:.300}, built from {(st, tab, rid, name)!r:.300}")
        ctx.hit("bundles")
        ctx.hit("oracle_evaluations", 2)
        ctx.seen_case(("b", st, tab, rid, name))
        ctx.sample({"state": st, "tab": tab, "rid": rid, "name": name})
    else:
        from rxls.rels import Relationship

        rels = []
        for k in range(r.randint(1, 6)):
            one_of = lambda a: "" if r.random() < 0.06 else text(r, True) or a
            rels.append((one_of(f"rId{k}"), one_of("worksheet").replace("/", "_"), one_of("t")))
        sink = io.BytesIO()
        sink.write(b'<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">')
        for a in rels:
            Relationship(*a).dump_xml(sink)
        sink.write(b"</Relationships>")
        check_scan(ctx, sink.getvalue(), rels, "dump_xml + scan_xml")
        # an independent writer: attribute order, quoting, whitespace, foreign elements
        x = ['<?xml version="1.0" encoding="UTF-8"?>\n<Relationships xmlns="p">']
        for a in rels:
            at = [f"Id={q(a[0])}", f"Type={q(r.choice(['http://x/y/', 'urn/', '']) + a[1])}", f"Target={q(a[2])}", 'TargetMode="Internal"']
            r.shuffle(at)
            x.append(r.choice(["", "\n  ", "<!-- c -->"]) + f"<Relationship {'  '.join(at)}" + r.choice(["/>", "></Relationship>"]))
        x.append("</Relationships>")
        check_scan(ctx, "".join(x).encode(r.choice(["utf-8", "utf-8", "utf-8-sig"])), rels, "scan_xml")
        ctx.seen_case(("r", tuple(rels)))


def q(s):
    return quoteattr(s, {"\n": "&#10;", "\r": "&#13;", "\t": "&#9;"})


def check_scan(ctx, data, rels, what):
    from rxls.rels import Relationship

    try:
        got = [(a.Id, a.Type, a.Target) for a in Relationship.scan_xml(io.BytesIO(data))]
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}", data=data, rels=rels) from None
    if got != rels:
        raise Violation(f"{what}: got {got!r:.400}, expected {rels!r:.400}", data=data)
    ctx.hit("relationships", len(rels))
    ctx.hit("oracle_evaluations", len(rels))
