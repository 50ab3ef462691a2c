"""C02: filtered or truncated BIFF12 scans yield exactly the complete matching records.

Monitor: an instrumented stream records every read/seek of the scanner; the
yielded records are compared with the list the stream was built from. A scanner
that keeps reading at end of file is a livelock (counted in reads, not time).
"""
from __future__ import annotations

import io
import zipfile

from .. import wb
from ..mon import Violation
from .c01 import ALL_IDS, enc, payload

ID = "C02"
LEVEL = "exploration"
RULE = ("random record streams x wanted-id sets x every cut position of the stream (all cuts for streams up to 1500 bytes, "
        "boundary-biased cuts beyond), through plain and zip-member streams; non-trivial when the cut stream still has a record "
        "to yield or to withhold, distinct by (record lengths, wanted set, cut)")
ASSUMPTIONS = ["ids and lengths follow BIFF12; the plain-Python scanner runs (the accelerated one is watched by C25)"]


class Watched(io.BytesIO):
    """Stream that notices reads after end of file."""

    LIMIT = 2000

    def __init__(self, data):
        super().__init__(data)
        self.size = len(data)
        self.reads = self.empty = 0

    def read(self, n=-1):
        d = super().read(n)
        self.reads += 1
        if not d and n != 0:
            self.empty += 1
            if self.empty > self.LIMIT:
                raise Violation(f"scan never ends: {self.empty} reads after the end of the stream", mech="livelock")
        return d


def plan(tier):
    k = 25 if tier == "thorough" else 1
    return [("cuts", 160 * k), ("filter", 400 * k), ("zip", 60 * k), ("bigcut", 40 * k), ("garbage", 300 * k), ("from", 300 * k)]


def required(tier):
    return {"cuts": 20000, "filtered_scans": 2000, "records_yielded": 20000, "partial_tails": 5000, "zip_scans": 50, "from_within": 250}


def expect(recs, cut, only):
    """Complete records among the first `cut` bytes."""
    out, pos = [], 0
    for k, d in recs:
        pos += len(enc([(k, d)]))
        if pos > cut:
            break
        if not only or k in only:
            out.append((k, d))
    return out


def scan(stream, only):
    from rxls.biff import scan_biff

    it = scan_biff(stream, only) if only is not None else scan_biff(stream)
    out = []
    for r in it:
        out.append((r.rec_id, bytes(r.data)))
        if len(out) > 100000:
            raise Violation("scan yields without end")
    return out


def run(ctx, data, recs, cut, only, stream=None):
    st = stream if stream is not None else Watched(data[:cut])
    try:
        got = scan(st, only)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"scan of a stream cut at byte {cut} of {len(data)} raised {type(e).__name__}: {e}", recs=[(hex(k), len(d)) for k, d in recs[:12]], only=only) from None
    want = expect(recs, cut, only)
    ctx.hit("oracle_evaluations")
    ctx.hit("records_yielded", len(got))
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"scan (cut {cut}/{len(data)}, only={sorted(only) if only else only}) yields {len(got)} records, expected {len(want)}; first difference at {k}: "
                        f"got {[(hex(a), len(b)) for a, b in got[k:k+2]]}, expected {[(hex(a), len(b)) for a, b in want[k:k+2]]}", recs=[(hex(k), len(d)) for k, d in recs[:12]])


def stream_of(r, n, maxlen=120):
    ids = r.sample(ALL_IDS, r.randint(1, 6)) + r.sample([0, 1, 7, 0x7F, 0x80, 0x81, 0x9C, 412, 0x192], 2)
    ids = [k for k in ids if k in _IDS]
    return [(r.choice(ids), payload(r, r.choice([0, 1, 2, r.randint(0, maxlen), 127, 128, 129]))) for _ in range(n)]


_IDS = set(ALL_IDS)


def wanted(r, recs):
    present = sorted({k for k, _ in recs})
    k = r.random()
    if k < 0.15:
        return None
    if k < 0.7:
        return set(r.sample(present, r.randint(1, len(present))))
    if k < 0.85:
        return {r.choice(present), r.choice(ALL_IDS)}
    return set(r.sample([x for x in ALL_IDS[:4000] if x not in present], 3))


def case(ctx, group, r, i):
    if group == "cuts":
        recs = stream_of(r, r.randint(1, 12))
        data = enc(recs)
        only = wanted(r, recs)
        for cut in range(len(data) + 1):
            run(ctx, data, recs, cut, only)
            ctx.hit("cuts")
            if len(enc(expect(recs, cut, None))) != cut:
                ctx.hit("partial_tails")
        ctx.evals += len(data)
        ctx.seen_case(("cuts", tuple((k, len(d)) for k, d in recs), tuple(sorted(only or ()))))
        ctx.sample({"records": [(hex(k), len(d)) for k, d in recs], "only": sorted(only or ()), "cuts": len(data) + 1})
    elif group == "filter":
        recs = stream_of(r, r.randint(1, 60), 400)
        data = enc(recs)
        for _ in range(6):
            only = wanted(r, recs)
            kind = r.choice([set, set, frozenset, list, tuple])
            run(ctx, data, recs, len(data), kind(only) if only is not None else None)
            ctx.hit("filtered_scans")
            ctx.seen_case(("f", tuple((k, len(d)) for k, d in recs[:10]), tuple(sorted(only or ()))))
    elif group == "zip":
        recs = stream_of(r, r.randint(1, 200), 3000)
        data = enc(recs)
        cut = r.choice([len(data), r.randint(0, len(data))])
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr("a", b"before" * 100)
            z.writestr("p", data[:cut])
            z.writestr("b", b"after" * 1000)
        only = wanted(r, recs)
        with zipfile.ZipFile(bio) as z, z.open("p") as st:
            run(ctx, data, recs, cut, only, st)
        ctx.hit("zip_scans")
        ctx.seen_case(("zip", len(data), cut, tuple(sorted(only or ()))))
    elif group == "bigcut":
        n = r.choice([0x3FFF, 0x4000, 0x4001, 0x10000, 0x1FFFFF, 0x200000]) if i % 4 == 0 else r.choice([0x3FFF, 0x4000, 0xFFFF, 0x10000])
        recs = [(r.choice(ALL_IDS), b"x" * r.randint(0, 5)), (r.choice(ALL_IDS), payload(r, n)), (r.choice(ALL_IDS), payload(r, r.randint(0, 9)))]
        data = enc(recs)
        head = len(enc(recs[:1]))
        full = len(enc(recs[:2]))
        for cut in sorted({head, head + 1, head + 2, head + 3, head + 4, head + 5, head + 6, full - 1, full, full + 1, full + 2, len(data), r.randint(0, len(data))}):
            for only in (None, {recs[1][0]}, {recs[2][0]}, {recs[0][0], recs[2][0]}):
                run(ctx, data, recs, min(cut, len(data)), only)
                ctx.hit("cuts")
        ctx.seen_case(("big", n, head))
    elif group == "from":
        # a stream that was read before: the scan starts where it stands
        recs = stream_of(r, r.randint(2, 30))
        k = r.randint(1, len(recs))
        data = enc(recs)
        st = Watched(data)
        st.read(len(enc(recs[:k])))
        run(ctx, data, recs[k:], len(data), wanted(r, recs), st)
        junk = r.randbytes(r.randint(1, 40))
        st = Watched(junk + data)
        st.seek(len(junk))
        run(ctx, data, recs, len(data), wanted(r, recs), st)
        ctx.hit("from_within")
        ctx.seen_case(("from", k, tuple((k, len(d)) for k, d in recs)))
    else:
        # arbitrary bytes: split by the independent decoder, same records expected
        data = r.randbytes(r.randint(0, 60))
        if r.random() < 0.5:
            data = enc(stream_of(r, 3, 20)) + data
        recs = decode(data)
        if recs is None:  # not BIFF12: nothing is specified
            ctx.hit("not_biff")
            return
        run(ctx, data, recs, len(data), wanted(r, recs) if recs else None)
        ctx.hit("garbage_streams")
        ctx.seen_case(data, bool(recs))


def decode(b):
    """Independent decoder of complete records."""
    out, p = [], 0
    while p < len(b):
        q = p + 1
        k = b[p]
        if k & 0x80:
            if q >= len(b):
                break
            if b[q] & 0x80:
                return None
            k |= b[q] << 8
            q += 1
        n = sh = 0
        ok = False
        for _ in range(4):
            if q >= len(b):
                break
            c = b[q]
            q += 1
            if sh == 21:
                n |= c << sh
                ok = not c & 0x80  # a fifth length byte is not BIFF12
                if not ok:
                    return None
                break
            n |= (c & 0x7F) << sh
            if not c & 0x80:
                ok = True
                break
            sh += 7
        if not ok or q + n > len(b):
            break
        out.append((k, b[q:q + n]))
        p = q + n
    return out
