"""C01: BIFF12 records survive a write/scan round trip, byte-exact to the format.

Monitor: every record/stream handed to the real `record`/`dump`/`scan_biff` is
judged by an independent encoder (vf.wb.rid/rsz) and by comparison with the
list of (id, payload) it was made from.
"""
from __future__ import annotations

import io
import random

from .. import wb
from ..biff_names import NAMES
from ..mon import Violation

ID = "C01"
LEVEL = "exploration"
RULE = ("all 16512 raw record ids, every payload length around each 7-bit length boundary, and random record "
        "sequences; a case is non-trivial when at least one record went through dump and scan, distinct by (id set, lengths)")
ASSUMPTIONS = ["payload lengths up to 2^28-1 are the format's limit; random lengths up to 2^24 are executed in quick, 2^24+1 in thorough",
               "the record numbers are those listed in vf/biff_names.py (written down from the tree and reviewed against the format's list)",
               "the plain-Python scanner runs (the accelerated one is watched by C25)"]

# raw id = low 7 bits | 0x80 in the first byte, next 7 bits in the second byte
ALL_IDS = list(range(0x80)) + [(hi << 8) | 0x80 | lo for hi in range(0x80) for lo in range(0x80)]

EDGE = [0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x3FFE, 0x3FFF, 0x4000, 0x4001, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001,
        0x1FFFFE, 0x1FFFFF, 0x200000, 0x200001, 0x200080]

# a few record numbers of the format ([MS-XLSB] 2.3), as spec numbers
SPEC = {"BrtRowHdr": 0, "BrtCellBlank": 1, "BrtCellRk": 2, "BrtCellError": 3, "BrtCellBool": 4, "BrtCellReal": 5, "BrtCellSt": 6,
        "BrtCellIsst": 7, "BrtFmlaString": 8, "BrtFmlaNum": 9, "BrtFmlaBool": 10, "BrtFmlaError": 11, "BrtSSTItem": 19,
        "BrtFmt": 44, "BrtXF": 47, "BrtBeginSheet": 129, "BrtEndSheet": 130, "BrtBeginBook": 131, "BrtEndBook": 132,
        "BrtBeginSheetData": 145, "BrtEndSheetData": 146, "BrtBundleSh": 156, "BrtBeginSst": 159, "BrtEndSst": 160,
        "BrtBeginCellXFs": 617, "BrtEndCellXFs": 618, "BrtBeginFmts": 615, "BrtEndFmts": 616,
        "BrtBeginBundleShs": 143, "BrtEndBundleShs": 144, "BrtBeginStyleSheet": 278, "BrtWsDim": 148, "BrtWsProp": 147}


def raw(spec: int) -> int:
    return spec if spec < 0x80 else (spec & 0x7F) | 0x80 | (spec >> 7) << 8


def spec_bytes(raw_id: int) -> bytes:
    return bytes([raw_id]) if raw_id < 0x80 else bytes([raw_id & 0xFF, raw_id >> 8])


def enc(recs) -> bytes:
    return b"".join(spec_bytes(i) + wb.rsz(len(d)) + d for i, d in recs)


def plan(tier):
    k = 40 if tier == "thorough" else 1
    return [("ids", 129), ("edges", len(EDGE)), ("names", 8), ("rand", 600 * k), ("shared", 150 * k), ("sizes", 96 * k if tier == "quick" else 400), ("big", 8 if tier == "thorough" else 2)]


def required(tier):
    return {"ids_round_tripped": len(ALL_IDS), "records_scanned": 30000, "names_checked": 800, "spec_names_checked": 800, "any_size": 96}




def roundtrip(ctx, recs, pieces=None):
    """dump one by one, compare bytes, scan back, compare."""
    from rxls.biff import record, scan_biff

    want = enc(recs)
    sink = io.BytesIO()
    for i, d in recs:
        if pieces and d:
            cut = sorted(pieces.sample(range(len(d) + 1), min(2, len(d))))
            r = record.from_data(i, *[d[a:b] for a, b in zip([0, *cut], [*cut, len(d)])])
        else:
            r = record.from_data(i, d) if d else record.from_data(i)
        if r.is_empty != (not d):
            raise Violation(f"is_empty is {r.is_empty} on a record of {len(d)} bytes", mech="from_data")
        if r.rec_id != i or bytes(r.data) != d or r.rec_sz != len(d):
            raise Violation(f"record.from_data({i:#x}, {len(d)} bytes) holds id {r.rec_id:#x} and {r.rec_sz} bytes", mech="from_data")
        before = sink.tell()
        pos = r.dump(sink)
        if sink.tell() - before != len(enc([(i, d)])):
            raise Violation(f"record {i:#x} of {len(d)} bytes dumped as {sink.tell() - before} bytes, the format has {len(enc([(i, d)]))}", mech="dump")
        if pos != sink.tell():
            raise Violation(f"dump returned {pos}, stream is at {sink.tell()}")
        if bytes(r.as_binary()) != enc([(i, d)]):
            raise Violation(f"as_binary of record {i:#x} ({len(d)} bytes) is {bytes(r.as_binary())[:8].hex()}, the format says {enc([(i, d)])[:8].hex()}")
    got = sink.getvalue()
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"dumped stream differs from the format at byte {k}: {got[k:k+8].hex()} != {want[k:k+8].hex()}", ids=[i for i, _ in recs[:8]], sizes=[len(d) for _, d in recs[:8]])
    back = [(r.rec_id, bytes(r.data)) for r in scan_biff(io.BytesIO(want))]
    ctx.hit("records_scanned", len(back))
    ctx.hit("oracle_evaluations", len(recs))
    if back != recs:
        k = next((k for k, (a, b) in enumerate(zip(back, recs)) if a != b), min(len(back), len(recs)))
        raise Violation(f"scan returned {len(back)} records of {len(recs)}; first difference at {k}: got {[(hex(a), len(b)) for a, b in back[k:k+2]]}, expected {[(hex(a), len(b)) for a, b in recs[k:k+2]]}")
    ctx.hit("round_trips")


def payload(r, n):
    if n <= 4096:
        return r.choice([r.randbytes(n), bytes(n), b"\xff" * n, b"\x80" * n])
    unit = r.randbytes(257)
    return (unit * (n // 257 + 1))[:n]


def case(ctx, group, r, i):
    from rxls.biff import dump_sz

    if group == "ids":
        ids = ALL_IDS[i * 128: i * 128 + 128]
        recs = [(k, payload(r, r.choice([0, 1, 3, 127, 128, 130]))) for k in ids]
        r.shuffle(recs)
        roundtrip(ctx, recs)
        ctx.hit("ids_round_tripped", len(ids))
        for k in ids:
            ctx.seen_case(("id", k))
    elif group == "edges":
        for n in {max(0, EDGE[i] + d) for d in (-1, 0, 1)} if EDGE[i] < 100000 or ctx.thorough else {EDGE[i]}:
            if bytes(dump_sz(n)) != wb.rsz(n):
                raise Violation(f"dump_sz({n:#x}) = {bytes(dump_sz(n)).hex()}, the format says {wb.rsz(n).hex()}")
            ids = r.sample(ALL_IDS, 2)
            roundtrip(ctx, [(ids[0], b""), (ids[1], payload(r, n)), (r.choice(ALL_IDS), b"tail")])
            ctx.seen_case(("len", n))
        # sizes without payload: arithmetic only, up to the format's limit
        for _ in range(4000):
            n = r.choice([r.getrandbits(7), r.getrandbits(14), r.getrandbits(21), r.getrandbits(28)])
            if bytes(dump_sz(n)) != wb.rsz(n):
                raise Violation(f"dump_sz({n:#x}) = {bytes(dump_sz(n)).hex()}, the format says {wb.rsz(n).hex()}")
        ctx.hit("sizes_checked", 4000)
    elif group == "names":
        from rxls.biff import record
        from rxls.biff_enum import BIFF_ENUM

        names = sorted(BIFF_ENUM)
        if i == 0:
            for nm, sp in SPEC.items():
                r_ = record.from_data(nm, b"x")
                if r_.rec_id != raw(sp) or r_.rec_name != nm:
                    raise Violation(f"record by name {nm}: id {r_.rec_id} named {r_.rec_name!r}, the format says {raw(sp)}")
                ctx.hit("spec_names_checked")
        for nm in names[i::8]:
            rr = record.from_data(nm, b"\x01\x02")
            if rr.rec_name != nm:
                raise Violation(f"record created as {nm} reports the name {rr.rec_name!r}")
            if nm in NAMES:
                ctx.hit("spec_names_checked")
                if rr.rec_id != raw(NAMES[nm]):
                    raise Violation(f"record created as {nm} has id {rr.rec_id:#x}, the format says {raw(NAMES[nm]):#x} (record {NAMES[nm]})")
            if rr.rec_id != BIFF_ENUM[nm] or rr.rec_id not in _IDS:
                raise Violation(f"record created as {nm} has id {rr.rec_id:#x}, which is not a BIFF12 record id")
            roundtrip(ctx, [(rr.rec_id, b"\x01\x02")])
            ctx.hit("names_checked")
            ctx.seen_case(("name", nm))
    elif group == "rand":
        n = r.choice([1, 2, 5, 20, 80])
        recs = []
        for _ in range(n):
            ln = r.choice([0, 0, 1, 5, r.randint(0, 300), r.choice([0x7F, 0x80, 0x81]), r.choice(EDGE[:15]) if r.random() < 0.2 else 7])
            recs.append((r.choice(ALL_IDS) if r.random() < 0.6 else r.choice([0, 7, 19, 0x7F, 0x80, 0x81, 0xFF, 0x180, 0x1FF, 0x7FFF, 0x7F80, 412])
                         , payload(r, ln)))
        recs = [(k, d) for k, d in recs if k in _IDS]
        roundtrip(ctx, recs, pieces=r)
        ctx.seen_case(tuple((k, len(d)) for k, d in recs), bool(recs))
        ctx.sample({"records": [(hex(k), len(d)) for k, d in recs[:6]]})
    elif group == "sizes":
        # one long record of any length (bits of its size in every byte), between short ones
        n = r.randint(1, 2**r.choice([14, 16, 18, 20, 21, 22, 23, 23, 24]) - 1)
        roundtrip(ctx, [(r.choice(ALL_IDS), b"head"), (r.choice(ALL_IDS), payload(r, n)), (r.choice(ALL_IDS), b"tail")])
        ctx.hit("any_size")
        ctx.seen_case(("len", n))
    elif group == "shared":
        # several streams scanned interleaved: scans have no shared state
        from rxls.biff import scan_biff

        sets = [[(r.choice(ALL_IDS), payload(r, r.randint(0, 200))) for _ in range(r.randint(1, 20))] for _ in range(3)]
        its = [scan_biff(io.BytesIO(enc(s))) for s in sets]
        outs = [[] for _ in sets]
        live = [0, 1, 2]
        while live:
            k = r.choice(live)
            try:
                x = next(its[k])
                outs[k].append((x.rec_id, bytes(x.data)))
            except StopIteration:
                live.remove(k)
        if outs != sets:
            raise Violation("interleaved scans of three streams mix their records")
        ctx.hit("records_scanned", sum(map(len, sets)))
        ctx.seen_case(tuple(len(s) for s in sets) + (i,))
    else:
        n = (0x200000 + r.randint(0, 200)) if not ctx.thorough else r.choice([0x3FFFFF, 0x400000, 0x1000000, 0xFFFFFF, 0x1000001])
        roundtrip(ctx, [(0, b"a"), (r.choice(ALL_IDS), payload(r, n)), (0x19C, b"z")])
        ctx.seen_case(("big", n))


_IDS = set(ALL_IDS)
