"""C04: RK numbers decode to the value the format assigns; encoders never change a value."""
from __future__ import annotations

import math
import struct
from fractions import Fraction

import numpy as np

from ..mon import Violation

ID = "C04"
LEVEL = "exploration"
RULE = ("RK patterns: structured and random blocks in quick, all 2^32 in thorough, against an independent decoder (scalar "
        "rational arithmetic on samples, and a separately written vector oracle for whole blocks); numbers to encode: int30, "
        "hundredths, high-30-bit doubles incl. negatives, boundaries, infinities, denormals; non-trivial = every pattern, distinct by block")
ASSUMPTIONS = ["patterns that denote a NaN must decode to a NaN (payload not compared)", "-0.0 compares equal to 0.0"]

BLK = 1 << 20


def plan(tier):
    if tier == "thorough":
        return [("all", 4096), ("scalar", 400), ("enc", 600), ("encall", 2048), ("sizes", 40)]
    return [("blocks", 48), ("scalar", 60), ("enc", 120), ("encall", 8), ("sizes", 20)]


def required(tier):
    q = {"patterns_decoded": 2**32 if tier == "thorough" else 10**7, "scalars_checked": 10000, "numbers_encoded": 10**5}
    return q




def oracle(u: np.ndarray) -> np.ndarray:
    """Vector oracle written from the format text: fX100 = bit 0, fInt = bit 1."""
    out = np.empty(u.shape, np.float64)
    isint = (u >> 1) & 1 == 1
    cents = u & 1 == 1
    iv = (u >> 2).astype(np.int64)
    iv = np.where(iv >= 2**29, iv - 2**30, iv)
    hi = (u.astype(np.uint64) >> np.uint64(2)) * np.uint64(4)
    dv = (hi * np.uint64(2**32)).view(np.float64)
    out[:] = np.where(isint, iv.astype(np.float64), dv)
    out[cents] = out[cents] / 100.0
    return out


def scalar(u: int) -> float:
    if u & 2:
        v = u >> 2
        if v >= 2**29:
            v -= 2**30
        f = Fraction(v, 100 if u & 1 else 1)
        return f.numerator / f.denominator  # correctly rounded
    (d,) = struct.unpack("<d", struct.pack("<Q", (u & 0xFFFFFFFC) << 32))
    return d / 100 if u & 1 else d


def dec(u):
    from rxls.chunk.casts import rk_to_f8

    keep = u.copy()
    with np.errstate(all="ignore"):
        got = np.asarray(rk_to_f8(u))
    if not np.array_equal(u, keep):
        raise Violation("rk_to_f8 changed its input")
    if got.dtype != np.float64 or got.shape != u.shape:
        raise Violation(f"rk_to_f8 returned {got.dtype} {got.shape} for {u.shape}")
    return got


def compare(ctx, u):
    got = dec(u)
    with np.errstate(all="ignore"):
        want = oracle(u)
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation(f"RK {int(u[k]):#010x} decodes to {got[k]!r}, the format says {want[k]!r} ({int(bad.sum())} patterns of this block)")
    ctx.hit("patterns_decoded", len(u))
    ctx.hit("oracle_evaluations", len(u))


def case(ctx, group, r, i):
    if group == "all":
        u = np.arange(i * BLK, (i + 1) * BLK, dtype=np.uint64).astype(np.uint32)
        compare(ctx, u)
        ctx.seen_case(("blk", i), n=BLK)
        return
    if group == "blocks":
        if i < 16:
            start = [0, 2**32 - BLK, 2**31 - BLK // 2, 2**30 - BLK // 2, 2**29, 3 * 2**30 - BLK // 2, 0x3FF00000, 0x40590000, 0xBFF00000, 0x7FF00000 - BLK // 2, 0xFFF00000 - BLK // 2, 0x00100000, 0x7FEFFFFC & ~0xFFFFF, 0x80000000 - BLK // 2, 0x41E00000, 0xC1E00000][i]
            u = (np.arange(BLK, dtype=np.uint64) + start).astype(np.uint32)
        else:
            u = np.frombuffer(r.randbytes(BLK), np.uint32)
        compare(ctx, u)
        ctx.seen_case(("b", i, int(u[0])), n=len(u))
        return
    if group == "scalar":
        us = [r.getrandbits(32) for _ in range(300)] + [((r.randint(-5000, 5000) & 0x3FFFFFFF) << 2) | r.choice([2, 3]) for _ in range(100)] + \
             [x for x in (0, 1, 2, 3, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0x80000002, 0x80000003, 0x7FFFFFFE, 0x7FFFFFFF, 0x7FF00000, 0xFFF00001)]
        got = dec(np.array(us, np.uint32))
        for u, g in zip(us, got):
            w = scalar(u)
            if not (g == w or (math.isnan(g) and math.isnan(w))):
                raise Violation(f"RK {u:#010x} decodes to {g!r}, the format says {w!r}")
            one = dec(np.array([u], np.uint32))[0]
            if not (one == w or (math.isnan(one) and math.isnan(w))):
                raise Violation(f"RK {u:#010x} alone decodes to {one!r}, the format says {w!r}")
        ctx.hit("scalars_checked", len(us))
        ctx.seen_case(("s", tuple(us[:4])), n=len(us))
        ctx.sample({"rk": [hex(u) for u in us[:4]], "values": [float(g) for g in got[:4]]})
        return
    from rxls.chunk.casts import f8_to_rk, i8_to_rk

    if group == "sizes":
        for n in (0, 1, 2, 3, 7, 8, 9, 1000):
            u = np.array([((r.randint(-2**29, 2**29 - 1) & 0x3FFFFFFF) << 2) | 2 for _ in range(n)], np.uint32)
            got = dec(u)
            back = np.asarray(f8_to_rk(got))
            if back.dtype != np.uint32 or not np.array_equal(oracle(back), got):
                raise Violation(f"f8_to_rk of {n} integers does not decode back")
            st = dec(np.repeat(u, 2)[::2]) if n else got  # non-contiguous input
            if not np.array_equal(st, got):
                raise Violation("rk_to_f8 of a strided array differs")
        ctx.seen_case(("n", i))
        return
    if group == "encall":
        # contiguous ranges of 30-bit integers and of hundredths
        lo = -(2**29) + i * (2**30 // 2048) if ctx.thorough else [-(2**29), -200000, 0, 2**29 - 2**19, -(2**28), 2**28, 1000000, -3 * 2**20][i]
        v = np.arange(lo, min(lo + 2**19, 2**29), dtype=np.int64)
        check_enc(ctx, f8_to_rk, v.astype(np.float64), v.astype(np.float64), "integers")
        check_enc(ctx, f8_to_rk, v / 100.0, v / 100.0, "hundredths")
        check_enc(ctx, i8_to_rk, v, v.astype(np.float64), "int64")
        ctx.seen_case(("ea", lo), n=3 * len(v))
        return
    ints = [r.choice([r.randint(-(2**29), 2**29 - 1), r.randint(-300, 300), 2**29 - 1, -(2**29), 0, -1]) for _ in range(500)]
    a = np.array(ints, np.float64)
    check_enc(ctx, f8_to_rk, a, a, "integers")
    c = np.array(ints, np.float64) / 100.0
    check_enc(ctx, f8_to_rk, c, c, "hundredths")
    hi = (np.frombuffer(r.randbytes(4000), np.uint64) >> np.uint64(34)) << np.uint64(34)
    d = np.concatenate([hi.view(np.float64), np.array([1e300, -1e300, 2.0**29, -(2.0**29) - 1, 2.0**31, -(2.0**31), 2.0**32, 1e10, -1e10, 5368709.12, -5368709.12, math.inf, -math.inf, 0.5, -0.25, 2.0**-1000], np.float64)])
    d = ((d.view(np.uint64) >> np.uint64(34)) << np.uint64(34)).view(np.float64)
    d = d[~np.isnan(d)]
    check_enc(ctx, f8_to_rk, d, d, "doubles with 34 zero low bits")
    mix = np.concatenate([a, c, d])
    order = np.array(r.sample(range(len(mix)), len(mix)))
    check_enc(ctx, f8_to_rk, mix[order], mix[order], "mixed array")
    for dt in (np.int64, np.int32):
        v = np.array(ints, dt)
        check_enc(ctx, i8_to_rk, v, v.astype(np.float64), dt.__name__)
    for dt in (np.uint64, np.uint32):
        v = np.array([abs(x) % 2**29 for x in ints], dt)
        check_enc(ctx, i8_to_rk, v, v.astype(np.float64), dt.__name__)
    ctx.seen_case(("e", tuple(ints[:6])), n=4 * len(ints) + len(d))


def check_enc(ctx, fn, arg, want, what):
    with np.errstate(all="ignore"):
        enc = np.asarray(fn(arg.copy()))
        if enc.dtype != np.uint32 or enc.shape != arg.shape:
            raise Violation(f"encoding {what} returned {enc.dtype} {enc.shape}")
        got = oracle(enc)
    bad = got != want
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation(f"{what}: {want[k]!r} is encoded as {int(enc[k]):#010x}, which denotes {got[k]!r} ({int(bad.sum())} of {len(arg)})")
    rt = dec(enc)
    if not np.array_equal(rt, want):
        k = int(np.argmax(rt != want))
        raise Violation(f"{what}: {want[k]!r} encoded and decoded is {rt[k]!r}")
    ctx.hit("numbers_encoded", len(arg))
    ctx.hit("oracle_evaluations", len(arg))
