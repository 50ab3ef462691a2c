"""C19: a damaged sheet or failing callback raises; it never yields a partial table.

Fault enumeration: every fault point of a small workbook is tried in turn, and
the outcome must be an exception or the table of the undamaged read. The harness
watchdog turns a read that never returns into a violation.
"""
from __future__ import annotations

import io
import random
import zipfile

from .. import gen, rd, wb
from ..mon import Violation
from .c08 import compare

ID = "C19"
LEVEL = "fault_enumeration"
RULE = ("small random workbooks; for each, the sheet and shared-strings parts cut at every byte (container rebuilt), bytes of every part "
        "altered in the container so that its checksum fails, an I/O error or end of stream at every read call of the caller's stream, and "
        "each of 12 exception classes at every null-predicate and row-callback call; large sheets at boundary-biased points; non-trivial "
        "when the fault was reached, distinct by workbook, container and fault point")
ASSUMPTIONS = ["the undamaged read is right (decided by C06-C18)", "a cut part is re-wrapped in a container with a valid checksum; checksum failures are of CRC-32"]
EXHAUSTIVE = {}


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class FalsyBoom(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


EXC = [ValueError("x"), KeyError(1), IndexError("i"), StopIteration(), StopAsyncIteration(), GeneratorExit(), KeyboardInterrupt(), SystemExit(0), Boom(), BaseBoom("b"), EOFError(), FalsyBoom()]
IOE = [OSError(5, "injected"), OSError(5, "injected"), TimeoutError("t"), ConnectionResetError("c"), PermissionError(13, "p"), EOFError(), Boom("io"), KeyboardInterrupt()]


def plan(tier):
    k = 12 if tier == "thorough" else 1
    return [("cut", 40 * k), ("flip", 40 * k), ("io", 40 * k), ("call", 48 * k), ("bigcut", 8 * k, 4), ("bigcall", 4 * k, 4)]


def required(tier):
    return {"cuts": 15000, "flips": 6000, "io_faults": 600, "call_faults": 2500, "raised": 20000, "equal_to_undamaged": 300,
            "cut_xlsx_sheet": 2000, "cut_xlsb_sheet": 2000, "cut_xlsx_sst": 300, "cut_xlsb_sst": 150}


def parts_of(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(n, z.read(n)) for n in z.namelist()]


def rezip(parts, comp=zipfile.ZIP_STORED):
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w", comp) as z:
        for n, d in parts:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), d, comp)
    return bio.getvalue()


def role(n):
    return "sheet" if "/sheet" in n and n.startswith("xl/w") else "sst" if "haredStrings" in n else None


def attempt(src, header, o):
    from rxls.reader import read

    try:
        return "ok", read(src, 0, header, **o)
    except Violation:
        raise
    except BaseException as e:
        return "err", e


def judge(ctx, base, st, got, msg, what):
    ctx.hit("oracle_evaluations")
    if st == "err":
        ctx.hit("raised")
        return
    if not got.equals(base):
        d = compare(base, got)
        if d:
            raise Violation(f"{msg}: the read returned another table (undamaged / damaged: {d})", case=what)
    try:
        got.validate(full=True)
    except Exception as e:
        raise Violation(f"{msg}: invalid table: {e}", case=what) from None
    ctx.hit("equal_to_undamaged")


def small(r, n=None):
    b = gen.book(r, nrows=n or r.choice([1, 2, 3, 4]), cols=gen.col_set(r, r.choice([1, 2, 3])), nsheets=1, empty_rows=r.random() < 0.5)
    # keep parts short: faults are tried at every byte
    for s in b.sheets:
        for row in s.rows:
            for c in row.values():
                if c.kind == "s" and len(c.val) > 60:
                    c.val, c.runs = c.val[:20].strip() or "w", None
    b.phonetic = set()
    b.styles = b.styles[:40]
    if any(c.style >= len(b.styles) for s in b.sheets for row in s.rows for c in row.values()):
        for s in b.sheets:
            for row in s.rows:
                for c in row.values():
                    c.style = min(c.style, len(b.styles) - 1)
    b.opts["odd_paths"] = r.random() < 0.3
    return b


def options(r):
    o: dict = {}
    if r.random() < 0.5:
        o["take_rows_non_empty"] = True
    if r.random() < 0.3:
        o["conflict_resolve"] = r.choice(["all", "numeric", "temporal"])
    if r.random() < 0.2:
        o["skip_rows"] = 1
    if r.random() < 0.2:
        o["skip_cols"] = [r.choice([0, 1, 2])]
    return r.choice([0, 0, 1]), o


def book_and_base(ctx, r, cont, n=None):
    while True:
        b = small(r, n) if n is None or n < 50 else gen.book(r, nrows=n, cols=gen.col_set(r, 4), nsheets=1)
        header, o = options(r)
        data = wb.write(b, cont)
        st, base = attempt(io.BytesIO(data), header, o)
        if st == "ok":
            return b, data, header, o, base


def case(ctx, group, r, i):
    cont = ("xlsx", "xlsb")[i % 2]
    b, data, header, o, base = book_and_base(ctx, r, cont, n={"bigcut": 700, "bigcall": 300}.get(group))
    what = rd.describe(b, cont, header=header, **o)
    ctx.sample(what, cap=2)
    if group in ("cut", "bigcut"):
        parts = parts_of(data)
        for k, (name, d) in enumerate(parts):
            ro = role(name)
            if not ro:
                continue
            if group == "cut":
                at = list(range(len(d)))
            else:
                near = [x + e for x in range(0, len(d), 2**14) for e in (-3, -2, -1, 0, 1, 2, 3)]
                at = sorted({x for x in r.sample(near, min(30, len(near))) + [r.randrange(len(d)) for _ in range(20)] + list(range(len(d) - 12, len(d))) if 0 <= x < len(d)})
            for c in at:
                dmg = rezip([*parts[:k], (name, d[:c]), *parts[k + 1:]])
                st, got = attempt(io.BytesIO(dmg), header, o)
                judge(ctx, base, st, got, f"{cont}: {name} cut to {c} of {len(d)} bytes", what)
                ctx.hit("cuts")
                ctx.hit(f"cut_{cont}_{ro}")
                ctx.seen_case((ID, i, group, name, c, ctx.seed))
    elif group == "flip":
        stored = r.random() < 0.5
        data = rezip(parts_of(data), zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED)
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            infos = z.infolist()
        for inf in infos:
            if not inf.filename.startswith("xl/") or "theme" in inf.filename or "calcChain" in inf.filename:
                continue
            h = inf.header_offset
            off = h + 30 + int.from_bytes(data[h + 26:h + 28], "little") + int.from_bytes(data[h + 28:h + 30], "little")
            at = range(off, off + inf.compress_size)
            if len(at) > 150:
                at = sorted(r.sample(at, 130)) + list(at[-20:])
            for p in at:
                dmg = bytearray(data)
                dmg[p] ^= r.choice([1 << r.randrange(8), r.randint(1, 255)])
                st, got = attempt(io.BytesIO(bytes(dmg)), header, o)
                judge(ctx, base, st, got, f"{cont}: byte {p - off} of {inf.filename} altered ({'stored' if stored else 'deflated'})", what)
                ctx.hit("flips")
                ctx.seen_case((ID, i, group, inf.filename, p, dmg[p], ctx.seed))
    elif group == "io":
        data = rezip(parts_of(data), r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        for mode in ("error", "eof", "seek"):
            k = 0
            while True:
                s = Faulty(data, mode, k, r.choice(IOE))
                st, got = attempt(s, header, o)
                if not s.fired:
                    judge(ctx, base, st, got, f"{cont}: stream without fault", what)
                    ctx.check(st == "ok", f"{cont}: a stream without fault is refused: {got!r}", case=what)
                    break
                judge(ctx, base, st, got, f"{cont}: {mode} at stream call {k}", what)
                ctx.hit("io_faults")
                ctx.seen_case((ID, i, group, mode, k, ctx.seed))
                k += 1
    else:
        for which in ("null_values", "row_callback"):
            total = Counted(which, None, None)
            st, got = attempt(io.BytesIO(data), header, o | {which: total})
            judge(ctx, base, st, got, f"{cont}: {which} that does nothing", what)
            ctx.check(st == "ok", f"{cont}: {which} that does nothing makes the read fail: {got!r}", case=what)
            n = total.calls
            at = range(n) if n <= 60 else sorted({0, 1, n - 1, n - 2, *r.sample(range(n), 25)})
            for k in at:
                for e in (EXC if n < 12 else r.sample(EXC, 3)):
                    f = Counted(which, k, e)
                    st, got = attempt(io.BytesIO(data), header, o | {which: f})
                    judge(ctx, base, st, got, f"{cont}: {type(e).__name__} from {which} at call {k} of {n}", what)
                    if f.fired and st == "ok":
                        raise Violation(f"{cont}: {type(e).__name__} raised by {which} at call {k} of {n} was swallowed", case=what)
                    ctx.hit("call_faults", bool(f.fired))
                    ctx.hit(f"{which}_faults", bool(f.fired))
                    ctx.seen_case((ID, i, group, which, k, type(e).__name__, ctx.seed), bool(f.fired))


class Counted:
    def __init__(self, which, at, exc):
        self.calls, self.at, self.exc, self.fired, self.which = 0, at, exc, False, which

    def __call__(self, *a):
        k = self.calls
        self.calls += 1
        if k == self.at:
            self.fired = True
            raise self.exc
        return False


class Faulty(io.BytesIO):
    """Stream that fails at its k-th read (or seek) once."""

    def __init__(self, data, mode, at, exc):
        super().__init__(data)
        self.mode, self.at, self.exc, self.n, self.fired = mode, at, exc, 0, False

    def _hit(self):
        k = self.n
        self.n += 1
        if k == self.at:
            self.fired = True
            return True
        return False

    def read(self, n=-1):
        if self.mode != "seek" and self._hit():
            if self.mode == "eof":
                return b""
            raise self.exc
        return super().read(n)

    def seek(self, *a):
        if self.mode == "seek" and self._hit():
            raise self.exc
        return super().seek(*a)
