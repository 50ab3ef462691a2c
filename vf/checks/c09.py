"""C09: a number reads as a timestamp exactly when its format displays a date or time.

Every column holds one styled number kind; its format code comes from a grammar
that knows the class of what it produces. Monitor: the result column's type and
values.
"""
from __future__ import annotations

from fractions import Fraction

import pyarrow as pa

from .. import gen, rd, wb
from ..model import MS_EPS, serial_ms
from ..mon import Violation

ID = "C09"
LEVEL = "exploration"
RULE = ("format codes from a grammar of known class (date parts, elapsed brackets, quoted/escaped/padded/bracketed decoys, extra "
        "sections), built-in ids, shuffled ids and up to 700 styles, numbers/texts/booleans under each, both containers; "
        "non-trivial = a style with a custom code or a date built-in, distinct by (code, id)")
ASSUMPTIONS = ["a custom format does not redefine a built-in id", "built-in ids outside 0-49 are locale dependent and not generated"]

LET = ["d", "m", "y", "h", "s", "D", "M", "Y", "H", "S"]
DATE = ["d", "dd", "ddd", "dddd", "m", "mm", "mmm", "mmmm", "mmmmm", "yy", "yyyy", "h", "hh", "s", "ss", "D", "DD", "M", "MM", "YY", "YYYY", "H", "HH", "S", "SS", "[h]", "[hh]", "[m]", "[mm]", "[s]", "[ss]", "[H]", "[MM]", "[hhh]"]
SEP = ["/", "-", ":", " ", ".", ",", "\\-", "\\ ", "\\/", '"."', "\\."]
BRACKETS = ["[Red]", "[Blue]", "[Magenta]", "[Cyan]", "[Yellow]", "[Color 5]", "[$-409]", "[$-F800]", "[$-x-sysdate]", "[$USD]", "[$Rs-4009]", "[$kr-41D]", "[$руб-419]", "[>=100]", "[<0]", "[$-yi-Hebr]", "[$-86012D]"]
NUM = ["0", "0.0", "0.00", "#,##0", "#,##0.00", "0.000", "0%", "0.00%", "0.00E+00", "# ?/?", "@", "#", "0000", "?0.0", "##0.0E+0", "General"]
MAXS = 2958464


def quoted(r):
    return '"' + "".join(r.choice(["d", "m", "y", "h", "s", " ", "day", "hours", "ms", ";", "/", ":", ".00", "0", "[h]", "\\", "yyyy-mm-dd", "ш", "'", "&", "<b>", "H"]) for _ in range(r.randint(0, 4))) + '"'


def decoy(r):
    k = r.random()
    if k < 0.4:
        return quoted(r)
    if k < 0.6:
        return "\\" + r.choice(LET + [" ", ";", "[", '"', "-", "\\", "."])
    if k < 0.75:
        return "_" + r.choice([")", "-", "D", "M", "k", "s", "S", " ", "d", "F", "t"])
    if k < 0.8:
        return "*" + r.choice([" ", "-", "d", "."])
    return r.choice(BRACKETS)


def date_code(r):
    out = []
    for _ in range(r.randint(0, 2)):
        out.append(decoy(r))
    for k in range(r.choice([1, 1, 2, 3, 5])):
        if k:
            out.append(r.choice(SEP))
        out.append(r.choice(DATE))
        if r.random() < 0.15:
            out.append(decoy(r))
    if r.random() < 0.2:
        out.append(r.choice([".0", ".00", ".000", " AM/PM", ";@", " a/p"]))
    c = "".join(out)
    if c.lower().startswith("general"):
        c = "d" + c
    return c


def num_code(r):
    out = [decoy(r) for _ in range(r.randint(0, 2))]
    out.append(r.choice(NUM[:-1]))
    out += [decoy(r) for _ in range(r.randint(0, 2))]
    return "".join(out)


def code(r):
    """(code, temporal?)"""
    t = r.random() < 0.5
    c = date_code(r) if t else num_code(r)
    if not t and r.random() < 0.1:
        c = r.choice(["General", "", "@", '""', "[Red]General"]) if r.random() < 0.5 else c
    for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
        c += ";" + r.choice(["", "@", date_code(r), num_code(r), "-" + num_code(r), '"d"'])
    if c == "":
        c = ";"
    return c, t


def plan(tier):
    k = 25 if tier == "thorough" else 1
    return [("codes", 900 * k), ("ids", 120 * k), ("many", 24 * k), ("known", 4), ("mixcol", 300 * k)]


def required(tier):
    return {"temporal_styles": 5000, "other_styles": 5000, "text_under_date": 1000, "bool_under_date": 1000, "builtin_ids": 500}


def verify(ctx, styles, r, opts=None):
    """One sheet: column i = numbers, texts, booleans or errors under style i."""
    n = len(styles)
    cols, rows = [], [dict() for _ in range(3)]
    for i, s in enumerate(styles):
        k = r.random()
        kind = "n" if k < 0.75 else "s" if k < 0.88 else "b"
        vals = []
        for y in range(3):
            if kind == "n":
                v = r.choice([float(r.randint(61, MAXS)), r.randint(61, MAXS) + r.choice([0.5, 0.25, 0.75]), 0.5, float(r.randint(1, 59)), 60.0])
                c = wb.C("n", v, i, r.choice(["rk", "real", "fml"]), lit=gen.literal(r, v), formula=gen.fml(r))
            elif kind == "s":
                v = r.choice(["2020-01-01", "12:30", "text", "1", "44000", "44000.5"])
                c = wb.C("s", v, i, r.choice(["shared", "inline", "str"]), formula=None)
                if c.form == "str":
                    c.formula = "A1"
            else:
                v = r.random() < 0.5
                c = wb.C("b", v, i, r.choice(["plain", "fml"]))
            vals.append(v)
            rows[y][i] = c
        cols.append((kind, vals))
    b = wb.Book([wb.Sheet("S", rows)], [wb.Style(s[0], s[1], "tmp" if s[2] else "x") for s in styles], opts or gen.opts(r))
    for cont in ("xlsx", "xlsb"):
        st, tab = rd.attempt(wb.write(b, cont))
        ctx.hit(f"reads_{cont}")
        if st == "err":
            raise Violation(f"{cont}: read failed: {type(tab).__name__}: {tab}", styles=styles[:20])
        if tab.num_columns != n or tab.num_rows != 3:
            raise Violation(f"{cont}: {tab.num_columns} x {tab.num_rows}, expected {n} x 3", styles=styles[:20])
        for i, (s, (kind, vals)) in enumerate(zip(styles, cols)):
            col = tab.column(i)
            ts = pa.types.is_timestamp(col.type)
            what = f"{cont}: style {i} of {n}, format id {s[0]} code {s[1]!r}"
            ctx.hit("oracle_evaluations")
            if ts != (s[2] and kind == "n"):
                raise Violation(f"{what}: {dict(n='numbers', s='texts', b='booleans')[kind]} read as {col.type}, "
                                f"the format displays {'a date or time' if s[2] else 'no date or time'}", values=vals, mech=f"code:{s[1]!r}")
            got = col.cast(pa.int64()).to_pylist() if ts else col.to_pylist()
            for g, v in zip(got, vals):
                if ts:
                    ok = g is not None and abs(Fraction(g) - serial_ms(v)) <= MS_EPS
                elif kind == "s":
                    ok = g == v
                else:
                    ok = g is not None and float(g) == float(v)
                if not ok:
                    raise Violation(f"{what}: value {v!r} read as {g!r} ({col.type})")
            if s[2]:
                ctx.hit("temporal_styles")
                if kind != "n":
                    ctx.hit("text_under_date" if kind == "s" else "bool_under_date")
            else:
                ctx.hit("other_styles")
            if s[1] is None:
                ctx.hit("builtin_ids")
            ctx.seen_case((s[0], s[1], kind), s[1] is not None or s[2])


def case(ctx, group, r, i):
    bi = [(k, None, True) for k in wb.BUILTIN_TMP] + [(k, None, False) for k in wb.BUILTIN_NUM + wb.BUILTIN_GEN]
    if group == "codes":
        st, used = [(0, None, False)], set()
        for _ in range(r.choice([1, 4, 10, 20])):
            fid = r.choice([r.randint(164, 200), r.randint(164, 400), r.randint(164, 0xFFFF)])
            while fid in used:
                fid += 1
            if fid > 0xFFFF:
                continue
            used.add(fid)
            c, t = code(r)
            for _ in range(r.choice([1, 1, 2])):
                st.append((fid, c, t))
        st += r.sample(bi, r.randint(0, 5))
        tail = st[1:]
        r.shuffle(tail)
        verify(ctx, st[:1] + tail, r)
        ctx.sample({"styles": [s[:2] for s in st[:5]]})
    elif group == "ids":
        st = r.sample(bi, len(bi))
        verify(ctx, st, r)
    elif group == "many":
        # more than 255 cell styles, ids sharing their low byte
        st = []
        for k in range(r.choice([260, 300, 520, 700])):
            if r.random() < 0.3:
                st.append(r.choice(bi))
            else:
                c, t = code(r)
                st.append((164 + k, c, t))
        base = r.choice([0, 14, 22, 45])
        st += [(k, '"x"0', False) for k in (256 * 5 + base, 256 * 6 + base)] + [(256 * 7 + 1, "yyyy", True), (256 * 8, "hh:mm", True)]
        verify(ctx, st, r, {})
    elif group == "known":
        st = [(0, None, False)] + [(170 + k, c, t) for k, (c, t) in enumerate([(c, True) for c in wb.CUSTOM_TMP] + [(c, False) for c in wb.CUSTOM_NUM + wb.CUSTOM_GEN])]
        verify(ctx, st, r)
    else:
        # the same column under several styles: date cells and number cells never swap
        st = [(0, None, False), (4, None, False)]
        st += [(164 + k, *code(r)) for k in range(6)] + [(22, None, True)]
        b = wb.Book([wb.Sheet("S", [{0: wb.C("n", float(r.randint(61, 60000)), r.randrange(len(st)), r.choice(["rk", "real"]))} for _ in range(12)])],
                    [wb.Style(s[0], s[1], "tmp" if s[2] else "num") for s in st], gen.opts(r))
        for cont in ("xlsx", "xlsb"):
            s_, tab = rd.attempt(wb.write(b, cont))
            if s_ == "err":
                raise Violation(f"{cont}: read failed: {tab!r}", styles=st)
            cells = [row[0] for row in b.sheets[0].rows]
            tm = [st[c.style][2] for c in cells]
            col = tab.column(0)
            if all(tm) and not pa.types.is_timestamp(col.type):
                raise Violation(f"{cont}: only dates, read as {col.type}", styles=st)
            if not all(tm) and pa.types.is_timestamp(col.type):
                raise Violation(f"{cont}: not only dates, read as {col.type}", styles=st)
            if any(tm) and not all(tm):
                for c, t, g in zip(cells, tm, col.to_pylist()):
                    if ("-" in g and ":" in g) != t:
                        raise Violation(f"{cont}: value {c.val!r} under {st[c.style]} in a mixed column is written as {g!r}", styles=st)
            ctx.hit("mixed_columns")
        ctx.seen_case(("mix", tuple(s[:2] for s in st), tuple(c.style for c in cells)))
