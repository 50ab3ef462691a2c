"""C17: exactly the error texts and user-declared null texts become null."""
from __future__ import annotations

import functools

from .. import gen, rd, wb
from ..model import ERRORS
from ..mon import Violation

ID = "C17"
LEVEL = "exploration"
RULE = ("sheets of texts among which null texts (error texts, declared texts, predicate texts, look-alikes, digit texts equal to "
        "shared-string indices) sit in any cell incl. the very first, header and filter columns, shared/inline/formula storage, with "
        "windows, headers, and filters, both containers; non-trivial when at least one text is nulled, distinct by sheet and options")
ASSUMPTIONS = ["error texts are the documented English and Russian spellings", "texts carry no surrounding whitespace"]
LOOK = ["#n/a", "#N/A!", " #N/A x", "N/A", "#REF", "#DIV/0", "ref!", "#NULL", "#ЗНАЧ", "0", "1", "2", "3", "10", "-", "null", "NULL", "none", "n/d", "", "б/н", "null ", "nan"]
LOOK = [x.strip() for x in LOOK if x.strip()]


class Empty(list):
    """A predicate that is an empty collection too."""

    def __init__(self, f):
        self.f = f

    def __call__(self, s):
        return self.f(s)


class Falsy:
    """A predicate without truth value of its own, equal to anything."""

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return False

    def __eq__(self, o):
        return True

    __hash__ = None

    def __call__(self, s):
        return self.f(s)


class Method:
    def __init__(self, f):
        self.f = f

    def ask(self, s):
        return self.f(s)

    def __contains__(self, s):
        return not self.f(s)


def wrap(r, f):
    """The same predicate as another kind of callable."""
    return r.choice([lambda f: f, lambda f: f, Empty, Falsy, lambda f: Method(f).ask, lambda f: functools.partial(lambda g, s: g(s), f)])(f)


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("list", 2500 * k), ("pred", 1500 * k), ("index", 800 * k), ("first", 600 * k), ("none", 600 * k), ("calls", 200 * k), ("high", 8 * (3 if tier == "thorough" else 1))]


def required(tier):
    return {"reads_xlsx": 5000, "reads_xlsb": 5000, "nulled_texts": 20000, "kept_texts": 20000, "nulled_high": 4, "long_lists": 60, "nearly_declared": 500}


def text(r, voc):
    k = r.random()
    return r.choice(voc) if k < 0.5 else r.choice(ERRORS) if k < 0.6 else r.choice(LOOK) if k < 0.85 else gen.word(r)


def sheet(r, voc, n=None, cols=None):
    st = [wb.Style(0, None, "gen"), wb.Style(4, None, "num"), wb.Style(14, None, "tmp")]
    cols = cols or gen.col_set(r, r.choice([1, 2, 3, 4]))
    n = n or r.choice([1, 2, 5, 12, 30])
    rows = []
    for _ in range(n):
        row = {}
        if r.random() < 0.1:
            rows.append({c: wb.C("s", r.choice(voc), 0, r.choice(["shared", "inline", "str"])) for c in cols})
            continue
        for c in cols:
            k = r.random()
            if k < 0.75:
                row[c] = wb.C("s", text(r, voc), r.choice([0, 0, 1, 2]), r.choice(["shared", "shared", "inline", "str"]))
                if r.random() < 0.1:
                    row[c].runs = gen.split_runs(r, row[c].val)
            elif k < 0.85:
                row[c] = wb.C("n", float(r.choice([0, 1, 2, 3, 10, 40000])), r.choice([1, 1, 2]), r.choice(["rk", "real"]))
            elif k < 0.9:
                row[c] = wb.C("b", r.random() < 0.5, 0)
            elif k < 0.95:
                row[c] = wb.C("e", r.choice(gen.ERRS), 0, r.choice(["plain", "fml"]))
        rows.append(row)
    return wb.Book([wb.Sheet("S", rows)], st, gen.opts(r))


def both(ctx, b, header, o):
    from .. import model

    for cont in ("xlsx", "xlsb"):
        rd.against_model(ctx, b, cont, 0, header, **o)
    nul = model.make_null(o.get("null_values"))
    ts = [c.val for row in b.sheets[0].rows for c in row.values() if c.kind == "s"]
    k = sum(bool(nul(t)) for t in ts)
    ctx.hit("nulled_texts", k)
    ctx.hit("kept_texts", len(ts) - k)
    ctx.seen_case((repr(b.sheets[0].rows), header, repr(o)), k > 0, n=2)


def case(ctx, group, r, i):
    voc = r.sample(LOOK, r.randint(1, 6)) + [gen.word(r) for _ in range(2)]
    o: dict = {}
    if r.random() < 0.5:
        o["take_rows_non_empty"] = r.random() < 0.6
    if r.random() < 0.2:
        o["skip_rows"] = r.choice([1, 2])
    if r.random() < 0.2:
        o["take_rows"] = r.choice([1, 3])
    header = r.choice([0, 0, 1, 2])
    if r.random() < 0.15:
        o["row_filters"] = ".*"
        o["row_filters_strategy"] = r.choice(["or", "and"])
    if group == "list":
        nv = r.sample(voc, r.randint(1, len(voc)))
        if r.random() < 0.3:  # what is nearly a text of the sheet does not make it null
            x = r.choice([*voc, *LOOK, *ERRORS])
            nv += [r.choice([" " + x, x + " ", x + "\n", x[:-1], x[1:], x + x[-1:], x.swapcase(), "(?i)" + x, x[:1] + "*", ".*", "\ufeff" + x, x.replace("0", "0.0")]) for _ in range(r.choice([1, 1, 3]))]
            ctx.hit("nearly_declared")
        if r.random() < 0.05:  # hundreds of texts declared
            nv = [f"no such {k}" for k in range(r.choice([100, 300, 1100]))] + nv
            if r.random() < 0.5:
                r.shuffle(nv)
            ctx.hit("long_lists")
        o["null_values"] = r.choice([list, tuple, set, frozenset, lambda x: x + [""], lambda x: dict.fromkeys(x)])(nv)
        both(ctx, sheet(r, voc), header, o)
    elif group == "pred":
        f = r.choice([lambda s: s.isdigit(), lambda s: len(s) == 1, lambda s: s.startswith("#"), lambda s, v=frozenset(voc): 1 if s in v else 0, lambda s: "n" in s, lambda s: False, lambda s: True, lambda s: s.casefold() in ("null", "none", "n/d")])
        o["null_values"] = wrap(r, f)
        both(ctx, sheet(r, voc), header, o)
    elif group == "index":
        # declared texts that look like references into the shared strings
        nv = [str(k) for k in r.sample(range(12), r.randint(1, 4))]
        o["null_values"] = nv
        b = sheet(r, [f"t{k}" for k in range(12)] + [str(k) for k in range(3)], n=12)
        both(ctx, b, header, o)
        if i < 2:
            ctx.sample(rd.describe(b, "both", header=header, **o))
    elif group == "first":
        # the first shared string of the file, in the first cell, is null
        o["null_values"] = [voc[0]]
        b = sheet(r, voc)
        c0 = min([c for row in b.sheets[0].rows for c in row] or [0])
        b.sheets[0].rows[0] = {c0: wb.C("s", r.choice([voc[0], r.choice(ERRORS)]), 0, "shared"), c0 + 1: wb.C("s", "kept", 0, "shared")}
        both(ctx, b, header, o)
    elif group == "high":
        # more shared strings than two bytes count; the nulls are anywhere among them
        n = r.choice([65537, 66000, 70000, 131100]) if i % 2 == 0 else r.choice([257, 300, 900, 33000])
        nul = set(r.sample(range(n), 40)) | {0, 255, 256, min(n - 1, 65535), n - 1, n - 2, n // 2}
        txt = lambda k: f"n{k}" if k in nul else f"t{k}"
        m = r.choice([200, 400])
        pick = sorted(nul) + [k % 65536 for k in nul] + [k % 256 for k in nul] + [r.randrange(n) for _ in range(m)]
        pick = r.sample(pick, min(n, len(pick)))
        rows = [{0: wb.C("s", txt(k), 0, "shared")} for k in range(n)]
        for y, k in enumerate(pick):
            rows[y + n - len(pick)][3] = wb.C("s", txt(k % n), 0, "shared")
        b = wb.Book([wb.Sheet("S", rows)], opts=gen.opts(r))
        null = [txt(k) for k in nul]
        o = {"null_values": r.choice([null, frozenset(null).__contains__]), "skip_rows": n - len(pick)}
        for cont in ("xlsx", "xlsb"):
            rd.against_model(ctx, b, cont, 0, 0, **o)
        ctx.hit("nulled_high", sum(k > 65535 for k in nul))
        ctx.seen_case((n, tuple(nul), repr(o)[:20]), n=2)
    elif group == "none":
        if r.random() < 0.5:
            o["null_values"] = r.choice([[], (), None, ""])
        both(ctx, sheet(r, voc + ERRORS), header, o)
    else:
        # the predicate sees texts of cells only: never numbers, booleans, indices or other sheets' inline texts
        b = sheet(r, voc)
        texts = {c.val for s in b.sheets for row in s.rows for c in row.values() if c.kind == "s"}
        for cont in ("xlsx", "xlsb"):
            seen = []
            st, t = rd.attempt(wb.write(b, cont), null_values=lambda s: bool(seen.append(s)))
            if st == "err":
                raise Violation(f"{cont}: {t!r}")
            bad = [s for s in seen if not isinstance(s, str) or s not in texts]
            if bad:
                raise Violation(f"{cont}: the null predicate was asked about {bad[:4]!r}, which is no text of the workbook", case=rd.describe(b, cont))
            ctx.hit("predicate_calls", len(seen))
        ctx.seen_case(("calls", repr(b.sheets[0].rows)))
