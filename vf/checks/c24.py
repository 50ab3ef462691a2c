"""C24: the row callback reports every row and cannot influence the table.

Monitor: the callback itself, which logs every call with its arguments; oracle:
the number of row records of the written sheet, and the reference reader for
the table (which knows nothing of callbacks).
"""
from __future__ import annotations

import functools
import io
import random
import threading
import time

from .. import gen, model, rd, wb
from ..mon import Violation
from .c08 import compare, options

ID = "C24"
LEVEL = "exploration"
RULE = ("random sheets (0-3000 row records, empty, omitted, unnumbered and null-only rows among them, several sheets per book) in both "
        "containers with callbacks of every shape (function, partial, bound method, falsy and stateful callable, slow, reentrant, "
        "returning anything), with and without options, limits and skips; non-trivial when the sheet has rows, distinct by file and options")
ASSUMPTIONS = ["a row record is a row element or row header in the sheet part", "a callback that raises belongs to C19"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("full", 1200 * k), ("limit", 1200 * k), ("options", 500 * k), ("slow", 60 * k, 3), ("tall", 6 * k, 2), ("reenter", 120 * k, 2)]


def required(tier):
    return {"reads_xlsx": 2000, "reads_xlsb": 2000, "callbacks": 40000, "limited": 1500, "limits_reached": 400, "odd_callables": 500, "slow_reads": 80, "nested_reads": 300}


class Log:
    """The log of one read; the callables below all end in hit()."""

    def __init__(self, act=None, ret=None):
        self.n, self.bad, self.act, self.ret, self.late, self.ended = 0, [], act, ret, 0, False
        self.threads: set = set()

    def hit(self, *a, **k):
        self.n += 1
        self.threads.add(threading.get_ident())
        if a or k:
            self.bad.append((repr(a)[:100], repr(k)[:100]))
        if self.ended:
            self.late += 1
        if self.act:
            self.act()
        return self.ret


class Falsy:
    def __init__(self, log):
        self.log = log

    def __bool__(self):
        return False

    def __call__(self, *a, **k):
        return self.log.hit(*a, **k)


class Rows(list):
    """A list that grows with every row: empty, hence falsy, at first."""

    def __init__(self, log):
        super().__init__()
        self.log = log

    def __call__(self, *a, **k):
        self.append(1)
        return self.log.hit(*a, **k)


def shape(r, log):
    k = r.choice(["fn", "lambda", "method", "partial", "falsy", "rows", "star"])
    if k == "fn":
        def fn():
            return log.hit()
        return k, fn
    if k == "lambda":
        return k, lambda *a: log.hit(*a)
    return k, {"method": lambda: log.hit, "partial": lambda: functools.partial(log.hit), "falsy": lambda: Falsy(log), "rows": lambda: Rows(log), "star": lambda: (lambda *a, **q: log.hit(*a, **q))}[k]()


RETS = [None, None, True, False, 0, 1, "stop", StopIteration(), ValueError("returned"), [], object()]


def records(b, s):
    """Row records of a sheet, as [row of the grid]."""
    omit = b.opts.get("omit_empty")
    return [row for row in s.rows if row or not omit]


def counted(b, s, cont, o):
    """For each row record: does it count for the limit?"""
    null = model.make_null(o.get("null_values"))
    skip = set(o.get("skip_cols") or ())
    out = []
    for y, row in enumerate(s.rows):
        v = [model.typed(c, b.styles, cont) for j, c in row.items() if j not in skip]
        full = any(x is not None and not (x[0] == "s" and null(x[1])) for x in v)
        out.append((bool(row) or not b.opts.get("omit_empty"), full or o.get("take_rows_non_empty", False) or y < o.get("skip_rows", 0)))
    return out


def one(ctx, r, b, cont, si, header, o, log, cb, limit=False, data=None, model_too=True):
    s = b.sheets[si]
    data = wb.write(b, cont) if data is None else data
    n = len(records(b, s))
    what = dict(rd.describe(b, cont, sheet=s.name, header=header, **o), records=n, callback=type(cb).__name__)
    st, res = rd.attempt(data, s.name, list(header) if isinstance(header, list) else header, row_callback=cb, source=r.choice(["bytes", "bytes", "path"]), **o)
    log.ended = True
    ctx.hit(f"reads_{cont}")
    ctx.hit("callbacks", log.n)
    ctx.hit("oracle_evaluations")
    if log.bad:
        raise Violation(f"{cont}: callback called with arguments {log.bad[:3]!r}", case=what)
    if len(log.threads) > 1:
        ctx.hit("several_threads")
    if not limit:
        if log.n != n + 1:
            raise Violation(f"{cont}: {log.n} callback calls for {n} row records, expected {n + 1}", case=what)
    else:
        # records up to the one that fills the limit
        top, left = 0, o.get("skip_rows", 0) + o["take_rows"] + 1 if o.get("take_rows") else 10**9
        low = 0
        for y, (rec, cnt) in enumerate(counted(b, s, cont, o)):
            if left <= 0:
                break
            top += rec
            low += rec and y >= o.get("skip_rows", 0)
            left -= cnt
        ctx.hit("limited")
        if left <= 0 and top < n - 1:
            ctx.hit("limits_reached")
        # a row that fills the limit may be reported or not, all rows of the window are
        if st == "ok" and log.n < low:
            raise Violation(f"{cont}: {log.n} callback calls, but {low} row records are in the window", case=what)
        if log.n > top + 2:
            raise Violation(f"{cont}: {log.n} callback calls, but the limit is reached after {top} of {n} row records", case=what)
    exp = model.expect(b, cont, s.name, header, **o) if model_too else None
    if exp is None or exp.kind == "skip":
        ctx.hit("plain_only")  # the plain read below still decides
    elif exp.kind == "err":
        if st == "ok" or not isinstance(res, exp.err):
            raise Violation(f"{cont}: expected {[e.__name__ for e in exp.err]} with a callback, got {res!r:.300}", case=what)
    elif st == "err":
        raise Violation(f"{cont}: read with a callback failed: {res!r:.300}", case=what)
    elif d := model.diff(exp, res):
        raise Violation(f"{cont}: with a callback: {d}", case=what)
    # and the same read without one
    st2, res2 = rd.attempt(data, s.name, list(header) if isinstance(header, list) else header, **o)
    if st2 != st or (st == "ok" and (d := compare(res2, res))) or (st == "err" and type(res) is not type(res2)):
        raise Violation(f"{cont}: the table changes with the callback: {st2} / {st}: {d if st == st2 == 'ok' else (type(res2), type(res))!r:.400}", case=what)
    if log.late:
        raise Violation(f"{cont}: {log.late} callback calls after the read has ended", case=what)
    ctx.seen_case((data, repr(o), s.name), n > 0)


def case(ctx, group, r, i):
    globals()["do_" + group](ctx, r, i)


def do_full(ctx, r, i):
    b = gen.book(r)
    si = r.randrange(len(b.sheets))
    for cont in ("xlsx", "xlsb"):
        log = Log(ret=r.choice(RETS))
        k, cb = shape(r, log)
        if k in ("falsy", "rows"):
            ctx.hit("odd_callables")
        o = {"take_rows_non_empty": True} if r.random() < 0.4 else {}
        if r.random() < 0.3:
            o["skip_cols"] = r.sample(range(30), 3)
        one(ctx, r, b, cont, si, 0, o, log, cb)
    if i < 3:
        ctx.sample(rd.describe(b, "both"))


def do_limit(ctx, r, i):
    b = gen.book(r, nrows=r.choice([0, 1, 2, 5, 13, 40, 90]), nsheets=1)
    n = len(b.sheets[0].rows)
    for cont in ("xlsx", "xlsb"):
        log = Log(ret=r.choice(RETS))
        _, cb = shape(r, log)
        o = {"take_rows": r.choice([0, 1, 2, 5, max(n // 2, 1), max(n - 2, 1), max(n - 1, 1), n + 3])}
        if r.random() < 0.4:
            o["skip_rows"] = r.choice([1, 2, n // 2, n, n + 2])
        if r.random() < 0.4:
            o["take_rows_non_empty"] = True
        one(ctx, r, b, cont, 0, 0, o, log, cb, limit=True)


def do_options(ctx, r, i):
    b = gen.book(r, nsheets=1)
    header, o = options(r, b)
    lim = bool(o.get("take_rows") or o.get("skip_rows"))
    for cont in ("xlsx", "xlsb"):
        log = Log(ret=r.choice(RETS))
        _, cb = shape(r, log)
        one(ctx, r, b, cont, 0, header, o, log, cb, limit=lim, model_too=False)  # options at large: decided by the plain read


def do_slow(ctx, r, i):
    b = gen.book(r, nrows=r.choice([3, 20, 120]), nsheets=1)
    for cont in ("xlsx", "xlsb"):
        q = random.Random(r.random())
        p = r.choice([0.05, 0.3, 1.0])
        log = Log(lambda: time.sleep(q.choice([0, 1e-4, 2e-3])) if q.random() < p else None)
        _, cb = shape(r, log)
        o = {"take_rows": r.choice([1, 10])} if r.random() < 0.3 else {}
        one(ctx, r, b, cont, 0, r.choice([0, 1]) if b.sheets[0].rows else 0, o, log, cb, limit=bool(o))
        ctx.hit("slow_reads")


def do_tall(ctx, r, i):
    b = gen.book(r, nrows=r.choice([800, 3000, 66000]) if i else 70000, cols=[0], nsheets=1)
    for cont in ("xlsx", "xlsb"):
        log = Log()
        _, cb = shape(r, log)
        one(ctx, r, b, cont, 0, 0, {}, log, cb)


def do_reenter(ctx, r, i):
    """A callback that reads the same and other workbooks itself."""
    from rxls.reader import read

    b = gen.book(r, nrows=r.choice([2, 6, 15]), nsheets=1)
    other = gen.book(r, nrows=4, nsheets=1)
    blobs = [(wb.write(x, c), x, c) for x in (b, other) for c in ("xlsx", "xlsb")]
    for cont in ("xlsx", "xlsb"):
        bad: list = []

        def act():
            d, x, c = r.choice(blobs)
            inner = Log()
            t = read(io.BytesIO(d), 0, row_callback=inner.hit)
            want = len(records(x, x.sheets[0])) + 1
            ctx.hit("nested_reads")
            if inner.n != want or (e := model.diff(model.expect(x, c), t)):
                bad.append((c, inner.n, want) if inner.n != want else e)

        log = Log(act)
        _, cb = shape(r, log)
        one(ctx, r, b, cont, 0, 0, {}, log, cb)
        if bad:
            raise Violation(f"{cont}: a read made inside the callback goes wrong: {bad[0]!r}", case=rd.describe(b, cont))
