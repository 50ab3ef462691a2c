"""C29: a read touches nothing but its file.

Monitors around every read: the interpreter's audit events (files opened and how,
processes, sockets, changes to the file system), descriptors 1 and 2 (a file stands
in for them while a read runs), a snapshot of process-wide settings, of the
directory and of the file itself, and deep copies of all arguments. The returned
table is copied and looked at again after the file has been overwritten, shortened
and removed, and after the caller's own objects have been changed.
"""
from __future__ import annotations

import copy
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import re
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings
import zipfile
from pathlib import Path

import numpy as np
import pyarrow as pa

from .. import gen, rd, wb
from ..mon import Inconclusive, Violation
from .c08 import compare, options
from .c19 import parts_of, rezip, role

ID = "C29"
LEVEL = "exploration"
RULE = ("random workbooks of both containers, intact, damaged or with references to things outside (external entities, external and "
        "escaping relationship targets, document type definitions), read from a path, file or byte stream under random options that "
        "succeed or fail; every audit event, output, process setting, argument, and the file itself are watched; non-trivial when the "
        "file has a sheet with a value, distinct by file and options")
ASSUMPTIONS = ["modules and tables of the interpreter's and libraries' own directories may be read",
               "warnings are not output: the warning filters of the process decide about them"]


def plan(tier):
    k = 20 if tier == "thorough" else 1
    return [("plain", 2800 * k), ("broken", 1200 * k), ("outside", 1000 * k), ("after", 1200 * k)]


def required(tier):
    return {"reads": 4000, "ok": 2000, "failed": 500, "events": 10000, "opens": 1000, "snapshots": 4000, "arguments": 6000, "external_parts": 500, "rechecked": 800}


# ---------------------------------------------------------------- audit ---
class Audit:
    on = False
    log: list = []
    seen = 0


FS = {"os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.chdir", "os.putenv", "os.unsetenv",
      "os.setxattr", "os.removexattr", "os.lockf", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copymode", "shutil.copystat", "shutil.copytree", "tempfile.mkstemp",
      "tempfile.mkdtemp", "fcntl.flock", "fcntl.lockf", "mmap.__new__"}
OUT = ("subprocess.", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.startfile", "os.kill", "os.killpg", "socket.", "urllib.", "http.", "ftplib.", "smtplib.",
       "signal.", "webbrowser.", "ctypes.dlopen", "sqlite3.", "pty.", "syslog.", "sys.settrace", "sys.setprofile", "sys.addaudithook", "pickle.find_class")


def hook(ev, args):
    if Audit.on:
        Audit.seen += 1
        if ev == "open" or ev in FS or ev.startswith(OUT):
            try:
                Audit.log.append((ev, tuple(repr(a)[:300] if not isinstance(a, (str, int, bytes)) else a for a in args)))
            except Exception:
                Audit.log.append((ev, ()))


LIBS: tuple = ()
BASE = None


def prepare(ctx):
    global LIBS, BASE
    LIBS = tuple({os.path.realpath(p) + "/" for p in [sys.prefix, sys.base_prefix + "/lib", *[p for p in sys.path if p], "/usr/share/zoneinfo", "/usr/lib"] if os.path.isdir(p)})
    BASE = rd.tmpdir()
    (Path(BASE) / "secret.txt").write_text("TOPSECRET")
    (Path(BASE) / "secret.dtd").write_text('<!ENTITY leak "TOPSECRET">')
    r = random.Random(1)
    # whatever is imported or made at first use is made now
    for c in ("xlsx", "xlsb"):
        for _ in range(6):
            rd.attempt(wb.write(gen.book(r), c), conflict_resolve="all", dtypes=pa.timestamp("ms", "Europe/Berlin"))
    sys.addaudithook(hook)


class Out:
    """Files stand in for descriptors 1 and 2."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile(dir=BASE)
        self.old = [os.dup(1), os.dup(2)]
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        for k, o in zip((1, 2), self.old):
            os.dup2(o, k)
            os.close(o)
        self.f.seek(0)
        self.text = self.f.read(2000)
        self.f.close()


def state():
    dc = decimal.getcontext()
    return {
        "cwd": os.getcwd(), "env": dict(os.environ), "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(),
        "warnings": [tuple(map(repr, f)) for f in warnings.filters], "locale": locale.setlocale(locale.LC_ALL), "np": np.geterr(), "np_print": repr(np.get_printoptions()),
        "random": hash(random.getstate()), "np_random": hash(np.random.get_state()[1].tobytes()), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()),
        "std": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "path": list(sys.path), "signals": [signal.getsignal(s) for s in (2, 13, 14, 15)], "timer": signal.getitimer(signal.ITIMER_REAL),
        "arrow": (pa.cpu_count(), pa.io_thread_count(), pa.default_memory_pool().backend_name), "decimal": (dc.prec, dc.rounding, repr(dc.traps)), "stack": threading.stack_size(),
        "modules": (open, print, zipfile.ZipFile, zipfile.ZipFile.open, re.compile, warnings.showwarning, threading.Thread.start), "umask": (m := os.umask(0o22), os.umask(m))[0],
        "csv": __import__("csv").field_size_limit(), "ints": sys.get_int_max_str_digits(), "coro": sys.get_coroutine_origin_tracking_depth(),
        "logging": (lambda g: (g.level, g.manager.disable, list(map(id, g.handlers)), logging.raiseExceptions))(logging.getLogger()), "socket": socket.getdefaulttimeout(),
        "faults": faulthandler.is_enabled(), "nice": os.getpriority(os.PRIO_PROCESS, 0), "cores": sorted(os.sched_getaffinity(0)),
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_AS)], "zone": time.tzname,
        "tempdir": tempfile.tempdir, "bytecode": sys.dont_write_bytecode, "finders": (list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))), "mimes": (sys.getdlopenflags(), sys.flags.utf8_mode),
        "zip": (zipfile.ZIP64_LIMIT, zipfile.ZIP_MAX_COMMENT), "frozen": gc.get_freeze_count(), "sigmask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())),
    }



def unsettle(r):
    """Settings with other values than usual, so that one who sets them to some fixed value shows. Returns what restores them."""
    import csv

    old = (np.geterr(), sys.getswitchinterval(), sys.getrecursionlimit(), decimal.getcontext().copy(), csv.field_size_limit(), gc.get_threshold(), random.getstate(),
           np.random.get_state(), np.get_printoptions()["precision"], list(warnings.filters), locale.setlocale(locale.LC_ALL), sys.get_int_max_str_digits(), os.umask(0o22))
    np.seterr(**{k: r.choice(["warn", "ignore"]) for k in ("divide", "over", "under", "invalid")})
    sys.setswitchinterval(r.choice([0.001, 0.003, 0.004, 0.006]))
    sys.setrecursionlimit(old[2] + r.randrange(1, 200))
    decimal.getcontext().prec = r.randrange(20, 40)
    csv.field_size_limit(r.randrange(10**5, 10**6))
    gc.set_threshold(r.randrange(600, 900), 10, 10)
    collects = gc.isenabled()
    (gc.enable if r.random() < 0.6 else gc.disable)()
    random.seed(r.random())
    np.random.seed(r.randrange(2**31))
    np.set_printoptions(precision=r.randrange(5, 9))
    warnings.filterwarnings("ignore", message="c29 %d" % r.randrange(10**6))
    locale.setlocale(locale.LC_ALL, r.choice(["C", "C.UTF-8", "POSIX"]))
    sys.set_int_max_str_digits(r.randrange(4000, 5000))
    os.umask(r.choice([0o22, 0o27, 0o77]))
    more = (pa.cpu_count(), pa.io_thread_count(), socket.getdefaulttimeout(), logging.getLogger().level, logging.root.manager.disable, logging.raiseExceptions)
    pa.set_cpu_count(r.choice([2, 3, 5]))
    pa.set_io_thread_count(r.choice([2, 3, 5]))
    socket.setdefaulttimeout(r.choice([7.0, 11.5, 40.0]))
    logging.getLogger().setLevel(r.choice([5, 15, 25]))
    logging.disable(r.choice([1, 2, 3]))
    logging.raiseExceptions = r.choice([True, False])

    def settle():
        np.seterr(**old[0])
        sys.setswitchinterval(old[1])
        sys.setrecursionlimit(old[2])
        decimal.setcontext(old[3])
        csv.field_size_limit(old[4])
        gc.set_threshold(*old[5])
        (gc.enable if collects else gc.disable)()
        random.setstate(old[6])
        np.random.set_state(old[7])
        np.set_printoptions(precision=old[8])
        warnings.filters[:] = old[9]
        warnings._filters_mutated()
        locale.setlocale(locale.LC_ALL, old[10])
        sys.set_int_max_str_digits(old[11])
        os.umask(old[12])
        pa.set_cpu_count(more[0])
        pa.set_io_thread_count(more[1])
        socket.setdefaulttimeout(more[2])
        logging.getLogger().setLevel(more[3])
        logging.disable(more[4])
        logging.raiseExceptions = more[5]

    return settle


def listing(d):
    out = {}
    for p in sorted(Path(d).rglob("*")):
        s = p.lstat()
        out[str(p)] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino, s.st_uid)
    return out


def snap(o):
    """A comparable copy of the arguments."""
    out = {}
    for k, v in o.items():
        out[k] = (type(v), copy.deepcopy(v) if isinstance(v, (list, tuple, dict, str, int, float, set)) else v)
    return out


def watch(ctx, r, data, cont, header, o, source, sheet=0, marks=()):
    """One read under all monitors. ('ok', table) | ('err', exception)"""
    from rxls.reader import read

    d = tempfile.mkdtemp(dir=BASE)
    path = os.path.join(d, r.choice(["book", "b k.xlsx", "файл.xlsb", "book.xls"]))
    held = None
    try:
        with open(path, "wb") as f:
            f.write(data)
        os.utime(path, ns=(10**18, 10**18))
        if source == "file":
            src = held = open(path, "rb")
        else:
            src = {"path": path, "Path": Path(path)}.get(source) or io.BytesIO(data)
        args = {"header": header, **o}
        before, ls = snap(args), listing(d)
        settle = unsettle(r)
        st0 = state()
        Audit.log = []
        with Out() as out:
            Audit.seen = 0
            Audit.on = True
            try:
                res = "ok", read(src, sheet, header, **o)
            except Exception as e:
                res = "err", e
            finally:
                Audit.on = False
        st1 = state()
        settle()
        log, Audit.log = Audit.log, []
        what = dict(container=cont, source=source, options={k: repr(v)[:200] for k, v in args.items()}, outcome=repr(res[1])[:200])
        ctx.hit("reads")
        ctx.hit("ok" if res[0] == "ok" else "failed")
        ctx.hit("events", Audit.seen)
        ctx.hit("snapshots")
        for ev, a in log:
            if ev == "open":
                ctx.hit("opens")
                mode, flags = (a[1] if len(a) > 1 else None), (a[2] if len(a) > 2 and isinstance(a[2], int) else 0)
                name = os.fsdecode(a[0]) if a and isinstance(a[0], (str, bytes)) else repr(a[0] if a else None)
                write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) or (isinstance(mode, str) and set(mode) & set("wax+"))
                own = name in (path, repr(Path(path))) and source in ("path", "Path")
                lib = isinstance(a[0], (str, bytes)) and os.path.realpath(name).startswith(LIBS)
                if write or not (own or lib):
                    raise Violation(f"{cont}: the read opened {name!r} (mode {mode!r}, flags {flags:#o})", events=log[:20], **what)
            else:
                raise Violation(f"{cont}: the read caused {ev} {a!r}"[:600], events=log[:20], **what)
        ctx.check(not out.text, f"{cont}: the read printed {out.text[:300]!r}", **what)
        diff = [k for k in st0 if st0[k] != st1[k]]
        ctx.check(not diff, f"{cont}: the read changed process-wide settings: " + "; ".join(f"{k}: {st0[k]!r} -> {st1[k]!r}"[:300] for k in diff), **what)
        after = snap(args)
        ctx.hit("arguments", len(args))
        for k in before:
            same = before[k] == after[k]
            ctx.check(same, f"{cont}: the read changed its argument {k}: {before[k][1]!r} -> {after[k][1]!r}"[:500], **what)
        ctx.check(listing(d) == ls and Path(path).read_bytes() == data, f"{cont}: the read changed its file or the directory of it: {set(listing(d)) ^ set(ls)}", **what)
        if source in ("path", "Path") and res[0] == "ok":
            ctx.check(any(ev == "open" for ev, _ in log), f"{cont}: no monitor saw the file being opened", **what)
        text = ""
        if marks and res[0] == "ok":
            text = repr([res[1].column_names, *(c.to_pylist() for c in res[1].columns if pa.types.is_string(c.type) or pa.types.is_large_string(c.type))])
        elif marks:
            text = f"{res[1]} {res[1].__context__!r}"
        for m in marks:
            ctx.check(m not in text, f"{cont}: the read returned {m!r} from outside the workbook", **what)
        return res
    finally:
        Audit.on = False
        if held:
            held.close()
        shutil.rmtree(d, ignore_errors=True)


SRC = ["path", "path", "Path", "file", "bytes"]


def listed(r, o):
    """Containers that could be changed in place, where an option allows them."""
    o = dict(o)
    if "null_values" in o and isinstance(o["null_values"], (list, tuple)):
        o["null_values"] = list(o["null_values"])
    if "skip_cols" in o and o["skip_cols"] is not None:
        o["skip_cols"] = list(o["skip_cols"]) * 2
        r.shuffle(o["skip_cols"])
    if r.random() < 0.15:
        o["null_values"] = ["zz", "b", "zz", "a", "#N/A", ""]
    if r.random() < 0.15:
        o.pop("dtypes", None)
        o["row_filters"], o["row_filters_strategy"] = r.choice([
            (["zz", "Unnamed", ".*"], "or"), ([1, 0], ["or"]), ([1, 0, 0], ["and"]), ([2, 0, 1], ["or", "and"]), ([9, 0], "and"), (["b", ".*", "a"], ["or", "and", "or", "and"])])
    if r.random() < 0.1:
        o["datetime_formats"] = r.choice([["%Y", "%d.%m.%Y"], ("%Y", "%d.%m.%Y")])
    return o


def case(ctx, group, r, i):
    cont = r.choice(["xlsx", "xlsb"])
    b = gen.book(r, gen_ok=True)
    data = wb.write(b, cont)
    if group == "after":
        return after(ctx, r, b, data, cont)
    header, o = options(r, b)
    o = listed(r, o)
    if r.random() < 0.25:
        o["dtypes"] = r.choice([pa.string(), {"a": pa.string(), "Unnamed": pa.large_string()}, [pa.string()] * r.choice([1, 2, 3]), pa.timestamp("ms", "Asia/Tokyo"), pa.int8()])
    if r.random() < 0.1:
        header = ["z", "b", "z", "a", "c", "b"][: len({j for row in b.sheets[0].rows for j in row} - set(o.get("skip_cols") or ()))]
    if r.random() < 0.2:
        o["row_callback"] = lambda: None
    src = r.choice(SRC)
    sheet = r.choice([0, 0, 0, b.sheets[0].name, 1, "none", -1])
    marks = ()
    if group == "broken":
        p = parts_of(data)
        k = r.randrange(len(p))
        if r.random() < 0.7:
            p[k] = (p[k][0], p[k][1][: r.randrange(len(p[k][1]) + 1)])
            data = rezip(p)
        else:
            data = r.choice([data[: r.randrange(len(data))], b"", b"text", data[:-20]])
        if r.random() < 0.3:
            o["row_callback"] = boom
        sheet = 0
    elif group == "outside":
        data, marks = outside(ctx, r, data, cont), ("TOPSECRET",)
        sheet = 0
    st, _ = watch(ctx, r, data, cont, header, o, src, sheet, marks)
    ctx.seen_case(data + repr((sorted(o), src)).encode(), any(c.kind in "snb" for s in b.sheets for row in s.rows for c in row.values()))
    ctx.sample({"group": group, "container": cont, "source": src, "outcome": st, "options": sorted(o)})


def boom():
    raise RuntimeError("callback")


def outside(ctx, r, data, cont):
    """The same workbook with references that lead out of it."""
    p = parts_of(data)
    sec, dtd = Path(BASE) / "secret.txt", Path(BASE) / "secret.dtd"
    kind = r.choice(["entity", "entity", "dtd", "param", "pi", "external", "escape", "absolute"])
    xml = [k for k, x in enumerate(p) if x[0].endswith((".xml", ".rels")) and b"<" in x[1]]
    if kind in ("entity", "dtd", "param", "pi"):
        k = r.choice(xml)
        t = wb.as_text(p[k][1])
        # up to the root element, without a type definition of its own
        t = re.sub(r"(?s)<!DOCTYPE[^\[>]*(?:\[.*?\]\s*)?>", "", t, count=1)
        at = re.search(r"(?s)\A(?:\s|<\?.*?\?>|<!--.*?-->)*", t).end()
        head, root = t[:at], t[at:]
        name = re.match(r"<([\w:]+)", root)
        if not name:
            raise Inconclusive(f"no root element in {p[k]}"[:300])
        name = name.group(1)
        doc = {
            "entity": f'<!DOCTYPE {name} [<!ENTITY xx SYSTEM "{r.choice([sec.as_uri(), str(sec), "../" + sec.name, "http://127.0.0.1:9/x"])}">]>',
            "dtd": f'<!DOCTYPE {name} SYSTEM "{r.choice([dtd.as_uri(), str(dtd)])}">',
            "param": f'<!DOCTYPE {name} [<!ENTITY % pp SYSTEM "{dtd.as_uri()}"> %pp;]>',
            "pi": f'<?xml-stylesheet type="text/xsl" href="{dtd.as_uri()}"?>',
        }[kind]
        if kind != "pi":
            use = "&xx;" if kind == "entity" else "&leak;"
            spots = [m.end() for m in re.finditer(r"<(?:v|t)(?: [^>]*[^/>])?>", root)]
            if spots:
                for s in sorted(r.sample(spots, min(len(spots), 3)), reverse=True):
                    root = root[:s] + use + root[s:]
        p[k] = (p[k][0], (head + doc + root).encode("utf-8"))
    else:
        k = next((k for k, x in enumerate(p) if x[0].startswith("xl/_rels/workbook")), None)
        t = wb.as_text(p[k][1])
        if kind == "external":
            t = re.sub(r"</Relationships>", f'<Relationship Id="rIdX9" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/externalLink" Target="{sec.as_uri()}" TargetMode="External"/></Relationships>', t)
        else:
            new = ("../" * 12).lstrip("/") + str(sec).lstrip("/") if kind == "escape" else str(sec)
            t = re.sub(r'Target="[^"]*worksheets[^"]*"|Target="[^"]*sheet[^"]*"', f'Target="{new}"', t, count=1)
        p[k] = (p[k][0], t.encode())
    ctx.hit("external_parts")
    ctx.hit("kind_" + kind)
    return rezip(p)


def after(ctx, r, b, data, cont):
    """A table stands on its own once it has been returned."""
    from rxls.reader import read

    header, o = options(r, b)
    o = listed(r, o)
    st, want = rd.attempt(data, 0, copy.deepcopy(header), **copy.deepcopy(o))
    src = r.choice(["path", "file", "bytes"])
    if src == "bytes":
        s = io.BytesIO(data)
    else:
        fd, path = tempfile.mkstemp(dir=BASE)
        os.write(fd, data)
        os.close(fd)
        s = path if src == "path" else open(path, "r+b")
    try:
        res = read(s, 0, header, **o)
    except Exception as e:
        if st == "ok":
            raise Violation(f"{cont}: {type(e).__name__}: {e} from {src}, but not from bytes", options=repr(o)) from None
        res = None
    try:
        # the file changes or goes, in place
        if src == "bytes":
            try:
                s.seek(0)
                s.write(bytes(len(data)))
                s.truncate(r.choice([0, 10]))
            except Exception as e:
                raise Violation(f"{cont}: the caller's stream cannot be changed any more: {e!r}") from None
        else:
            with open(path, "r+b") as f:
                f.write(os.urandom(len(data)))
                f.truncate(r.choice([0, len(data)]))
            if r.random() < 0.5:
                os.unlink(path)
    finally:
        if src != "bytes":
            if src == "file":
                s.close()
            if os.path.exists(path):
                os.unlink(path)
    # so do the arguments
    if isinstance(header, list):
        header[:] = ["changed"] * len(header)
    for v in o.values():
        if isinstance(v, list):
            v.clear()
        elif isinstance(v, dict):
            v.clear()
    if res is not None:
        if st != "ok":
            raise Violation(f"{cont}: a table from {src}, but {want!r} from bytes", options=repr(o))
        gc.collect()
        junk = [bytearray(os.urandom(1 << 12)) for _ in range(50)]
        try:
            res.validate(full=True)
        except Exception as e:
            raise Violation(f"{cont}: the table is invalid after its file has changed: {e}") from None
        d = compare(want, res)
        ctx.check(not d, f"{cont}: the table changed after its file or arguments had changed: {d}", source=src)
        ctx.hit("rechecked")
        del junk
    ctx.seen_case(data + repr((sorted(o), src)).encode(), res is not None and res.num_rows > 0)
