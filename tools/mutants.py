"""Mutation survey of the checks: mutants.py OUT.jsonl [--jobs N] [--files a,b] [--sample K] [--seed S]

Makes small syntactic changes to the code that can run here (accelerated
branches excluded), drops those the repository's tests notice, and runs the
checks on each, nearest check first, until one reports a violation. Survivors
are either equivalent (no behaviour changed) or gaps, to be judged by hand.
Everything happens in scratch copies under /tmp.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, argparse
from pathlib import Path

R = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ORDER = {
    "rxls/biff.py": "C01 C02 C07 C19",
    "rxls/biff_recs.py": "C03 C07",
    "rxls/rels.py": "C03 C18 C06",
    "rxls/cell.py": "C23",
    "rxls/chunk/casts.py": "C04 C05 C15 C14 C20",
    "rxls/chunk/chunk.py": "C23 C14 C15 C13 C20",
    "rxls/chunk/arrow.py": "C20 C12 C13",
    "rxls/series.py": "C23 C14 C15 C20",
    "rxls/reader/common.py": "C11 C12 C13 C16 C10 C14 C15 C21",
    "rxls/reader/xlsx.py": "C06 C10 C17 C09 C18 C24 C19 C21 C22",
    "rxls/reader/xlsb.py": "C07 C10 C17 C09 C18 C24 C19 C20 C21",
}
ALL = ["C%02d" % i for i in range(1, 25)]


def seg(lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def sub(src, n, new):
    lines = src.encode().splitlines(keepends=True)
    a = sum(map(len, lines[: n.lineno - 1])) + n.col_offset
    b = sum(map(len, lines[: n.end_lineno - 1])) + n.end_col_offset
    s = src.encode()
    return (s[:a] + new.encode() + s[b:]).decode()


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*", ast.Mod: "+", ast.Div: "*"}


def mutants(src):
    tree = ast.parse(src)
    g = lambda n: ast.get_source_segment(src, n)

    def skip(n):
        return isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id in ("NUMBA_AVAILABLE", "POLARS_AVAILABLE", "TYPE_CHECKING", "NUMBA_TBB_AVAILABLE")

    def walk(n, infn, ann):
        if skip(n):
            for c in n.orelse:
                yield from walk(c, infn, ann)
            return
        here = n
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield n, f"{g(n.left)} {o} {g(n.comparators[0])}", "cmp"
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + op.join(f"({g(v)})" for v in n.values) + ")", "bool"
            for v in n.values:
                yield n, "(" + g(v) + ")", "drop"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield n, f"({g(n.left)}) {BIN[type(n.op)]} ({g(n.right)})", "bin"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, f"({g(n.operand)})", "not"
        elif isinstance(n, ast.Constant) and infn:
            if isinstance(n.value, bool):
                yield n, str(not n.value), "flip"
            elif isinstance(n.value, (int, float)):
                yield n, f"{n.value + 1}", "inc"
                if n.value:
                    yield n, "0", "zero"
            elif isinstance(n.value, str) and n.value and len(n.value) < 30:
                yield n, repr(n.value + "~"), "str"
        elif isinstance(n, ast.If):
            yield n.test, f"not ({g(n.test)})", "neg"
            yield n.test, f"(({g(n.test)}), True)[1]", "true"
            yield n.test, f"(({g(n.test)}), False)[1]", "false"
        elif isinstance(n, ast.IfExp):
            yield n, f"({g(n.body)})", "then"
            yield n, f"({g(n.orelse)})", "else"
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and infn and not isinstance(n, ast.AnnAssign):
            yield n, "pass", "del"
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                yield n, g(n).replace("+=", "-=", 1), "aug"
                yield n, g(n).replace("+=", "=", 1), "set"
        elif isinstance(n, ast.Expr) and infn and not isinstance(n.value, (ast.Constant, ast.Yield)):
            yield n, "pass", "del"
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield n, "pass", "del"
        elif isinstance(n, ast.Return) and infn and n.value is None:
            yield n, "pass", "del"
        elif isinstance(n, ast.Raise) and n.exc is not None:
            yield n, "pass", "del"
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    rest = [g(a) for a in n.args] + [f"{q.arg}={g(q.value)}" for q in n.keywords if q is not k and q.arg]
                    yield n, f"{g(n.func)}({', '.join(rest)})", "kw"
        for name, field in ast.iter_fields(n):
            if name in ("annotation", "returns"):
                continue
            fn = infn or isinstance(n, (ast.FunctionDef,)) and name == "body"
            if isinstance(n, ast.FunctionDef) and name in ("decorator_list",):
                continue
            for c in field if isinstance(field, list) else [field]:
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                        continue
                    if isinstance(c, ast.Assign) and isinstance(c.targets[0], ast.Name) and c.targets[0].id == "msg":
                        continue
                    if isinstance(c, ast.FunctionDef) and c.name in ("__repr__",):
                        continue
                    yield from walk(c, fn, ann)

    seen = set()
    for n, new, kind in walk(tree, False, False):
        try:
            s = sub(src, n, new)
            ast.parse(s)
        except SyntaxError:
            continue
        if s == src or s in seen:
            continue
        seen.add(s)
        yield n.lineno, kind, g(n)[:100], new[:100], s


def sh(cmd, cwd, env=None, t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--fraction", default="0.12", help="share of each check's cases")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    todo = []
    for f in a.files.split(",") if a.files else ORDER:
        src = Path("/repo", f).read_text()
        todo += [(f, *m) for m in mutants(src)]
    print(len(todo), "mutants", flush=True)
    if a.list:
        for f, l, k, o, n, _ in todo:
            print(f, l, k, repr(o), "->", repr(n))
        return
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[: a.sample]
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["line"], d["kind"], d["old"], d["new"]) for d in map(json.loads, open(a.out))}
    q = queue.Queue()
    for m in todo:
        if m[:5] not in done:
            q.put(m)
    lock = threading.Lock()

    def work():
        tmp = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
        try:
            sh(["cp", "-a", "/repo", str(tmp / "r")], "/")
            sh(["git", "checkout", "-q", "--", "."], tmp / "r")
            shutil.copytree(R, tmp / "v", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
            while True:
                try:
                    f, line, kind, old, new, s = q.get_nowait()
                except queue.Empty:
                    return
                p = tmp / "r" / f
                orig = p.read_text()
                p.write_text(s)
                t = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], tmp / "r", t=60)
                how = "tests"
                res = {}
                if t.returncode == 0:
                    how = "SURVIVED"
                    for c in ORDER[f].split():
                        r = sh([PY, "-B", "vf/run.py", c], tmp / "v", {"VF_REPO": str(tmp / "r"), "VERIF_SEED": "1", "VF_FRACTION": a.fraction, "VF_NPROC": "1"}, 600)
                        if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                            how = c
                            break
                        if r.returncode not in (0, 2):
                            res[c] = r.returncode
                p.write_text(orig)
                with lock, open(a.out, "a") as o:
                    o.write(json.dumps(dict(file=f, line=line, kind=kind, old=old, new=new, how=how, odd=res)) + "\n")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    ts = [threading.Thread(target=work) for _ in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
