"""Makes and validates planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=code)].
Each is written to seeded/<id>/ after validation in a scratch copy: the removed
lines are the original repository's, tests pass, the demo passes on the clean
copy and fails on the changed one. Then the property's check is run on it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

R = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
BASE = "a989720"
PRELUDE = '''import faulthandler, io, os, sys
faulthandler.dump_traceback_later(120, exit=True)
sys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]
import wb
from wb import C, Sheet, Style, Book
from rxls.reader import read
GEN, NUM, TMP = Style(0, None, "gen"), Style(4, None, "num"), Style(14, None, "tmp")
def S(v, form="shared", st=0): return C("s", v, st, form)
def N(v, form="real", st=1): return C("n", v, st, form)
def D(v, form="real", st=2): return C("n", v, st, form)
def B(rows, opts=None, styles=None, name="S"):
    return Book([Sheet(name, [{j: c for j, c in enumerate(r) if c is not None} if not isinstance(r, dict) else r for r in rows])], styles or [GEN, NUM, TMP], opts or {})
def X(b, cont, *a, **k):
    return read(io.BytesIO(wb.write(b, cont)), *a, **k)
def cols(t): return [c.to_pylist() for c in t.columns]
'''
SH = '#!/bin/bash\nexec timeout 200 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)


def one(b, run=True):
    out = []
    tmp = Path(tempfile.mkdtemp(prefix="plant-", dir="/tmp"))
    try:
        sh(f"cp -a /repo {tmp}/r")
        r = tmp / "r"
        sh("git checkout -q -- .", r)
        dd = tmp / "d"
        dd.mkdir()
        helpers = ["wb.py"] + ["accel.py"] * ("accel" in b["demo"])
        for f in helpers:
            shutil.copy(R / "vf" / f, dd / f)
        (dd / "demo.py").write_text(PRELUDE + ("import accel\n" if "accel" in b["demo"] else "") + b["demo"])
        (dd / "demo.sh").write_text(SH)
        os.chmod(dd / "demo.sh", 0o755)
        p = sh(f"bash {dd}/demo.sh", r)
        if p.returncode:
            return f"{b['id']}: BAD demo fails on the clean tree\n{p.stdout[-500:]}{p.stderr[-1500:]}"
        for f, old, new in b["edits"]:
            q = r / f
            s = q.read_text()
            if s.count(old) != 1:
                return f"{b['id']}: BAD edit matches {s.count(old)} times in {f}: {old!r}"
            q.write_text(s.replace(old, new))
        d = sh("git diff", r).stdout
        removed = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = {l for f, _, _ in b["edits"] for l in sh(f"git show {BASE}:{f}", r).stdout.splitlines()}
        bad = [l for l in removed if l.strip() and l not in base]
        keep = removed and not bad  # otherwise only tried, not kept
        if sh("python3 -m compileall -q rxls", r).returncode:
            return f"{b['id']}: BAD does not compile"
        sh("find . -name __pycache__ -prune -exec rm -rf {} +", r)
        p = sh(f"{PY} -B -m pytest -q -p no:cacheprovider tests", r)
        if p.returncode:
            return f"{b['id']}: BAD tests fail\n{p.stdout[-800:]}"
        p = sh(f"bash {dd}/demo.sh", r)
        if not p.returncode:
            return f"{b['id']}: BAD demo passes on the changed tree"
        msg = (p.stderr.strip().splitlines() or ["?"])[-1][:150]
        s = R / "seeded" / b["id"] if keep else tmp / "s"
        shutil.rmtree(s, ignore_errors=True)
        s.mkdir(parents=True)
        (s / "patch.diff").write_text(d)
        for f in (*helpers, "demo.py", "demo.sh"):
            shutil.copy(dd / f, s / f)
        (s / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1, ensure_ascii=False) + "\n")
        out.append(f"{b['id']}: {'ok' if keep else 'ok, not kept (no original line changed)'} ({msg})")
        if run:
            for c in [b["property"], *b.get("also", [])]:
                q = sh(f"{PY} -B vf/run.py {c}", R, {"VF_REPO": str(r), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 1200)
                caught = q.returncode == 1 and f"VIOLATION property={c}" in q.stdout
                out.append(f"   {c}: {'CAUGHT' if caught else 'MISSED rc=%d' % q.returncode} {(q.stdout.strip().splitlines() or ['?'])[0][:170]}")
        return "\n".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "1"))) as ex:
        for r in ex.map(lambda b: one(b, os.environ.get("NORUN") is None), bugs):
            print(r, flush=True)
