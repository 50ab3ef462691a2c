#!/usr/bin/env python3
"""Which planted bugs do the checks catch?  caught.py [--jobs N] [--seed S] [ID...]

Each patch is applied to a scratch copy of /repo, and the check of its property
is run against that copy (VF_REPO). Prints one line per bug and the misses.
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--seed", default="1")
a = ap.parse_args()
ids = a.ids or sorted(p.name for p in (ROOT / "seeded").iterdir())


def one(i):
    d = ROOT / "seeded" / i
    cid = json.loads((d / "meta.json").read_text())["property"]
    t = Path(tempfile.mkdtemp(prefix="vf-bug-"))
    try:
        shutil.copytree("/repo", t / "repo", ignore=shutil.ignore_patterns(".git"))
        p = subprocess.run(["git", "apply", "--directory=repo", str(d / "patch.diff")], cwd=t, capture_output=True, text=True)
        if p.returncode:
            return i, cid, "NOT APPLIED " + p.stderr[:200]
        env = os.environ | {"VF_REPO": str(t / "repo"), "VERIF_SEED": a.seed, "VERIF_TIER": "quick", "VF_EVID": str(t / "ev")}
        p = subprocess.run(["/opt/venv/bin/python", "-B", str(ROOT / "vf" / "run.py"), cid], env=env, capture_output=True, text=True, cwd=ROOT)
        ok = p.returncode == 1 and f"VIOLATION property={cid} " in p.stdout
        return i, cid, "caught" if ok else f"MISSED rc={p.returncode} {p.stdout[-200:]!r}"
    finally:
        shutil.rmtree(t, ignore_errors=True)


miss = []
with ThreadPoolExecutor(a.jobs) as ex:
    for i, cid, res in ex.map(one, ids):
        print(f"{i:28} {cid} {res}", flush=True)
        if res != "caught":
            miss.append(i)
print(f"{len(ids) - len(miss)}/{len(ids)} caught; missed: {miss}")
