"""Check runner: worker processes, case derivation, verdicts, watchdog, evidence.

A check module (vf/checks/cXX.py) provides
    ID, LEVEL, RULE, ASSUMPTIONS
    plan(tier) -> list[(group, count)]           deterministic work list
    case(ctx, group, rng, i)                      runs one case, raises Violation
    required(tier) -> dict counter -> minimum     (optional) monitor-reached floor

Each case draws every choice from Random(f"{seed}:{ID}:{group}:{i}"), so a
replay file {seed, tier, group, i} reproduces it alone.

Verdicts: Violation -> exit 1 + VIOLATION line; nothing refuted and all
required counters reached -> exit 0; anything else (harness error, monitor not
reached, timeout) -> exit 2 (inconclusive).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
EVID = Path(os.environ.get("VF_EVID") or ROOT / "evidence")
REPLAYS = ROOT / "replays"
NPROC = int(os.environ.get("VF_NPROC") or max(1, min(8, os.cpu_count() or 1)))


class Violation(Exception):
    """The code under test was observed to break the property."""

    def __init__(self, msg: str, **detail) -> None:
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


def jsonable(o):
    if isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        return {"hex": b[:400].hex(), "len": len(b)}
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in list(o)[:40]]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o if not isinstance(o, str) else o[:500]
    return repr(o)[:500]


class Ctx:
    def __init__(self, check_id: str, tier: str, seed: int, marker: str | None = None) -> None:
        self.id, self.tier, self.seed = check_id, tier, seed
        self.evals = 0
        self.seen: set[bytes] = set()
        self.count: Counter = Counter()
        self.samples: list = []
        self._mm = None
        if marker:
            fd = os.open(marker, os.O_RDWR | os.O_CREAT)
            os.ftruncate(fd, 64)
            self._mm = mmap.mmap(fd, 64)
            os.close(fd)
        self.thorough = tier == "thorough"
        self._case_t = None
        self.cur = None

    # -- counters ---------------------------------------------------------
    def seen_case(self, key, nontrivial: bool = True, n: int = 1) -> None:
        """Count one evaluation; distinct by key when non-trivial."""
        self.evals += n
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf-8", "surrogatepass")
            self.seen.add(hashlib.blake2b(key, digest_size=8).digest())

    def hit(self, name: str, n: int = 1) -> None:
        self.count[name] += n

    def sample(self, obj, cap: int = 3) -> None:
        if len(self.samples) < cap:
            self.samples.append(jsonable(obj))

    def mark(self, gi: int, i: int) -> None:
        if self._mm is not None:
            self._mm[0:16] = struct.pack("<qq", gi, i)

    # -- verdict helper ---------------------------------------------------
    def check(self, cond, msg: str, **detail) -> None:
        self.count["oracle_evaluations"] += 1
        if not cond:
            raise Violation(msg, **detail)


def case_rng(seed: int, cid: str, group: str, i: int) -> random.Random:
    return random.Random(f"{seed}:{cid}:{group}:{i}")


def setup_path() -> None:
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    import warnings

    warnings.filterwarnings("ignore")
    import rxls

    f = Path(rxls.__file__).resolve()
    if REPO.resolve() not in f.parents:
        raise Inconclusive(f"rxls imported from {f}, not from {REPO}")


# -------------------------------------------------------------- watchdog ---
class Watchdog(threading.Thread):
    """Decides 'this case will not end' from process state, not from a deadline.

    Two verdicts: (a) one case burned more than CPU_LIMIT seconds of CPU (cases
    need well under a second); (b) every thread of the process has been asleep
    with no CPU progress in SAMPLES consecutive 1 s samples although the case is
    not waiting for anything outside this process.
    """

    CPU_LIMIT = 90.0
    SAMPLES = 45

    def __init__(self, ctx: Ctx, report) -> None:
        super().__init__(daemon=True, name="vf-watchdog")
        self.ctx, self.report = ctx, report
        self.external_wait = False  # set while waiting for a child process

    def run(self) -> None:
        last_key, cpu0, still, last_cpu = None, 0.0, 0, 0.0
        me = threading.get_native_id()
        while True:
            time.sleep(1.0)
            key = self.ctx.cur
            cpu = time.process_time()
            if key is None or key != last_key or self.external_wait:
                last_key, cpu0, still, last_cpu = key, cpu, 0, cpu
                continue
            if cpu - cpu0 > self.CPU_LIMIT * (key[3] if len(key) > 3 else 1):
                self.report(f"the case used over {self.CPU_LIMIT:.0f} s of CPU without ending (livelock)")
            asleep = cpu - last_cpu < 0.05
            if asleep:
                for t in os.listdir("/proc/self/task"):
                    if int(t) == me:
                        continue
                    try:
                        st = open(f"/proc/self/task/{t}/stat").read().rsplit(")", 1)[1].split()[0]
                    except OSError:
                        continue
                    if st not in "S":
                        asleep = False
            last_cpu = cpu
            still = still + 1 if asleep else 0
            if still >= self.SAMPLES:
                self.report(f"every thread has been asleep for {still} s: the call never returns (deadlock)")


WATCHDOG: Watchdog | None = None


class external_wait:
    def __enter__(self):
        if WATCHDOG:
            WATCHDOG.external_wait = True

    def __exit__(self, *a):
        if WATCHDOG:
            WATCHDOG.external_wait = False


# ---------------------------------------------------------------- worker ---
def from_repo(tb) -> bool:
    """True when an exception comes from code under test: of its frames that are of it or of the harness the innermost is of the former (libraries may be below)."""
    last = None
    while tb is not None:
        name = str(Path(tb.tb_frame.f_code.co_filename).resolve())
        if str(REPO / "rxls") in name:
            last = True
        elif name.startswith(str(ROOT / "vf") + os.sep):
            last = False
        tb = tb.tb_next
    return bool(last)


def worker(cid: str, tier: str, seed: int, shard: int, nshards: int, out: str, only=None) -> int:
    global WATCHDOG
    t0 = time.monotonic()
    # more than ten times of what any case needs: memory that runs away is a MemoryError, not the end of the machine
    top = (8 if cid == "C22" else 4) << 30
    resource.setrlimit(resource.RLIMIT_AS, (top, top))
    res = {"status": "ok", "violations": []}
    ctx = Ctx(cid, tier, seed, None if only else out + ".marker")

    def dump():
        res.update(
            evals=ctx.evals, seen=[s.hex() for s in ctx.seen], counts=dict(ctx.count), samples=ctx.samples,
            wall=time.monotonic() - t0,
        )
        Path(out).write_text(json.dumps(res, ensure_ascii=True))

    def hang(msg: str) -> None:
        res["violations"].append({"group": ctx.cur[0], "i": ctx.cur[1], "msg": msg, "detail": {"stacks": _stacks()}})
        dump()
        os._exit(0)

    try:
        setup_path()
        mod = importlib.import_module(f"vf.checks.{cid.lower()}")
        WATCHDOG = Watchdog(ctx, hang)
        WATCHDOG.start()
        if hasattr(mod, "prepare"):
            mod.prepare(ctx)
        budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "3000"))
        # a sample of the cases only, for surveys (never set by a registered command)
        frac = float(os.environ.get("VF_FRACTION", "1"))
        stop = Path(out).parent / "stop"
        for gi, (group, n, *w) in enumerate(mod.plan(tier)):
            for i in range(n):
                if only is not None:
                    if (group, i) != tuple(only):
                        continue
                elif (i + gi) % nshards != shard:
                    continue
                if frac < 1 and i and i * 2654435761 % 1000 >= frac * 1000 and only is None:
                    continue
                if stop.exists():  # another worker has found a violation
                    break
                if time.monotonic() - t0 > budget:
                    ctx.hit("skipped_for_time_budget")
                    continue
                ctx.mark(gi, i)
                ctx.cur = (group, i, time.monotonic(), w[0] if w else 1)
                try:
                    mod.case(ctx, group, case_rng(seed, cid, group, i), i)
                except Violation as v:
                    res["violations"].append({"group": group, "i": i, "msg": v.msg, "mech": v.detail.get("mech"), "detail": jsonable(v.detail)})
                except Inconclusive as e:
                    ctx.hit("inconclusive_cases")
                    res.setdefault("inconclusive", []).append(f"{group}[{i}]: {e}")
                except Exception as e:
                    if not from_repo(e.__traceback__):
                        raise
                    res["violations"].append({"group": group, "i": i, "msg": f"unexpected {type(e).__name__} from the code under test: {e}", "detail": {"tb": traceback.format_exc()[-3000:]}})
                ctx.cur = None
                if res["violations"]:
                    stop.touch()
                    break
            if res["violations"] or stop.exists():
                break
        if hasattr(mod, "finish"):
            mod.finish(ctx)
    except BaseException:
        res["status"] = "error"
        res["error"] = traceback.format_exc()[-6000:]
    dump()
    sys.stdout.flush()
    # threads started by the code under test must not keep the worker alive
    os._exit(0)


def _stacks() -> list[str]:
    names = {t.ident: t.name for t in threading.enumerate()}
    return [names.get(k, str(k)) + ":\n" + "".join(traceback.format_stack(f)[-6:]) for k, f in sys._current_frames().items()]


# ---------------------------------------------------------------- parent ---
def child_env() -> dict:
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", PYTHONFAULTHANDLER="1",
               OMP_NUM_THREADS="1", ARROW_IO_THREADS="2", PYTHONPATH=str(ROOT))
    env.setdefault("PYTHONPYCACHEPREFIX", "/nonexistent-pycache")
    return env


ZONES = ["UTC", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "NST3:30NDT,M3.2.0,M11.1.0", "<-12>12", "MSK-3", "<+0545>-5:45"]


def shard_env(shard: int) -> dict:
    """Workers differ in what no result may depend on: the order of sets, the local time zone."""
    return {"PYTHONHASHSEED": str(shard), "TZ": ZONES[shard % len(ZONES)]}


def known_findings() -> list[dict]:
    f = ROOT / "known-findings.json"
    return json.loads(f.read_text())["open"] if f.exists() else []


def main(argv: list[str]) -> int:
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    only, at = None, 0
    if "--replay" in argv:
        rp = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        tier, seed, only = rp["tier"], rp["seed"], (rp["group"], rp["i"])
        at = rp.get("shard", 0)
    t0 = time.monotonic()
    tmp = Path(tempfile.mkdtemp(prefix=f"vf-{cid}-"))
    try:
        return _main(cid, tier, seed, only, at, tmp, t0)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def _main(cid, tier, seed, only, at, tmp, t0) -> int:
    mod_src = ROOT / "vf" / "checks" / f"{cid.lower()}.py"
    if not mod_src.exists():
        print(f"no such check {cid}")
        return 2
    meta = _meta(cid, tier)
    n = 1 if only else NPROC
    procs = []
    for s in range(n):
        out = str(tmp / f"w{s}.json")
        spec = json.dumps([cid, tier, seed, s, n, out, only])
        env = child_env() | shard_env(at if only else s) | meta.get("env", {})
        procs.append((s, out, subprocess.Popen(
            [PY, "-P", "-m", "vf.worker", spec], cwd=str(ROOT), env=env,
            stdout=open(tmp / f"w{s}.out", "wb"), stderr=subprocess.STDOUT)))
    limit = float(os.environ.get("VF_LIMIT", "800" if tier == "quick" else "7200"))
    results, violations, errors = [], [], []
    for s, out, p in procs:
        try:
            rc = p.wait(max(1.0, limit - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {s} exceeded {limit:.0f} s")
            continue
        if Path(out).exists() and rc == 0:
            r = json.loads(Path(out).read_text())
            results.append(r)
            violations += [v | {"shard": at if only else s} for v in r["violations"]]
            if r["status"] != "ok":
                errors.append(f"worker {s}: {r.get('error')}")
            for m in r.get("inconclusive", [])[:5]:
                errors.append("inconclusive: " + m)
        elif rc < 0 and Path(out + ".marker").exists():
            gi, i = struct.unpack("<qq", Path(out + ".marker").read_bytes()[:16])
            if -rc == signal.SIGKILL:
                errors.append(f"worker {s} was killed (SIGKILL) in case {gi}/{i}")
                continue
            sys.path.insert(0, str(ROOT))
            groups = _plan_names(cid, tier)
            violations.append({"group": groups[gi], "i": i, "shard": at if only else s, "msg": f"interpreter died with signal {-rc} ({signal.Signals(-rc).name}) inside the code under test",
                               "detail": {"output": (tmp / f"w{s}.out").read_text(errors="replace")[-3000:]}})
        else:
            errors.append(f"worker {s} exited {rc}: " + (tmp / f"w{s}.out").read_text(errors="replace")[-3000:])

    counts: Counter = Counter()
    seen: set = set()
    evals, samples = 0, []
    for r in results:
        counts.update(r["counts"])
        seen.update(r["seen"])
        evals += r["evals"]
        samples += r["samples"]
    # known findings suppress only what they name, by mechanism
    known = [k for k in known_findings() if k["property"] == cid]
    fresh = []
    for v in violations:
        k = next((k for k in known if v.get("mech") and v["mech"] == k["mech"]), None)
        if k is None:
            fresh.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={cid} {k['what']}")
    short = {k: (counts.get(k, 0), m) for k, m in meta["required"].items() if counts.get(k, 0) < m} if not only else {}

    if not only:
        EVID.mkdir(exist_ok=True)
        cov = {
            "evaluations": evals, "distinct_nontrivial": len(seen), "rule": meta["rule"],
            "samples": samples[:8] or [{"note": "no case completed"}],
            "monitor_counters": dict(sorted(counts.items())), "workers": len(results),
        }
        if meta.get("exhaustive"):
            cov["exhaustive"] = True
        (EVID / f"{cid}.json").write_text(json.dumps({
            "property": cid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
            "assumptions": meta["assumptions"], "wall_s": round(time.monotonic() - t0, 2), "violations": len(fresh),
        }, indent=1, ensure_ascii=False))

    if fresh:
        REPLAYS.mkdir(exist_ok=True)
        v = fresh[0]
        rp = REPLAYS / f"{cid}-{seed}-{tier}-{v['group']}-{v['i']}.json"
        rp.write_text(json.dumps({"property": cid, "tier": tier, "seed": seed, "group": v["group"], "i": v["i"], "shard": v["shard"],
                                  "msg": v["msg"], "detail": v.get("detail")}, indent=1, ensure_ascii=True))
        for v in fresh[:5]:
            print(f"  {v['group']}[{v['i']}]: {v['msg'][:600]}")
        print(f"VIOLATION property={cid} replay={rp}")
        return 1
    if errors or short or (not only and evals == 0):
        for e in errors[:6]:
            print("ERROR:", e)
        if short:
            print("INCONCLUSIVE: monitors not reached often enough:", short)
        return 2
    print(f"{cid} held: {evals} evaluations, {len(seen)} distinct non-trivial, tier={tier} seed={seed}, {time.monotonic() - t0:.1f} s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counts.items())))
    return 0


def _meta(cid: str, tier: str) -> dict:
    """Static facts of a check module, read without importing rxls in the parent."""
    code = (
        "import json,sys,importlib;m=importlib.import_module('vf.checks.'+sys.argv[1].lower());t=sys.argv[2];"
        "print(json.dumps(dict(level=m.LEVEL,rule=m.RULE,assumptions=m.ASSUMPTIONS,groups=[g[0] for g in m.plan(t)],"
        "required=m.required(t) if hasattr(m,'required') else {},exhaustive=bool(getattr(m,'EXHAUSTIVE',{}).get(t)),env=getattr(m,'ENV',{}))))"
    )
    p = subprocess.run([PY, "-P", "-c", "import sys;sys.path.insert(0,%r);" % str(ROOT) + code, cid, tier], capture_output=True, text=True, env=child_env() | {"PYTHONPATH": f"{ROOT}:{REPO}"}, cwd=str(ROOT))
    if p.returncode:
        return {"level": "exploration", "rule": "?", "assumptions": [], "groups": [], "required": {"meta_import_failed": 1}, "err": p.stderr}
    return json.loads(p.stdout.splitlines()[-1])


def _plan_names(cid: str, tier: str) -> list[str]:
    g = _meta(cid, tier)["groups"]
    return g or ["?"] * 64
