"""Writes MANIFEST.json from the check modules."""
import importlib, json, sys
from pathlib import Path
R = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(R), "/repo"]
TECH = {
 "C01": "runtime oracle: independent BIFF12 encoder over exhaustive ids and boundary lengths",
 "C02": "stream monitor + independent decoder, every cut position",
 "C03": "runtime oracle: independent UTF-16/XML codecs over random and exhaustive code points",
 "C04": "runtime oracle: independent RK decoder, full 2^32 sweep in thorough",
 "C05": "runtime oracle: extended-precision/rational date arithmetic, all days and seconds",
 "C06": "runtime monitoring against a reference reader over generated XLSX workbooks",
 "C07": "runtime monitoring against a reference reader over generated XLSB workbooks",
 "C08": "differential runtime monitoring: two renderings of one workbook",
 "C09": "runtime monitoring with grammar-generated formats of known class",
 "C10": "runtime monitoring of row/column windows against a reference reader",
 "C11": "runtime monitoring of header construction against a reference reader",
 "C12": "runtime monitoring of header lookup against a reference reader and a metamorphic oracle",
 "C13": "runtime monitoring of row filters against a reference reader",
 "C14": "runtime monitoring of column typing against a reference reader",
 "C15": "runtime monitoring of conflict resolution against a reference reader",
 "C16": "runtime monitoring of dtype requests against checked casts of the untyped read",
 "C17": "runtime monitoring of null texts against a reference reader",
 "C18": "runtime monitoring of sheet selection with tagged sheets",
 "C19": "fault injection: cuts, flips, I/O errors and callback errors at every point; all-or-raise oracle",
 "C20": "corrupted files under debug allocators; crash, structural and origin monitors",
 "C21": "fd/thread/stream monitors around successful, failing and early-stopped reads",
 "C22": "schedule perturbation and history monitors against a solo reference read",
 "C23": "stateful history monitoring of the column store against a list model",
 "C25": "runtime oracles of the other checks on a copy of the package whose numba branches run interpreted under a stand-in",
 "C26": "runtime monitoring with meaningless, inert and arbitrary arguments; crash monitor under debug allocators",
 "C28": "resource monitors: executed-line counts, CPU-time ratios, allocator peaks, stream bytes, retention over repeated reads",
 "C29": "side-effect monitors: audit hook, descriptor capture, process-state, directory and argument snapshots; outside-content tags",
 "C30": "history and schedule monitors over open workbook objects against a cell model",
 "C31": "element-wise comparison of conversions and kernels with plain Python, and lifetime recheck after the sources are freed",
 "C24": "callback recorder: counts, arguments and effect-freeness",
}
NOTE = {
 "default": "Holds on every execution of the run's generated workload; nothing is claimed for inputs not generated. Trusts this framework's file writers and reference reader (independent of rxls).",
}
NA = {"C27": "polars is not installed in this sandbox and cannot be (no network), and a stand-in for it would only be a guess of its parser, so this branch cannot be executed and therefore not monitored."}
checks, na = [], []
for l in (R / "properties.jsonl").read_text().splitlines():
    pid = json.loads(l)["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    try:
        m = importlib.import_module(f"vf.checks.{pid.lower()}")
    except ModuleNotFoundError:
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    cmd = f"/opt/venv/bin/python vf/run.py {pid}"
    checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}", "technique": TECH[pid], "level": m.LEVEL,
                   "level_note": getattr(m, "NOTE", NOTE["default"]) + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes public calls. Pure Python, so checks import /repo's working tree directly (bytecode cache off)."},
          open(R / "MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "n/a")
