"""setup_cmd: nothing to build; verifies that the interpreter and the code under test import."""
import subprocess, sys
from pathlib import Path
R = Path(__file__).resolve().parent.parent
p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import sys; sys.path.insert(0,'/repo'); import rxls.reader, pyarrow, numpy; sys.path.insert(0,%r); import vf.wb, vf.model, vf.gen; print('ok')" % str(R)])
sys.exit(p.returncode)
