import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vf import mon  # noqa: E402

if __name__ == "__main__":
    sys.exit(mon.main(sys.argv[1:]))
