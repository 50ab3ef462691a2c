import json
import sys

from vf import mon

if __name__ == "__main__":
    sys.exit(mon.worker(*json.loads(sys.argv[1])))
