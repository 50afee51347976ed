import os
import sys
from importlib import import_module

from . import explore


def main():
    if sys.argv[1] == "replay":
        return explore.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = import_module("mc.props." + pid.lower())
    return explore.run(mod, pid, tier, seed)


sys.stdout.reconfigure(line_buffering=True)
code = main()
sys.stdout.flush()
os._exit(code)
