#!/opt/veriftools/pyvenv/bin/python
"""run.py check C05 [quick|thorough]  |  run.py replay FILE"""
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pbt"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pbt import core  # noqa: E402


def main(argv):
    if argv[0] == "replay":
        return core.main_replay(argv[1])
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return core.main_check(prop, tier, seed)
    except core.HarnessError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


sys.exit(main(sys.argv[1:]))
