#!/usr/bin/env python3
"""run.py C01 [--replay FILE]: runs the check of one property (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY) \
        and not os.environ.get("VMON_PY"):
    os.environ["VMON_PY"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
from vmon import runner  # noqa: E402

if __name__ == "__main__":
    args = sys.argv[1:]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    sys.exit(runner.main(args[0].upper(), replay))
