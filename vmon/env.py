"""Where the code under test is, and how it is loaded."""
import logging
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VMON_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
except ValueError:
    SEED = 1
WORKERS = int(os.environ.get("VMON_WORKERS", "0")) or min(8, os.cpu_count() or 1)
SCALE = float(os.environ.get("VMON_SCALE", "1"))
PKG = "atlas_doc_parser"


def load():
    """Import the package from REPO's working tree (never from anywhere else)."""
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import atlas_doc_parser.api as api
    where = os.path.abspath(api.__file__)
    if not where.startswith(REPO + os.sep):
        raise RuntimeError(f"loaded {where}, not from {REPO}")
    return api


def quiet_logging():
    logging.getLogger().addHandler(logging.NullHandler())
