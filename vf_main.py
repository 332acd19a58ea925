"""Entry point of the checks: runs one property's check against /repo."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:] = [REPO, HERE] + [
    p for p in sys.path if p not in (REPO, HERE, "", os.getcwd())
]

import dtformats  # noqa: E402

if not os.path.abspath(dtformats.__file__).startswith(REPO + os.sep):
    print(f"dtformats was imported from {dtformats.__file__}")
    sys.exit(2)

from vf import core  # noqa: E402

sys.exit(core.main(sys.argv))
