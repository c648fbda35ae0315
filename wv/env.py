"""Import the code under test from /repo's working tree, leaving no trace there."""

import os
import sys

sys.dont_write_bytecode = True
# Never read bytecode left next to the sources either: always compile what is
# in the working tree now.
sys.pycache_prefix = "/nonexistent-wv-pycache"
REPO = os.environ.get("WV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)

import wizard  # noqa: E402

assert os.path.realpath(wizard.__file__).startswith(os.path.realpath(SRC)), (
    "wrong wizard package: " + wizard.__file__
)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
