#!/usr/bin/env python3
"""usage: check.py Cxx [quick|thorough] -- decide one property on /repo's working tree."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONPATH=os.path.join(REPO, "src"))
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, ROOT)
import vlib  # noqa: E402,F401
import PythonicDISORT  # noqa: E402

assert os.path.realpath(PythonicDISORT.__file__).startswith(os.path.realpath(REPO)), PythonicDISORT.__file__
from vlib import runner  # noqa: E402

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.stdout.flush()
rc = runner.main(prop, tier)
sys.stdout.flush()
sys.exit(rc)
