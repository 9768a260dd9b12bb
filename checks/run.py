#!/usr/bin/env python3
"""usage: run.py P01 [quick|thorough] [--replay FILE]   (re-executes itself under the repository's Python)"""
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PY = "/opt/spl-venv/bin/python"
if sys.prefix != "/opt/spl-venv" or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY, "-B", __file__] + sys.argv[1:])
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / "lib"))
from vf import harness  # noqa: E402

harness.main(sys.argv[1].upper(), sys.argv[2:])
