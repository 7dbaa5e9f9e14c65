"""Entry point: check.py <property id> [quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
sys.dont_write_bytecode = True
import symx  # noqa: E402,F401
from symx import check  # noqa: E402

pid = sys.argv[1]
mod = importlib.import_module('checks.' + pid.lower())
check.main(pid, mod.main)
