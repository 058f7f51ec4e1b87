#!/opt/venv/bin/python
"""check.py <property id> [quick|thorough]   or   check.py --replay <file>"""
import os
import sys

WANT = {"LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core

if sys.argv[1] == "--replay":
    sys.exit(core.replay_file(sys.argv[2]))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(core.run_property(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
