#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]   (see DESIGN.md)"""
import os
import sys

PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
        "SIM_EXEC": "1"}
if os.environ.get("SIM_EXEC") != "1":
    env = dict(os.environ)
    env.update(WANT)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS", "LD_PRELOAD", "PYTHONOPTIMIZE", "PYTHONMALLOC"):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", "-s", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import runner

if __name__ == "__main__":
    try:
        rc = runner.main(sys.argv[1], sys.argv[2:])
    except runner.HarnessError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
