#!/usr/bin/env python3
"""selftest.py [IDS...]  Shows that a run is a pure function of its seed and the code: for several seeds the
digest of all event logs must be the same at every worker count, under another PYTHONHASHSEED and when the
run is made again.  Works on a copy of /verif so that the evidence files stay as they are."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = sys.argv[1:] or ["C%02d" % i for i in range(1, 30)]
SEEDS = os.environ.get("SELFTEST_SEEDS", "1 2 3 4 5").split()
RUNS = os.environ.get("SELFTEST_RUNS", "60")
SETUPS = [("8", "0"), ("8", "0"), ("3", "0"), ("1", "4711"), ("5", "99")]

tmp = tempfile.mkdtemp(prefix="selftest-")
bad = 0
try:
    shutil.copytree(os.path.join(HERE, "sim"), os.path.join(tmp, "sim"))
    for n in ("check.py", "known-findings.jsonl"):
        if os.path.exists(os.path.join(HERE, n)):
            shutil.copy(os.path.join(HERE, n), tmp)
    for pid in IDS:
        for seed in SEEDS:
            logs = []
            for workers, hashseed in SETUPS:
                env = dict(os.environ, VERIF_SEED=seed, SIM_RUNS=RUNS, SIM_WORKERS=workers, SIM_HASHSEED=hashseed)
                env.pop("SIM_EXEC", None)
                p = subprocess.run([sys.executable, os.path.join(tmp, "check.py"), pid], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                m = re.search(r"event log (\w+)", p.stdout.decode())
                logs.append(m.group(1) if m else "rc %d: %s" % (p.returncode, p.stdout.decode()[-300:]))
            if len(set(logs)) > 1:
                bad += 1
                print("DIFFERS %s seed %s: %s" % (pid, seed, dict(zip(map(str, SETUPS), logs))))
        print(pid, "done", flush=True)
finally:
    shutil.rmtree(tmp)
print("%d differences" % bad)
sys.exit(1 if bad else 0)
