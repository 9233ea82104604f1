#!/opt/venv/bin/python
"""seeded.py [--all] [ids...]   Runs the check of each planted bug (with --all: every check) against a copy with the bug."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(d) for d in glob.glob(HERE + "/seeded/*"))
IDS = ["C%02d" % i for i in range(1, 30)]
tmp = tempfile.mkdtemp(prefix="seeded-")
shutil.copytree(HERE, tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))


def one(bid):
    d = os.path.join(tmp, bid)
    subprocess.run(["git", "clone", "-q", os.environ.get("AEROMET_REPO", "/repo"), d], check=True)
    subprocess.run(["git", "apply", os.path.join(HERE, "seeded", bid, "patch.diff")], cwd=d, check=True)
    prop = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))["property"]
    got = {}
    for pid in ([prop] + [i for i in IDS if i != prop]) if ALL else [prop]:
        env = dict(os.environ, AEROMET_REPO=d, SIM_WORKERS=os.environ.get("SIM_WORKERS", "4"))
        env.pop("SIM_EXEC", None)
        p = subprocess.run([tmp + "/verif/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        got[pid] = (p.returncode, p.stdout.decode())
    shutil.rmtree(d)
    return bid, prop, got


try:
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for bid, prop, got in ex.map(one, ids):
            rc, out = got[prop]
            first = (out.strip().splitlines() or [""])[0]
            print("%-4s %s %s%s" % ({1: "hit", 0: "MISS"}.get(rc, "ERR"), bid, "" if not ALL else
                                    " ".join(k for k, v in got.items() if v[0] == 1) + " ",
                                    "" if rc == 1 and ALL else first[:260]), flush=True)
            for k, v in got.items():
                if v[0] not in (0, 1):
                    print("   error of", k, v[1][-500:])
finally:
    shutil.rmtree(tmp)
