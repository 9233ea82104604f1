#!/opt/venv/bin/python
"""plant.py BUGS.py [ids...]   Makes seeded/<id>/ from bug definitions, after confirming each in a scratch copy.

BUGS.py defines BUGS: {id: {"property", "needs", "what", "edits": [(file, old, new)], "demo": python source}}.
A bug is kept only if it compiles, passes the test suite, changes a line of the original repository, and its
demo succeeds on the unchanged tree and fails with it."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2ed7b97"
DEMO_SH = """#!/bin/bash
# cwd: the repository.  Exit 0: the property holds in this demonstration.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/demo.py"
"""
TEST = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:warnings",
        "--timeout=30", "tests"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", FAKETIME="@2022-10-06 12:00:00", NO_FAKE_STAT="1",
           FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD="/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def plant(bid, b):
    d = "/tmp/plant-%s" % bid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("AEROMET_REPO", "/repo"), d], check=True)
    t = d + "-seed"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    try:
        open(t + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(t + "/demo.sh", 0o755)
        open(t + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        p = sh([t + "/demo.sh"], cwd=d, timeout=300)
        if p.returncode:
            return "demo fails on the unchanged tree: " + p.stdout.decode()[-1500:]
        for f, old, new in b["edits"]:
            path = os.path.join(d, f)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s: %d places for %r" % (f, s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=d).stdout.decode()
        # every changed line must be a line of the original repository
        orig = own = 0
        for f in {e[0] for e in b["edits"]}:
            blame = sh(["git", "blame", "-s", "HEAD", "--", f], cwd=d).stdout.decode().splitlines()
            n = None
            for line in sh(["git", "diff", "-U0", "--", f], cwd=d).stdout.decode().splitlines():
                if line.startswith("@@"):
                    n = int(line.split()[1][1:].split(",")[0])
                elif line.startswith("-") and not line.startswith("---"):
                    if blame[n - 1].lstrip("^").startswith(BASE):
                        orig += 1
                    else:
                        own += 1
                    n += 1
        if not orig:
            return "changes no line of the original repository (own %d)" % own
        p = sh([sys.executable, "-m", "compileall", "-q", "aeromet_py"], cwd=d, env=dict(os.environ, PYTHONPYCACHEPREFIX=t + "/pyc"))
        if p.returncode:
            return "does not compile: " + p.stdout.decode()[-800:]
        p = sh(TEST, cwd=d, env=ENV, timeout=300)
        if p.returncode:
            return "tests fail: " + p.stdout.decode()[-800:]
        p = sh([t + "/demo.sh"], cwd=d, timeout=300)
        if not p.returncode:
            return "demo passes with the change"
        out = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(t + "/" + n, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(out + "/meta.json", "w"), indent=1)
        return "ok (orig %d own %d): %s" % (orig, own, p.stdout.decode().strip().splitlines()[-1][:150] if p.stdout else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bid, b in bugs.items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]:
            continue
        print(bid, plant(bid, b), flush=True)
