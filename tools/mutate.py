#!/opt/venv/bin/python
"""mutate.py OUTDIR [seed] [limit]   Mechanical mutants of the library, as a measure of reach.

Each mutant that still passes the test suite is given to the checks (few runs each); the list of those no
check reports is what is worth reading.  Nothing here is used by the checks.  Works on copies in OUTDIR."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = sys.argv[1]
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
LIMIT = int(sys.argv[3]) if len(sys.argv) > 3 else 1 << 30
IDS = os.environ.get("MUT_IDS", "C12 C17 C11 C16 C15 C10 C18 C13 C09 C02 C03 C08 C07 C14 C06 C05 C04 C01").split()
RUNS = os.environ.get("MUT_RUNS", "250")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def variants(node, docs):
    """-> replacements of one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        n = copy.deepcopy(node)
        n.ops = [CMP[type(node.ops[0])]()]
        yield n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield n
    elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield n
    elif isinstance(node, ast.Constant) and node not in docs:
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield ast.Constant(v + 1)
        elif isinstance(v, str) and 0 < len(v) < 30 and "(?P" not in v:
            yield ast.Constant(v + "X")
        elif v is None:
            return
        elif isinstance(v, str) and "(?P" in v:
            for a, b in (("$", ""), ("|VRB", ""), ("\\d{2}", "\\d{1}"), ("?P?", ""), ("0-5", "0-9"), ("[RLC]", "[RL]"),
                         ("M|P", "M"), ("24", "23"), ("\\d", "[1-9]")):
                if a in v:
                    yield ast.Constant(v.replace(a, b))
    elif isinstance(node, ast.Return) and node.value is not None and not (
            isinstance(node.value, ast.Constant) and node.value.value is None):
        yield ast.Return(ast.Constant(None))
    elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise)):
        yield ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield ast.Pass()
    elif isinstance(node, ast.Break):
        yield ast.Pass()
    elif isinstance(node, ast.Continue):
        yield ast.Break()
    elif isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords:
        n = copy.deepcopy(node)
        n.args = n.args[::-1]
        yield n


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    docs = {n.value for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    for n in ast.walk(tree):
        if isinstance(n, (ast.AnnAssign, ast.arg)) or isinstance(n, ast.FunctionDef):
            for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
                if a is not None:
                    docs |= set(ast.walk(a))
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            if isinstance(val, list):
                for i, c in enumerate(val):
                    if isinstance(c, ast.AST):
                        for v in variants(c, docs):
                            val[i] = ast.copy_location(v, c)
                            yield c.lineno if hasattr(c, "lineno") else 0, ast.unparse(c)[:100], ast.unparse(v)[:100], \
                                ast.unparse(ast.fix_missing_locations(tree))
                            val[i] = c
            elif isinstance(val, ast.AST) and val not in docs:
                for v in variants(val, docs):
                    setattr(parent, field, ast.copy_location(v, val))
                    yield getattr(val, "lineno", 0), ast.unparse(val)[:100], ast.unparse(v)[:100], \
                        ast.unparse(ast.fix_missing_locations(tree))
                    setattr(parent, field, val)


def work(job):
    n, rel, line, old, new, text = job
    d = os.path.join(OUT, "w%d" % n)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "doc"))
    try:
        open(os.path.join(d, rel), "w").write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", FAKETIME="@2022-10-06 12:00:00",
                   FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD="/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                "-p", "no:warnings", "--timeout=30", "tests"], cwd=d, env=env, timeout=200,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            return job, "tests", ""
        if p.returncode:
            return job, "tests", ""
        env = dict(os.environ, AEROMET_REPO=d, SIM_RUNS=RUNS, SIM_WORKERS="1", SIM_SHRINK="0", VERIF_SEED=str(SEED))
        env.pop("SIM_EXEC", None)
        for pid in IDS:
            p = subprocess.run([os.path.join(OUT, "verif", "check.py"), pid], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode:
                return job, pid, p.stdout.decode()[-400:]
        return job, "none", ""
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    shutil.copytree(HERE, os.path.join(OUT, "verif"), dirs_exist_ok=True,
                    ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    jobs = []
    for base, _, files in os.walk(os.path.join(REPO, "aeromet_py")):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(base, f), REPO)
            if f.endswith(".py") and f not in ("stations.py", "countries.py", "__main__.py", "__version__.py"):
                if os.environ.get("MUT_FILES") and not any(x in rel for x in os.environ["MUT_FILES"].split()):
                    continue
                for line, old, new, text in mutants(os.path.join(REPO, rel)):
                    jobs.append((rel, line, old, new, text))
    random.Random(SEED).shuffle(jobs)
    jobs = [(n,) + j for n, j in enumerate(jobs[:LIMIT])]
    print(len(jobs), "mutants", flush=True)
    tally = {}
    with open(os.path.join(OUT, "result.jsonl"), "w") as f, cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for fut in cf.as_completed([ex.submit(work, j) for j in jobs]):
            job, who, out = fut.result()
            tally[who] = tally.get(who, 0) + 1
            f.write(json.dumps({"file": job[1], "line": job[2], "old": job[3], "new": job[4], "caught": who, "out": out}) + "\n")
            f.flush()
    print(tally)
