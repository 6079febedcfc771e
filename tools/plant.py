"""plant.py SPECS.py [id...]: try planted bugs in a scratch copy of /repo and keep those that count in seeded/.

A spec: dict(id=, prop=, needs=, breaks=, edits=[(file, old, new), ...], demo="python text")"""
import json
import os
import re
import runpy
import shutil
import subprocess as sp
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "27c1fee"
HEAD = '''import json
import os
import sys
from pathlib import Path

T = Path(os.environ["DEMO_TMP"])
from models.wigish import GDBMSFilePath  # noqa: E402
from wiggle_shell.core.query.query import query  # noqa: E402


def db(name="d", database="{}", indexes='{"node_relationships": {}, "node_labels": [], "relationship_names": []}', number="0"):
    f = T / name
    f.mkdir(exist_ok=True)
    ps = [f / "database.json", f / "indexes.json", f / "wn.txt"]
    for p, t in zip(ps, (database, indexes, number)):
        p.write_text(t)
    return GDBMSFilePath(database_file_path=ps[0], indexes_file_path=ps[1], wiggle_number_file_path=ps[2])


def nodes(g):
    return json.loads(g.database_file_path.read_text())


def indexes(g):
    return json.loads(g.indexes_file_path.read_text())


def number(g):
    return int(g.wiggle_number_file_path.read_text())


def state(g):
    return [p.read_text() for p in (g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path)]


def attempt(q, g):
    try:
        query(q, g)
    except Exception as e:
        return e
    return None


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# exit 0: behaves as it should; run with the repository as the working directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
DEMO_TMP="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 "$PY" "$D/demo.py"
'''


def run(cmd, **kw):
    return sp.run(cmd, shell=isinstance(cmd, str), stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    want = set(sys.argv[2:])
    for s in specs:
        if want and s["id"] not in want:
            continue
        wt = tempfile.mkdtemp(prefix="wt")
        try:
            print(s["id"], one(s, os.path.join(wt, "repo")), flush=True)
        finally:
            shutil.rmtree(wt)


def one(s, wt):
    run(["cp", "-a", "/repo", wt])
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f"EDIT: {f}: {t.count(old)} matches of {old[:50]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "-C", wt, "diff"]).stdout
    # the lines removed or the lines around an addition have to be original ones
    orig = mine = 0
    for f in {e[0] for e in s["edits"]}:
        bl = run(["git", "-C", "/repo", "blame", "-s", "-l", f"{BASE}..HEAD", "--", f]).stdout.splitlines()
        old = run(["git", "-C", wt, "diff", "-U0", "--", f]).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", old, re.M):
            a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
            for i in range(a, a + n):
                if bl[i - 1].startswith("^"):
                    orig += 1
                else:
                    mine += 1
    note = "" if orig and not mine else f" [lines changed: {orig} original, {mine} from fixes]"
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    if r.returncode:
        shutil.rmtree(d)
        return "DEMO fails on the unchanged tree: " + r.stdout[-300:]
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=wt)
    if r.returncode == 0:
        shutil.rmtree(d)
        return "DEMO passes with the bug"
    why = r.stdout.strip().splitlines()[-1:] or [""]
    env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=30", "."], cwd=wt, env=env)
    tail = r.stdout.strip().splitlines()[-1]
    if r.returncode:
        shutil.rmtree(d)
        return "TESTS fail: " + " ".join(x for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:300]
    if os.path.exists(os.path.join(wt, "wiggle_shell/wiggleshell.py")):
        r = run(["/opt/venv/bin/python", "-c", "import wiggleshell"], cwd="/tmp", env=dict(env, PYTHONPATH=wt + ":" + wt + "/wiggle_shell"))
        if r.returncode:
            return "shell does not import"
    c = run(["python3", os.path.join(V, "check.py"), s["prop"]], cwd=V, env=dict(os.environ, WGA_REPO=wt))
    got = "CAUGHT" if c.returncode == 1 else f"missed rc={c.returncode}"
    first = [x for x in c.stdout.splitlines() if not x.startswith("VIOLATION")][:2]
    return f"{got}{note} ({tail.split(' in ')[0].strip('= ')}) demo: {why[0][:80]} | " + " / ".join(x[:170] for x in first)


main()
