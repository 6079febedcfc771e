"""mutate.py mutants/X.py PROP[,PROP] [ids]: edit scratch copies of /repo and run checks on them.

PROP may be - for the properties the file's S gives for the beginning of the id; ODD=1 prints odd results only.
A spec file has M = {id: [(file, old, new), ...]}; ids that begin with e_ are rewritings that keep the behaviour
(every check has to exit 0 on them), the others break something. TESTS=1 also runs the repository's tests."""
import os
import runpy
import shutil
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
props = sys.argv[2].split(",")
ids = sys.argv[3:]
SKIP = os.environ.get("SKIP", "").split(",")  # checks not to run
BASE = os.environ.get("BASE", "/repo")


def one(x):
    i, edits = x
    top = tempfile.mkdtemp(prefix="wgmut")
    d = os.path.join(top, "r")
    r = []
    try:
        sp.run(["cp", "-a", BASE, d], check=True)
        for f, o, n in edits:
            t = open(f"{d}/{f}").read()
            if o not in t:
                return f"{i}: OLD NOT FOUND in {f}: {o[:50]!r}"
            open(f"{d}/{f}", "w").write(t.replace(o, n, 1))
        for p in props if props != ["-"] else next(v for k, v in spec["S"].items() if i.startswith(k)).split(","):
            if SKIP and p in SKIP:
                continue
            q = sp.run([sys.executable, os.path.join(V, "check.py"), p], cwd=V, env=dict(os.environ, WGA_REPO=d, WGA_EVIDENCE=top), capture_output=True, text=True)
            lines = [y for y in (q.stdout + q.stderr).splitlines() if not y.startswith("VIOLATION")]
            odd = "" if (q.returncode == 1) != i.startswith("e_") else "  <<<"
            if odd or "UNDECIDED" in q.stdout or not os.environ.get("ODD"):
                r.append(f"{i} {p} rc={q.returncode}{odd} | " + " | ".join(y[:230] for y in lines[:4]))
        if os.environ.get("TESTS"):
            q = sp.run(f"cd {d} && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -1", shell=True, capture_output=True, text=True)
            r.append("    tests: " + q.stdout.strip()[:150])
    finally:
        shutil.rmtree(top)
    return "\n".join(r) or f"{i} as expected"


todo = [x for x in spec["M"].items() if not ids or x[0] in ids]
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for o in ex.map(one, todo):
        print(o, flush=True)
