"""Runs, for every planted bug, the check of its property (with --all: every check) on a scratch copy of /repo
with the bug applied, and notes which rules report it in tools/matrix.json."""
import json
import os
import re
import shutil
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
OUT = os.path.join(V, "tools", "matrix.json")
ids = [x for x in sys.argv[1:] if not x.startswith("-")]
everything = "--all" in sys.argv
props = sorted(x["property"] for x in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"])


def one(i):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    d = tempfile.mkdtemp(prefix="wgmx")
    r = {}
    try:
        t = os.path.join(d, "r")
        sp.run(["cp", "-a", "/repo", t], check=True)
        sp.run(["git", "-C", t, "apply", os.path.join(S, i, "patch.diff")], check=True)
        for p in props if everything else [meta["property"]]:
            q = sp.run([sys.executable, os.path.join(V, "check.py"), p], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, WGA_REPO=t, WGA_EVIDENCE=d))
            if q.returncode == 1:
                r[p] = sorted(set(re.findall(rf"^{p} \[([^\]]+)\]", q.stdout, re.M)))
            elif not everything:
                r[p] = []
    finally:
        shutil.rmtree(d)
    return i, r


todo = ids or sorted(os.listdir(S))
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for i, r in ex.map(one, todo):
        res[i] = r
        print(i, r, flush=True)
        json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
