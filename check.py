"""check.py Cxx: decides one property from the current source of /repo (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)

from wga import ana  # noqa: E402
from wga.rules import TABLE  # noqa: E402


def run():
    global code
    code = ana.main(sys.argv, TABLE)


if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in TABLE:
        print("usage: check.py " + "|".join(sorted(TABLE)))
        sys.exit(2)
    code = ana.main(sys.argv, TABLE)
    sys.stdout.flush()
    os._exit(code)
