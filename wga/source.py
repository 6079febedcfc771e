"""The source tree under analysis."""
import ast
import os

SKIP_DIRS = {".git", "__pycache__", ".pytest_cache", ".mypy_cache", "dbms", "venv", ".venv", "node_modules"}


def root():
    return os.environ.get("WGA_REPO", "/repo")


def is_test(rel):
    parts = rel.split("/")
    return "tests" in parts[:-1] or parts[-1].startswith("test_") and parts[0] != "testing" or parts[-1] == "conftest.py"


class Source:
    def __init__(self, base=None):
        self.base = base or root()
        self.files = {}  # dotted name -> (relpath, tree)
        self.errors = []
        self.packages = set()
        for d, dirs, files in os.walk(self.base):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith("."))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), self.base)
                if is_test(rel):
                    continue
                name = rel[:-3].replace("/", ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                    self.packages.add(name)
                elif name == "__init__":
                    continue
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    text = fh.read()
                try:
                    tree = ast.parse(text)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.files[name] = (rel, tree)

    def alias(self, name):
        """Names under which the shell imports its own sub-packages."""
        if name in self.files:
            return name
        if "wiggle_shell." + name in self.files:
            return "wiggle_shell." + name
        return None

    def is_namespace(self, name):
        pre = name + "."
        return any(n.startswith(pre) for n in self.files)
