"""What the checks have in common: the analysed program, entry points, findings and evidence."""
import json
import os
import resource
import signal
import sys
import time

from . import interp as I
from .interp import Budget, Interp, Raise
from .state import *
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("WGA_EVIDENCE") or os.path.join(VERIF, "evidence")
FILES = ("database_file_path", "indexes_file_path", "wiggle_number_file_path")
DB, IDX, WN = FILES
CONTENT_OPS = {"content", "json", "filehead", "fileout", "ok", "isfile", "isdir", "pexists", "listdir", "glob"}


class Timeout(Exception):
    pass


class Undecided(Exception):
    pass


class Ana:
    def __init__(self, prop, tier="quick", seconds=800):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.violations = {}
        self.undecided = {}
        self.held = {}
        self.rules = {}
        self.notes = []
        self.entries = []
        self.seconds = seconds
        self._q = {}
        self.ip = Interp().load_all()
        for rel, e in self.ip.src.errors:
            self.und("source", rel, "not parsed: " + e)

    # ------------------------------------------------------------ verdicts
    def ok(self, rule, what):
        self.held.setdefault(rule, set()).add(str(what))

    def bad(self, rule, where, msg, *terms):
        """A violation, unless what it was derived from is not known exactly."""
        for t in terms:
            if isinstance(t, State):
                # an effect of the path cannot be excluded by what is not known
                continue
            if has_op(t, ("unk",)):
                self.und(rule, where, "(derived from a value that is not tracked) " + msg)
                return
        self.violations.setdefault((rule, str(where)), msg)

    def und(self, rule, where, msg=""):
        self.undecided.setdefault((rule, str(where)), msg)

    def need(self, cond, rule, what, where, msg, *terms):
        if cond:
            self.ok(rule, what)
        else:
            self.bad(rule, where, msg, *terms)
        return cond

    # ------------------------------------------------------------ the program
    def fn(self, q):
        mod, name = q.rsplit(".", 1)
        fid = self.ip.modfid.get(mod)
        if fid is not None:
            v = self.ip.base.frames[fid].get(name)
            if v is not None:
                return v
        # moved elsewhere
        got = []
        for m, f in self.ip.modfid.items():
            v = self.ip.base.frames[f].get(name)
            if isinstance(v, (Func, ClassV)) and v not in got:
                got.append(v)
        if len(got) == 1:
            return got[0]
        raise Undecided("no function " + q)

    def where(self, fn):
        rel = self.ip.relfile(fn.mod) if isinstance(fn, Func) else "?"
        return f"{rel}:{getattr(fn.node, 'lineno', 0)} {fn.qual.rsplit('.', 1)[-1]}" if isinstance(fn, Func) else str(fn)

    def run(self, f, args=(), kw=None, st=None):
        if isinstance(f, str):
            f = self.fn(f)
        st = st if st is not None else self.ip.base.fork()
        t = time.time()
        u0 = len(self.ip.unknowns)
        outs = self.ip.call(st, f, list(args), dict(kw or {}))
        self.entries.append({
            "entry": getattr(f, "qual", str(f)), "outcomes": len(outs), "returns": sum(1 for _, v in outs if not isinstance(v, Raise)),
            "seconds": round(time.time() - t, 1), "not_modelled": len(self.ip.unknowns) - u0,
        })
        return outs

    def leftovers(self, st):
        """The state with what runs so far were seen to keep in the process holding anything -> names."""
        names = []
        where = {}
        for fid, fr in self.ip.base.frames.items():
            for n, v in fr.items():
                if isinstance(v, Ref):
                    where.setdefault(v.addr, n)
        for k in list(self.ip.glob_mut):
            if k[0] == "h":
                o = st.heap.get(k[1])
                n = where.get(k[1], "object")
                x = sym("leftover", n, typ=getattr(o, "kind", "any") if getattr(o, "kind", None) in ("list", "dict", "set") else "any")
                if hasattr(o, "segs"):
                    st.heap[k[1]] = type(o)(o.kind, tuple(o.segs) + (("base", x),), o.extra)
                elif isinstance(o, Inst):
                    for fld in o.fields:
                        st.heap[k[1]] = st.heap[k[1]].with_(fld, sym("leftover", n + "." + fld))
            elif k[0] == "v":
                n = k[2]
                st.set(k[1], n, sym("leftover", n))
            else:
                n = k[1] + "." + k[2]
                for fr in self.ip.base.frames.values():
                    for c in fr.values():
                        if isinstance(c, ClassV) and c.name == k[1]:
                            c.attrs[k[2]] = sym("leftover", n)
            names.append(n)
        return names

    def gdb(self):
        """A state with a database selected -> (state, its file paths)."""
        st = self.ip.base.fork()
        c = self.fn("models.wigish.dbms.GDBMSFilePath")
        ps = {n: sym("arg", n, typ="path") for n in c.fields}
        for n, p in ps.items():
            st.facts[sym("isfile", p, typ="bool")] = True
            if n == DB:
                self.ip.json_roles[sym("content", p, typ="str")] = "db"
        self.paths = ps
        r = self.ip.alloc(st, Inst(c, ps))
        return st, r

    @property
    def Q(self):
        return sym("arg", "query", typ="str")

    def exc(self, s, r):
        c = self.ip.exc_class(s, r)
        return c

    def exc_name(self, s, r):
        c = self.exc(s, r)
        return c.name if c is not None else "?"

    def exc_is(self, s, r, base):
        c = self.exc(s, r)
        return c is not None and any(k.name == base for k in c.mro())

    def site(self, r):
        return fmt_site(r.site)

    def deep(self, x):
        """All symbols a value depends on, through the loops it comes from."""
        out = set()
        seen = set()
        todo = [x]
        while todo:
            y = todo.pop()
            if not isinstance(y, (Val, tuple, frozenset)):
                continue
            i = info(y)
            for z in i[0]:
                if z in out:
                    continue
                out.add(z)
                if z.op in ("head", "out"):
                    k = (z.args[0], z.args[1])
                    li = self.ip.loopinfo.get(k)
                    if li is not None and k not in seen:
                        seen.add(k)
                        todo.append(li[1])
                        todo.extend(v for _, v in li[2])
            for k in i[2]:
                if ("c", k) not in seen:
                    seen.add(("c", k))
                    todo.extend(self.ip.contfrom.get(k) or ())
        return out

    def of_files(self, x):
        return any(y.op in CONTENT_OPS for y in self.deep(x))

    # ------------------------------------------------------------ outcomes
    def finish(self, level="other"):
        known = known_findings(self.prop)
        out = []
        kf = []
        viol = []
        for (rule, where), msg in sorted(self.violations.items()):
            key = f"{rule} @ {construct(where)}"
            if key in known:
                kf.append((key, msg))
                out.append(f"KNOWN-FINDING: property={self.prop} {key}: {msg}")
            else:
                viol.append((rule, where, msg))
        os.makedirs(EVID, exist_ok=True)
        replay = ""
        if viol:
            replay = os.path.join(EVID, f"{self.prop}.violations.json")
            with open(replay, "w") as fh:
                json.dump([{"rule": r, "where": w, "message": m, "rule_text": self.rules.get(r, "")} for r, w, m in viol], fh, indent=1)
            for r, w, m in viol:
                out.append(f"{self.prop} [{r}] {w}: {m}")
            out.append(f"VIOLATION property={self.prop} replay={replay}")
        und = [{"rule": r, "where": w, "why": m} for (r, w), m in sorted(self.undecided.items())]
        for u in und[:20]:
            out.append(f"UNDECIDED {self.prop} [{u['rule']}] {u['where']}: {u['why'][:200]}")
        nobl = sum(len(v) for v in self.held.values())
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "explanation": "Abstract interpretation of the current source (no code of the repository is run): every path of the "
                               "entry points from symbolic arguments, loops by fixed point; the rules below are decided on the resulting "
                               "symbolic outcomes (return values, exceptions, file contents, effects).",
                "rules": {r: {"rule": self.rules.get(r, ""), "held_on": len(v), "constructs": sorted(v)[:40]} for r, v in sorted(self.held.items())},
                "obligations": nobl + len(viol) + len(und) + len(kf),
                "discharged": nobl,
                "violations": [{"rule": r, "where": w, "message": m} for r, w, m in viol],
                "known_findings": [{"finding": k, "message": m} for k, m in kf],
                "undecided": und,
                "entries": self.entries,
                "modules_analysed": len(self.ip.src.files),
                "functions_analysed": sorted(f"{rel}:{line} {q.rsplit('.', 1)[-1]}" for q, (rel, line) in self.ip.funcs_seen.items()),
                "branches_decided": self.ip.branches,
                "loops_summarised": self.ip.loops,
                "steps": self.ip.steps,
                "not_modelled": sorted({str(w) for w, _ in self.ip.unknowns})[:40],
                "notes": self.notes,
            },
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        out.append(f"{self.prop}: {nobl} obligations hold, {len(viol)} violated, {len(kf)} known, {len(und)} undecided, {ev['wall_s']} s")
        print("\n".join(out))
        return 1 if viol else 0


def construct(where):
    """The construct without its line number (so that findings survive edits above them)."""
    out = []
    for w in where.split(" "):
        if ":" in w and w.rsplit(":", 1)[1].isdigit():
            w = w.rsplit(":", 1)[0]
        out.append(w)
    return " ".join(out)


def known_findings(prop):
    got = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                got.add(l.split(" ", 2)[2].split(" ## ")[0].strip())
    return got


def fmt_site(site):
    s = site[0] if isinstance(site[0], tuple) else site
    return f"{s[0]}:{s[1]} {s[2].rsplit('.', 1)[-1]}"


def flat_effects(effs, loops=()):
    """All effects, those of loops with the loops they are in -> (effect, loops)."""
    for e in effs:
        if e[0] == "loop":
            for f, sub in e[2]:
                yield from flat_effects(sub, loops + ((e[1], f, e[3]),))
        else:
            yield e, loops


def file_ops(effs):
    return [(e, l) for e, l in flat_effects(effs) if e[0] in FILE_OPS]


FILE_OPS = {"open", "read", "write", "trunc", "mkdir", "unlink", "rmdir", "rmtree", "listdir", "touch", "rename", "replace", "copy", "chmod", "seek"}
CHANGING = {"write", "trunc", "mkdir", "unlink", "rmdir", "rmtree", "touch", "rename", "replace", "copy"}


def about_content(x):
    return any(y.op in CONTENT_OPS for y in deps(x))


def arm(seconds):
    def alarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(seconds))


def main(argv, table):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(100000)
    import threading

    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    try:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    except (ValueError, OSError):
        pass
    a = None
    try:
        arm(780)
        a = Ana(prop, tier)
        for name, rule in table[prop]:
            try:
                rule(a)
            except Undecided as e:
                a.und(name, "analysis", str(e))
            except Budget as e:
                a.und(name, "analysis", f"too many paths: {e}")
            except (RecursionError, MemoryError) as e:
                a.und(name, "analysis", f"resources: {type(e).__name__}")
            except Timeout:
                a.und(name, "analysis", "time limit")
                break
            except Exception as e:
                if os.environ.get("WGA_DEBUG"):
                    raise
                import traceback

                tb = traceback.extract_tb(e.__traceback__)[-1]
                a.und(name, "analysis", f"internal: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        signal.alarm(0)
        return a.finish()
    except Timeout:
        if a is not None:
            a.und("all", "analysis", "time limit")
            return a.finish()
        print(f"UNDECIDED {prop}: time limit while loading")
        return _minimal(prop, tier)
    except Exception as e:
        if os.environ.get("WGA_DEBUG"):
            raise
        print(f"UNDECIDED {prop}: {type(e).__name__} {e}")
        return _minimal(prop, tier)


def _minimal(prop, tier):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "wall_s": 0,
                   "coverage": {"explanation": "The analysis could not be carried out.", "obligations": 0, "discharged": 0}}, fh)
    return 0
