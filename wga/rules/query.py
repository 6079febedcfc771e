"""Rules about a whole query: what is refused, what is stored, which files take part."""
import re

from ..ana import *
from ..state import quick, truthy
from . import store
from .make import leafs

QUERY = "wiggle_shell.core.query.query.query"
PARSEQ = "wiggle_shell.core.query.query.parse_query_string"
EXECQ = "wiggle_shell.core.query.query.execute_query"
BASE = "WiggleGraphBaseException"


class Outcomes:
    def __init__(self, a, later=False):
        self.a = a
        st, g = a.gdb()
        self.kept = a.leftovers(st) if later else []
        self.st0 = st.fork()
        self.good, self.bad = [], []
        for s, v in a.run(QUERY, [a.Q, g], st=st):
            (self.bad if isinstance(v, Raise) else self.good).append((s, v))
        # what holds on every path that completes
        self.common = None
        for s, _ in self.good:
            f = set(s.facts.items())
            self.common = f if self.common is None else self.common & f

    def specific(self, s):
        """The conditions of a failing path that no completing path has."""
        if not hasattr(self, "goods"):
            self.goods = set()
            for g, _ in self.good:
                self.goods |= set(g.facts.items())
        return [(at, p) for at, p in s.facts.items() if (at, p) not in self.goods]

    def why(self, s, v):
        """'content' 'text' 'other': what made a query fail."""
        Q = self.a.Q
        if "file" in v.cause:
            return "content"
        vals = [x for x in v.cause + v.why if isinstance(x, Val)]
        if not vals:
            vals = [at for at, _ in self.specific(s)]
        if any(self.a.of_files(x) for x in vals):
            return "content"
        if any(has_op(x, ("unk",)) for x in vals):
            return "unknown"
        if any(Q in deps(x) for x in vals):
            return "text"
        return "other"


def outcomes(a, later=False):
    k = ("query", later)
    if k not in a._q:
        a._q[k] = Outcomes(a, later)
    return a._q[k]


def kind(a, s, v):
    return f"{a.exc_name(s, v)} at {a.site(v)}"


# -------------------------------------------------------------------- C09
def c09(a):
    r1, r2 = "rejected-before-writing", "completes"
    a.rules[r1] = "On no path that ends with an exception for a reason other than the content of the files has a file changed."
    a.rules[r2] = "There are paths that complete, so that the conditions of the failing ones can be told apart."
    o = outcomes(a)
    if not o.good:
        a.und(r2, QUERY, "no query completes")
        return
    a.ok(r2, QUERY)
    for s, v in o.bad:
        ch = store.changed(s, o.st0)
        if not ch:
            a.ok(r1, kind(a, s, v))
            continue
        w = o.why(s, v)
        if w == "content":
            a.ok(r1, kind(a, s, v) + " (because of what a file holds)")
        elif w == "unknown":
            a.und(r1, a.site(v), f"{a.exc_name(s, v)} after files were changed, for a reason that is not known")
        else:
            a.bad(r1, a.site(v), f"{a.exc_name(s, v)} is raised for the text of the query when " + ", ".join(sorted(name(p) for p in ch)) + " has been changed", s)


def name(p):
    return {DB: "the database", IDX: "the index file", WN: "the counter"}.get(store.role_of(p), show(p, 2))


# -------------------------------------------------------------------- C27
def c27(a):
    r1, r2 = "wiggle-graph-error", "has-its-message"
    a.rules[r1] = "Every exception that leaves query() on a path that does not depend on the content of the files is a WiggleGraph error."
    a.rules[r2] = "The text of each of these errors contains the message it was made with."
    o = outcomes(a)
    done = set()
    for s, v in o.bad:
        if a.exc_is(s, v, BASE):
            k = kind(a, s, v)
            a.ok(r1, k)
            if k not in done:
                done.add(k)
                message(a, r2, s, v)
            continue
        w = o.why(s, v)
        if w == "content":
            continue
        if w == "unknown":
            a.und(r1, a.site(v), f"{a.exc_name(s, v)}, for a reason that is not known")
        else:
            a.bad(r1, a.site(v), f"{a.exc_name(s, v)} leaves query(), which is no WiggleGraph error", s)


def message(a, rule, s, v):
    ip = a.ip
    o = s.heap.get(v.exc.addr) if isinstance(v.exc, Ref) else None
    args = o.fields.get("args") if isinstance(o, Inst) else None
    m = o.fields.get("message") if isinstance(o, Inst) else None
    if m is None and isinstance(args, Tup) and len(args.items) == 1:
        m = args.items[0]
    if m is None:
        a.und(rule, a.site(v), "the message of the error is not found")
        return
    if m == NONE or isinstance(m, Const) and not m.v:
        a.bad(rule, a.site(v), f"{a.exc_name(s, v)} is raised without a message")
        return
    try:
        outs = ip.lib.f_str(s.fork(), [v.exc], {}, None)
    except Exception:
        outs = [(s, None)]
    for s2, t in outs:
        if isinstance(t, Raise):
            a.bad(rule, a.site(v), f"the text of {a.exc_name(s, v)} cannot be made: {a.exc_name(s2, t)}")
        elif t is None or has_op(t, ("unk",)):
            a.und(rule, a.site(v), "the text of the error is not understood")
        elif contains(t, m):
            a.ok(rule, kind(a, s, v))
        else:
            a.bad(rule, a.site(v), f"the text of {a.exc_name(s, v)} is {show(t, 3)[:80]}, without its message", t)


def contains(t, m):
    if t == m:
        return True
    if isinstance(t, Const) and isinstance(m, Const):
        return str(m.v) in str(t.v)
    if isinstance(m, Sym) and m.op == "fstr" and isinstance(t, Sym) and t.op == "fstr":
        parts = [p for p in m.args[0] if not isinstance(p, Const)]
        return all(p in t.args[0] for p in parts) and (bool(parts) or all(p in t.args[0] for p in m.args[0]))
    if isinstance(t, Sym) and isinstance(m, Const):
        return any(isinstance(x, Const) and str(m.v) in str(x.v) for x in (t.args[0] if t.op == "fstr" else t.args))
    return isinstance(m, Val) and m in deps(t)


# -------------------------------------------------------------------- C10
SUPPORTED = {(True, False, False), (False, True, False), (True, True, False), (False, True, True), (True, True, True)}
REFUSED = {(False, False, False), (False, False, True), (True, False, True)}


def combo(c):
    return " and ".join(n for n, p in zip(("MAKE", "FIND", "REPORT"), c) if p) or "no clause"


def c10(a):
    r1, r2, r3 = "parsed", "runs", "refused"
    a.rules[r1] = "Each combination of present and absent clauses is the result of some path of the parser."
    a.rules[r2] = "For each supported combination there is a path that completes, and none that fails for no reason in the text or the files."
    a.rules[r3] = "No path completes for a combination that is not supported; each ends with a WiggleGraph error and changes no file."
    st, g = a.gdb()
    st0 = st.fork()
    gate(a)
    got = {}
    site = PARSEQ.rsplit(".", 1)[-1]
    for s, v in a.run(PARSEQ, [a.Q], st=st):
        if isinstance(v, Raise):
            for at, p in s.facts.items():
                if not p and at.op == "contains" and isinstance(at.args[0], Sym) and at.args[0].op == "group" and isinstance(at.args[1], Sym) and at.args[1].op == "fstr":
                    own = [x for x in at.args[1].args[0] if isinstance(x, Sym)]
                    more = [x.v for x in at.args[1].args[0] if isinstance(x, Const) and x.v]
                    if len(own) == 1 and more and a.Q in deps(own[0]) and s.facts.get(sym("contains", at.args[0], own[0], typ="bool")) is None:
                        a.bad(r2, a.site(v), f"a statement that has {show(own[0], 3)[-60:]} in it is refused for not having {more!r} beside it", s)
            continue
        o = s.heap.get(v.addr) if isinstance(v, Ref) else None
        if not isinstance(o, Inst):
            a.und(r1, site, "the result of the parser is not understood")
            continue
        opts = [(s, ())]
        for n in ("make_parsed", "find_parsed", "report_parsed"):
            nxt = []
            for s2, c in opts:
                for s3, x in a.ip.resolve(s2, o.fields.get(n, NONE)):
                    p = present(a, s3, x)
                    if p is None:
                        a.und(r1, site, f"whether there is a {n} is not known")
                    nxt.append((s3, c + (p,)))
            opts = nxt
        for s2, c in opts:
            if None not in c:
                got.setdefault(c, []).append((s2, v))
    for c in sorted(SUPPORTED | REFUSED):
        if c in got:
            a.ok(r1, combo(c))
        elif c in SUPPORTED:
            a.bad(r1, site, f"no query with {combo(c)} gets through the parser")
        else:
            a.ok(r3, combo(c) + " (refused by the parser)")
    if any(r == r1 for r, _ in a.undecided):
        return
    for c, sv in sorted(got.items()):
        good, bad = [], []
        for s, v in sv:
            for s2, v2 in a.run(EXECQ, [v, g], st=s.fork()):
                (bad if isinstance(v2, Raise) else good).append((s2, v2))
        if c in REFUSED:
            for s, v in good:
                a.bad(r3, EXECQ.rsplit(".", 1)[-1], f"a query with {combo(c)} is not refused", s)
            for s, v in bad:
                if a.exc_is(s, v, BASE):
                    a.ok(r3, f"{combo(c)}: {kind(a, s, v)}")
                else:
                    a.bad(r3, a.site(v), f"a query with {combo(c)} fails with {a.exc_name(s, v)}", s)
                if store.changed(s, st0):
                    a.bad(r3, a.site(v), f"a query with {combo(c)} is refused after files were changed", s)
            continue
        if not good:
            why = sorted({kind(a, s, v) for s, v in bad})[:3]
            a.bad(r2, a.site(bad[0][1]) if bad else EXECQ, f"no query with {combo(c)} completes: " + "; ".join(why))
            continue
        a.ok(r2, combo(c))
        goods = set()
        for s, _ in good:
            goods |= set(s.facts.items())
        for s, v in bad:
            d = [at for at, p in s.facts.items() if (at, p) not in goods]
            if "file" in v.cause:
                continue
            vals = d + [x for x in v.cause + v.why if isinstance(x, Val)]
            if any(a.Q in deps(x) or a.of_files(x) or has_op(x, ("unk", "leftover")) for x in vals):
                continue
            if a.exc_is(s, v, BASE) and not v.cause and d:
                continue
            a.bad(r2, a.site(v), f"a query with {combo(c)} fails with {a.exc_name(s, v)} for no reason in its text", s)


QUOTES = re.compile(r"'[^']*'|\"[^\"]*\"")

# Well-formed texts, each with something a hasty test of the text may not expect.
WELL = (
    "MAKE(:A);", "make(:A)-[:R]->(:B);", "\nMAKE (:A);\n", "FIND(:A);", "find (a:A) ;", "FIND\n(a:A)-[r:R]->(b:B);\nREPORT a, r, b;",
    "MAKE (:A{a: 1});\nFIND (a:A{a: 1});\nREPORT a.a;", "  FIND (a:A);\treport\ta.wn;",
)


class Gate:
    """What query() itself does with a text before, between and after reading it and carrying it out."""

    def __init__(self, a):
        self.a, self.f = a, a.fn(QUERY)
        self.st, self.g = a.gdb()
        self.seen = set()
        self.built = None

    def go(self, text):
        a, P = self.a, sym("arg", "parsed", typ="any")

        def hp(ip, s, fn, args, kw):
            self.seen.add("read")
            s = s.fork()
            s.effects = s.effects + (("parsed", args[0] if args else next(iter(kw.values()), NONE), ip.where()),)
            return [(s, P)]

        def he(ip, s, fn, args, kw):
            self.seen.add("carried out")
            s = s.fork()
            s.effects = s.effects + (("executed", args[0] if args else next(iter(kw.values()), NONE), ip.where()),)
            return [(s, TRUE)]

        hooks = {a.fn(PARSEQ).qual: hp, a.fn(EXECQ).qual: he}
        a.ip.hooks.update(hooks)
        try:
            outs = a.run(self.f, [text, self.g], st=self.st.fork())
        finally:
            for q in hooks:
                a.ip.hooks.pop(q)
        done = [(s, v) for s, v in outs if not isinstance(v, Raise) and any(e[0] == "executed" for e in s.effects)]
        if self.built is None:
            self.built = len(self.seen) == 2
        return outs, done


def gate(a):
    r = "no-other-gate"
    a.rules[r] = "query() hands every text to the parser and what it parsed to the engine; where it can refuse a text itself, no well-formed text is among those."
    G = Gate(a)
    outs, done = G.go(a.Q)
    if not G.built:
        return  # not built of these two, the other rules follow the whole of it
    odd = [(s, v) for s, v in outs if not any(s is t for t, _ in done)]
    if not odd:
        a.ok(r, "every text")
        return
    for w in WELL:
        outs, done = G.go(const(w))
        if not outs or done:
            continue
        s, v = outs[0]
        a.bad(r, a.site(v) if isinstance(v, Raise) else a.where(G.f), f"the well-formed query {w!r} is " + (f"refused with {a.exc_name(s, v)}" if isinstance(v, Raise) else "not carried out"), s)
        return
    a.und(r, a.where(G.f), "the texts that query() itself refuses are not understood")


LAYOUT = (
    "MAKE(:A);\n\nMAKE (:B);\n", "MAKE\n(:A)\n-[:R]->\n(:B);MAKE(:C);", "FIND (a:A);\n\tREPORT a.wn;", "MAKE(:A); MAKE(:B); FIND(b:B); REPORT b.wn;",
)
QUOTED = (
    "MAKE (:A{a: 'B  c'});", "MAKE (:A{a: \" Make \"});", "MAKE (:A{a: 'x;y'});", "MAKE (:A{a: 'x\ty', b: ['  ', \"z  z\"]});", "MAKE (:A{a: 'MiXed', b: \"it's\"});",
    "MAKE (:A{a: 'two\nlines'});", "MAKE (:A{a: '\u00e9\u0130'});",
)


def handed(a, quoted):
    """The text the parser gets is the one query() was given: quoted texts as they are, otherwise the same but for white space."""
    r = "handed-over"
    what = "quoted text" if quoted else "statement"
    a.rules[r] = f"The text that query() hands to the parser is the one it was given; if it is not, no {what} differs in it."
    G = Gate(a)
    outs, done = G.go(a.Q)
    if not G.built:
        return
    given = {e[1] for s, v in outs for e in s.effects if e[0] == "parsed"}
    ends = {sym(op, a.Q, NONE, typ="str") for op in ("strip", "lstrip", "rstrip")}
    if given <= {a.Q} | ends and given:
        a.ok(r, "every text")
        return
    for w in QUOTED if quoted else LAYOUT:
        outs, done = G.go(const(w))
        for s, v in outs:
            for e in s.effects:
                if e[0] != "parsed" or e[1] == const(w):
                    continue
                if not isinstance(e[1], Const) or not isinstance(e[1].v, str):
                    a.und(r, a.where(G.f), "the text handed to the parser is not understood: " + show(e[1], 3)[:80])
                    return
                t = e[1].v
                if (QUOTES.findall(t) != QUOTES.findall(w)) if quoted else ("".join(t.split()).lower() != "".join(w.split()).lower()):
                    a.bad(r, a.where(G.f), f"of {w!r} the parser is given {t!r}", s)
                    return
    a.und(r, a.where(G.f), "the text handed to the parser is not the one given")


def present(a, s, x):
    if x == NONE:
        return False
    if isinstance(x, Ref):
        o = s.heap.get(x.addr)
        if isinstance(o, Inst):
            return True
        return quick(s.facts, truthy(x)) if not hasattr(o, "segs") else a.ip.lib.truth_of(s, x) if hasattr(a.ip.lib, "truth_of") else True
    return quick(s.facts, truthy(x))


# -------------------------------------------------------------------- C17
def c17(a):
    r1, r2, r3 = "only-its-files", "own-content", "nothing-remembered"
    a.rules[r1] = "Every file operation on every path of query() is on one of the three paths of the selected database."
    a.rules[r2] = "What is written to a file starts from what that same file held."
    a.rules[r3] = "With anything in what earlier queries of the process can have left in it, nothing that is stored, raised or touched depends on it."
    o = outcomes(a)
    touched(a, o, r1, r2)
    keep = impure(a, o)
    if not keep:
        a.ok(r3, "no state of the process is changed by a query")
        return
    o2 = outcomes(a, True)
    names = ", ".join(sorted(set(o2.kept)))
    n = len(a.violations)

    def left(x):
        return isinstance(x, Val) and any(y.op == "leftover" for y in a.deep(x))

    for s, v in o2.good + o2.bad:
        for e, _ in flat_effects(s.effects):
            if e[0] in FILE_OPS and any(left(x) for x in e[1:]):
                a.bad(r3, fmt_site(e[-1]), f"a file operation depends on what an earlier query left in {names}", s)
        for p, c in s.files.items():
            if any(left(x) for x in c):
                a.bad(r3, store.role_of(p) or show(p, 2), f"what is stored depends on what an earlier query left in {names}", s)
        if isinstance(v, Raise):
            if any(left(x) for x in v.cause + v.why):
                a.bad(r3, a.site(v), f"{a.exc_name(s, v)} depends on what an earlier query left in {names}", s)
    if len(a.violations) == n:
        a.ok(r3, f"nothing depends on {names}")


def touched(a, o, r1, r2):
    own = {store.path(r) for r in FILES}
    for s, v in o.good + o.bad:
        for e, _ in flat_effects(s.effects):
            if e[0] in ("cached",):
                a.bad("nothing-remembered", fmt_site(e[-1]), f"the result of {e[1]} is kept although it depends on files or the time", s)
            if e[0] not in FILE_OPS:
                continue
            p = e[1]
            if p in own:
                a.ok(r1, f"{e[0]} {name(p)} {fmt_site(e[-1])}")
            elif isinstance(p, Val) and has_op(p, ("unk",)):
                a.und(r1, fmt_site(e[-1]), f"{e[0]} on a path that is not known")
            else:
                a.bad(r1, fmt_site(e[-1]), f"{e[0]} on {show(p, 3)[:80]}, which is none of the files of the database", s)
    for s, v in o.good:
        for p, c in s.files.items():
            if p not in own or c[0] != "clean" or not isinstance(c[1], Val):
                continue
            d = store.json_doc(c[1])
            bases = set()
            if isinstance(d, Doc):
                based(d, bases)
            for b in bases:
                for q in own:
                    if q is not p and sym("content", q, typ="str") in deps(b):
                        a.bad(r2, name(p), f"what {name(q)} held is written to {name(p)}", s)
                    elif q is p and sym("content", q, typ="str") in deps(b):
                        a.ok(r2, name(p))


def based(d, out):
    for x in d.segs:
        if x[0] == "base":
            out.add(x[1])
        elif x[0] in ("one", "upd", "kid") and isinstance(x[2], Doc):
            based(x[2], out)


def impure(a, o):
    """The changes of the process' state that are more than remembering the result of a computation."""
    out = []
    for k, w in a.ip.glob_mut.items():
        if k[0] == "h":
            pure = True
            for s, _ in o.good + o.bad:
                c = s.heap.get(k[1])
                c0 = a.ip.base.heap.get(k[1])
                if c is None or c is c0:
                    continue
                if getattr(c, "kind", None) != "dict":
                    pure = False
                    break
                old = set(c0.segs) if hasattr(c0, "segs") else set()
                for x in c.segs:
                    if x in old:
                        continue
                    if not memo(a, s, x):
                        pure = False
            if pure:
                continue
        out.append((k, w))
    return out


def memo(a, s, seg):
    if seg[0] in ("one", "upd"):
        key, val = a.ip.lib.freeze(s, seg[1]), a.ip.lib.freeze(s, seg[2])
        have = deps(key)
        return all(x in have or x.op not in ("arg", "content", "now", "json", "input", "head", "out", "elem", "wit") for x in deps(val))
    if seg[0] in ("star", "alt"):
        return all(memo(a, s, y) for _, x in (seg[2] if seg[0] == "star" else seg[1]) for y in x)
    return seg[0] == "prev"
