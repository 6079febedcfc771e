"""What the language and the libraries do, on abstract values."""
import ast
import builtins
import itertools
import re
import string

from . import rx
from .calls import Calls
from .interp import BUILTIN_EXC, BREAK, CONT, NEXT, Raise, Ret, builtin_exc, fstr
from .methods import Methods
from .state import *
from .terms import *

CONTAINERS = ("list", "dict", "set", "tuple", "iter")
COUNTS = ("ccount", "count", "opMod")
PLAIN = {"str", "ostr", "int", "float", "bool", "num", "none"}
RE_FLAGS = {k: int(getattr(re, k)) for k in (
    "IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "ASCII", "A", "UNICODE", "U",
)}

OBJECT = ClassV("object", "builtins", [])
BASEMODEL = ClassV("BaseModel", "pydantic", [])
BASEMODEL.kind = "model"
ENUM = ClassV("Enum", "enum", [])
ENUM.kind = "enum"
NAMEDTUPLE = ClassV("NamedTuple", "typing", [])
NAMEDTUPLE.kind = "namedtuple"


class SuperV(Val):
    __slots__ = ("self_", "cls")

    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


def isstr(v):
    return isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Sym) and v.typ in ("str",)


def istext(v):
    return isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Sym) and v.typ in ("str", "ostr")


def isint(v):
    return isinstance(v, Const) and isinstance(v.v, int) or isinstance(v, Sym) and v.typ in ("int", "bool")


def split_path(text):
    """The components of a relative path text: a list of texts, and is it absolute."""
    parts = text.args[0] if isinstance(text, Sym) and text.op == "fstr" else (text,)
    comps = [[]]
    absolute = False
    first = True
    for p in parts:
        if isinstance(p, Const) and isinstance(p.v, str):
            bits = p.v.split("/")
            if first and p.v.startswith("/"):
                absolute = True
            for i, b in enumerate(bits):
                if i:
                    comps.append([])
                if b:
                    comps[-1].append(const(b))
        else:
            comps[-1].append(p)
        first = False
    out = [fstr(c) for c in comps if c]
    out = [c for c in out if not (isinstance(c, Const) and c.v == ".")]
    return out, absolute


def join_path(base, text):
    if isinstance(text, Sym) and text.typ == "path":
        if text.op == "path":
            text = text.args[0]
        else:
            return sym("pjoin", base, text, typ="path")
    comps, absolute = split_path(text)
    p = sym("path", const("/"), typ="path") if absolute else base
    for c in comps:
        p = sym("join", p, c, typ="path")
    return p


def mk_path(v):
    if isinstance(v, Sym) and v.typ == "path":
        return v
    if isinstance(v, Sym) and v.op == "fstr":
        # f"{folder}/rest": the text of a path first
        parts = v.args[0]
        if isinstance(parts[0], Sym) and parts[0].op == "pathstr":
            rest = fstr(parts[1:])
            if isinstance(rest, Const) or rest.op == "fstr":
                first = rest.v if isinstance(rest, Const) else (rest.args[0][0].v if isinstance(rest.args[0][0], Const) else "")
                if first.startswith("/"):
                    comps, _ = split_path(rest)
                    p = parts[0].args[0]
                    for c in comps:
                        p = sym("join", p, c, typ="path")
                    return p
    if isinstance(v, Sym) and v.op == "pathstr":
        return v.args[0]
    if isinstance(v, (Const, Sym)) and istext(v):
        comps, absolute = split_path(v)
        if absolute:
            p = sym("path", const("/"), typ="path")
        elif comps:
            p = sym("path", comps[0], typ="path")
            comps = comps[1:]
        else:
            return sym("path", const("."), typ="path")
        for c in comps:
            p = sym("join", p, c, typ="path")
        return p
    return sym("path", v, typ="path")


CLEAN = "clean"


class Lib(Calls, Methods):
    ALWAYS_TRUE = {"match", "path", "iter", "regex", "fh", "func", "inst", "date", "class"}

    def __init__(self, ip):
        self.ip = ip
        self.by_qual = {}
        self.etype = {}
        self.preexist = set()

    # ------------------------------------------------------------ helpers
    def guard(self, st, atom, good, exc, cause=(), msg=()):
        """-> [(st, None | Raise)] for a condition an operation needs."""
        if isinstance(atom, bool):
            return [(st, None)] if atom == good else [self.ip.raise_(st, exc, *msg, cause=cause)]
        d = decide(st, atom)
        if d is not None:
            return [(st, None)] if d == good else [self.ip.raise_(st, exc, *msg, cause=cause)]
        res = []
        s = assume(st, atom, good)
        if s is not None:
            res.append((s, None))
        s = assume(st, atom, not good)
        if s is not None:
            res.append(self.ip.raise_(s, exc, *msg, cause=cause))
        return res

    def notnone(self, st, v, exc="AttributeError"):
        """The value has to be something other than None."""
        if isinstance(v, Const):
            return [(st, None)] if v.v is not None else [self.ip.raise_(st, exc, cause=("none",))]
        if isinstance(v, Sym):
            if v.op in ("search", "match", "fullmatch"):
                return self.guard(st, truthy(v), True, exc, (v,))
            if v.typ in NONNONE or v.op == "unk" or v.typ == "content":
                return [(st, None)]
            if v.typ == "any" and v.op in ("arg", "elem", "key", "val", "wit", "witkey", "witval", "at") and v.typ != "ostr":
                if quick(st.facts, isnone(v)) is None and v.op != "at":
                    return [(st, None)]
            return self.guard(st, isnone(v), False, exc, (v,))
        return [(st, None)]

    def seq(self, outs, f):
        """Continue with f(st) where the guard passed."""
        res = []
        for s, r in outs:
            if isinstance(r, Raise):
                res.append((s, r))
            else:
                res.extend(f(s))
        return res

    def kind(self, st, v):
        if isinstance(v, Const):
            return "none" if v.v is None else type(v.v).__name__
        if isinstance(v, Sym):
            return v.typ
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Doc):
            return v.kind
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return o.kind
            if isinstance(o, FH):
                return "fh"
            return "inst"
        if isinstance(v, RegexV):
            return "regex"
        return "any"

    # -------------------------------------------------------------- freeze
    def freeze(self, st, v, seen=()):
        if isinstance(v, Ref):
            if v.addr in seen:
                return sym("cycle", v.addr)
            o = st.heap.get(v.addr)
            seen = seen + (v.addr,)
            if isinstance(o, Cont):
                return Doc(o.kind, self.freeze_segs(st, o.segs, seen))
            if isinstance(o, Inst):
                return Doc("inst", (("cls", o.cls),) + tuple(
                    ("one", const(k), self.freeze(st, x, seen)) for k, x in o.fields.items() if not k.startswith("__")
                ))
            if isinstance(o, FH):
                return sym("fh", o.path, o.mode, typ="fh")
            return sym("obj", v.addr)
        if isinstance(v, Tup):
            return Tup(self.freeze(st, x, seen) for x in v.items)
        if isinstance(v, Phi):
            return Phi((f, self.freeze(st, x, seen)) for f, x in v.alts)
        if isinstance(v, Doc):
            return v
        return v

    def freeze_segs(self, st, segs, seen=()):
        out = []
        for s in segs:
            k = s[0]
            if k in ("one", "upd"):
                out.append((k, self.freeze(st, s[1], seen) if s[1] is not None else None,
                            self.freeze(st, s[2], seen) if s[2] is not None else None))
            elif k == "kid":
                c = self.freeze(st, s[2], seen)
                out.append(("kid", s[1], c))
            elif k == "star":
                out.append(("star", s[1], tuple((f, self.freeze_segs(st, x, seen)) for f, x in s[2])) + s[3:])
            elif k == "alt":
                out.append(("alt", tuple((f, self.freeze_segs(st, x, seen)) for f, x in s[1])))
            elif k == "perm":
                out.append(("perm", s[1], self.freeze_segs(st, s[2], seen)))
            else:
                out.append(s)
        return tuple(out)

    # ---------------------------------------------------------------- views
    def view(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return o.kind, o.segs
            if isinstance(o, Inst) and o.cls.kind == "namedtuple":
                return "tuple", tuple(("one", None, x) for x in o.fields.values())
            return None, None
        if isinstance(v, Doc):
            if v.kind in CONTAINERS:
                return v.kind, v.segs
            return None, None
        if isinstance(v, Tup):
            return "tuple", tuple(("one", None, x) for x in v.items)
        if isinstance(v, Const):
            if isinstance(v.v, str):
                if len(v.v) <= 64:
                    return "list", tuple(("one", None, const(c)) for c in v.v)
                return "list", (("base", v),)
            return None, None
        if isinstance(v, Sym):
            if v.typ in CONTAINERS:
                return v.typ, (("base", v),)
            if v.typ in ("str", "ostr"):
                return "list", (("base", v),)
            if v.typ in ("any", "content", "inst", "json"):
                return "list", (("base", v),)
            return None, None
        if isinstance(v, ClassV) and v.kind == "enum":
            return "list", tuple(("one", None, m) for m in v.members.values())
        if isinstance(v, LibV):
            return "list", (("base", self.ip.unk("iterate " + v.name)),)
        return None, None

    def iter_view(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont) and o.kind == "iter":
                # an iterator can be used once
                st.heap[v.addr] = Cont("iter", (), o.extra)
                return "list", o.segs
            if isinstance(o, FH):
                p = self.read_text(st, v, o)
                return "list", (("base", sym("lines", p, typ="list")),)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                m = o.cls.lookup("__iter__")
                if m is not None:
                    outs = self.ip.call(st, Bound(v, m), [], {})
                    if len(outs) == 1 and not isinstance(outs[0][1], Raise):
                        s, w = outs[0]
                        if s is st:
                            return self.iter_view(st, w)
                return "list", (("base", self.ip.unk("iterate an object", v)),)
        return self.view(st, v)

    def as_list_segs(self, kind, segs):
        if kind in ("list", "tuple", "iter"):
            return tuple(segs)
        return tuple(self.map_segs(kind, segs, lambda k, v: ("one", None, k)))

    def list_to_set(self, segs):
        out = []
        for s in segs:
            if s[0] == "one":
                x = ("one", s[2] if s[1] is None else s[1], None)
                if x not in out:
                    out.append(x)
            elif s[0] == "star":
                out.append(("star", s[1], tuple((f, self.list_to_set(x)) for f, x in s[2])) + s[3:])
            elif s[0] == "alt":
                out.append(("alt", tuple((f, self.list_to_set(x)) for f, x in s[1])))
            elif s[0] == "perm":
                out.extend(self.list_to_set(s[2]))
            else:
                out.append(s)
        return tuple(out)

    def set_segs(self, kind, segs):
        """The segments of set(x)."""
        if kind == "set":
            return tuple(segs)
        return self.list_to_set(self.as_list_segs(kind, segs))

    def map_segs(self, kind, segs, f):
        """Segments with each entry rewritten: f(key_or_item, value) -> segment."""
        out = []
        for s in segs:
            k = s[0]
            if k in ("one", "kid", "upd"):
                if k == "upd":
                    continue
                out.append(f(s[1] if kind in ("dict", "set") else s[2], s[2]))
            elif k == "base":
                src = s[1]
                if kind == "dict":
                    seg = f(sym("key", src, typ=self.key_typ(src)), self.val_of(src))
                    out.append(("star", src, ((frozenset(), (seg,)),), False))
                else:
                    e = self.elem_of(src, kind)
                    seg = f(e, e)
                    out.append(("star", src, ((frozenset(), (seg,)),), False))
            elif k == "star":
                out.append(("star", s[1], tuple((fa, tuple(self.map_segs(kind, x, f))) for fa, x in s[2]), distinct_mark(s, kind)))
            elif k == "alt":
                out.append(("alt", tuple((fa, tuple(self.map_segs(kind, x, f))) for fa, x in s[1])))
            elif k == "perm":
                out.append(("perm", s[1], tuple(self.map_segs(kind, s[2], f))))
            elif k == "del":
                continue
            else:
                src = sym("prevseq", *s[1:]) if k == "prev" else self.ip.unk("segment " + k)
                e = self.elem_of(src, kind)
                seg = f(sym("key", src, typ="any") if kind == "dict" else e, sym("val", src) if kind == "dict" else e)
                out.append(("star", src, ((frozenset(), (seg,)),), False))
        return out

    # -------------------------------------------- types of unknown elements
    def key_typ(self, src):
        e = self.etype.get(src)
        return e[0] if e else "str" if self.is_json(src) else "any"

    def val_of(self, src):
        e = self.etype.get(src)
        if e and e[1] is not None:
            return self.typed(sym("val", src, typ=e[1] if isinstance(e[1], str) else "inst"), e)
        return sym("val", src, typ=self.child_typ(src, None))

    def typed(self, v, e):
        if len(e) > 2 and e[2] is not None:
            self.ip.specs[v] = e[2]
        if len(e) > 3 and e[3] is not None:
            self.etype[v] = e[3]
        return v

    def is_json(self, v):
        while isinstance(v, Sym):
            if v.op == "json":
                return True
            if v.op in ("at", "val", "elem", "key", "wit", "witval", "witkey"):
                v = v.args[0]
                continue
            return False
        return False

    def child_typ(self, d, key):
        """Kind of a child of a document that was read from a file."""
        if not isinstance(d, Sym):
            return "any"
        if d.op == "json":
            role = self.ip.json_roles.get(d.args[0])
            if role == "db":
                return "dict"
            if isinstance(key, Const):
                if key.v in ("node_labels", "relationship_names"):
                    return "list"
                if key.v == "node_relationships":
                    return "dict"
        if d.op == "at" and isinstance(d.args[1], Const) and d.args[1].v == "node_relationships" and self.is_json(d):
            return "list"
        return "any"

    def elem_of(self, src, kind):
        if kind == "dict":
            return sym("key", src, typ=self.key_typ(src))
        e = self.etype.get(src)
        if e:
            v = sym("elem", src, typ=e[0])
            return self.typed(v, e)
        typ = "any"
        if isinstance(src, Sym):
            if src.op == "finditer":
                typ = "match"
            elif src.op in ("listdir", "glob"):
                typ = "path"
            elif src.typ in ("str", "ostr") or src.op in ("split", "resplit", "splitlines", "lines", "strlist", "oslistdir"):
                typ = "str"
            elif src.op == "at" and self.is_json(src) and isinstance(src.args[1], Const) and src.args[1].v in ("node_labels", "relationship_names"):
                typ = "str"
        elif isinstance(src, Const):
            typ = "str"
        return sym("elem", src, typ=typ)

    # ---------------------------------------------------------------- truth
    def cont_truth(self, st, kind, segs):
        if kind == "iter":
            return [(st, True)]
        if any(s[0] in ("one", "kid", "upd") for s in segs):
            return [(st, True)]
        res = []
        pend = [st]
        for seg in segs:
            nxt = []
            for s in pend:
                for s2, b in self.seg_truth(s, kind, seg):
                    if b:
                        res.append((s2, True))
                    else:
                        nxt.append(s2)
            pend = nxt
        return res + [(s, False) for s in pend]

    def slice_truth(self, st, kind, seg):
        """Is there anything in a slice of a sequence?"""
        src, cases, (_, a, b, c) = seg[1], seg[2], seg[3]
        if isinstance(src, Sym) and c == NONE and all(len(x) == 1 and x[0][0] == "one" for _, x in cases):
            n = 0 if a == NONE else a.v if isinstance(a, Const) and type(a.v) is int and a.v >= 0 else None
            m = None if b == NONE else b.v if isinstance(b, Const) and type(b.v) is int and b.v >= 0 else -1
            if n is not None and m is not None and 0 <= m <= n:
                return [(st, False)]
            if n is not None and (m is None or m > n):
                if n == 0:
                    return self.split(st, truthy(src))
                return self.split(st, sym("lt", const(n), sym("len", src, typ="int"), typ="bool"))
        return self.split(st, sym("truth", Doc(kind, self.freeze_segs(st, (seg,))), typ="bool"))

    def seg_truth(self, st, kind, seg):
        k = seg[0]
        if k == "base":
            a = truthy(seg[1])
            return self.split(st, a)
        if k == "star":
            src, cases = seg[1], seg[2]
            if isinstance(seg[3], tuple) and seg[3] and seg[3][0] == "slice":
                return self.slice_truth(st, kind, seg)
            full = [f for f, x in cases if x]
            part = [f for f, x in cases if not x]
            always = all(not x or any(y[0] in ("one", "kid") for y in x) for _, x in cases)
            if not part and always and isinstance(src, Sym):
                return self.split(st, truthy(src))
            if not full:
                return [(st, False)]
            ex = sym("exists", src, frozenset(full), typ="bool")
            d = st.facts.get(ex)
            if d is not None:
                return [(st, d)]
            # known of every element?
            for a, p in st.facts.items():
                if p and a.op == "forall" and a.args[0] is src:
                    dnf = a.args[1]
                    if all(not self._compat(st, x, full) for x in dnf):
                        return [(st, False)]
            res = []
            if not (isinstance(src, Sym) and decide(st, truthy(src)) is False):
                s = st.fork()
                s.facts[ex] = True
                if isinstance(src, Sym):
                    s.facts[truthy(src)] = True
                res.append((s, True))
            s = st.fork()
            s.facts[ex] = False
            if isinstance(src, Sym):
                if part:
                    self.ip.add_forall(s, src, self.ip.case_dnf([(f, None) for f in part]))
                else:
                    s.facts[truthy(src)] = False
            res.append((s, False))
            return res
        if k == "alt":
            res = []
            for f, x in seg[1]:
                s = assume_all(st, f)
                if s is None:
                    continue
                if s is st:
                    s = st.fork()
                res.extend(self.cont_truth(s, "list", x))
            return res
        if k == "perm":
            return self.cont_truth(st, kind, seg[2])
        if k == "prev":
            return self.split(st, truthy(sym("prevseq", *seg[1:])))
        if k == "del":
            return [(st, False)]
        return self.split(st, truthy(sym("segtruth", seg if all(isinstance(x, (Val, str, int, tuple)) for x in seg) else k)))

    def _compat(self, st, x, fulls):
        for f in fulls:
            if consistent(dict(x), f) and consistent(dict(f), x):
                return True
        return False

    def split(self, st, a):
        d = decide(st, a)
        if d is not None:
            return [(st, d)]
        return [(s, b) for b in (True, False) for s in [assume(st, a, b)] if s is not None]

    # --------------------------------------------------------------- lengths
    def length(self, st, v):
        """-> [(st, int value)]"""
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return [(st, const(len(v.v)))]
        if isinstance(v, Sym):
            if v.typ in ("int", "float", "bool", "none", "path"):
                return [self.ip.raise_(st, "TypeError", cause=(v,))]
            if v.typ in ("any", "ostr"):
                return self.seq(self.notnone(st, v, "TypeError"), lambda s: [(s, sym("len", v, typ="int"))])
            return [(st, sym("len", v, typ="int"))]
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst):
                m = o.cls.lookup("__len__") if isinstance(o.cls, ClassV) else None
                if m is not None:
                    return self.ip.call(st, Bound(v, m), [], {})
                return [self.ip.raise_(st, "TypeError")]
        kind, segs = self.view(st, v)
        if segs is None:
            return [self.ip.raise_(st, "TypeError", cause=(v,) if isinstance(v, Sym) else ())]
        return self.seg_len(st, kind, segs)

    def seg_len(self, st, kind, segs, n=0, syms=()):
        """Expand conditional items, then count."""
        for i, s in enumerate(segs):
            if s[0] == "alt":
                res = []
                for f, x in s[1]:
                    t = assume_all(st, f)
                    if t is None:
                        continue
                    if t is st:
                        t = st.fork()
                    res.extend(self.seg_len(t, kind, tuple(segs[:i]) + tuple(x) + tuple(segs[i + 1:])))
                    if len(res) > 400:
                        break
                return res
        flat = []
        for s in segs:
            flat.extend(s[2] if s[0] == "perm" else (s,))
        cnt = 0
        rest = []
        for s in flat:
            if s[0] in ("one", "kid"):
                cnt += 1
            elif s[0] == "upd":
                continue
            else:
                rest.append(s)
        if kind in ("set", "dict") and cnt > 1:
            keys = [s[1] for s in flat if s[0] in ("one", "kid")]
            if not all(isinstance(k, (Const, EnumV)) for k in keys):
                # distinct only if known to be
                n = self.distinct(st, keys)
                if n is None:
                    return [(st, sym("len", Doc(kind, tuple(flat)), typ="int"))]
            else:
                cnt = len(set(keys))
        if not rest:
            return [(st, const(cnt))]
        if len(rest) == 1 and rest[0][0] == "base":
            t = sym("len", rest[0][1], typ="int")
        elif len(rest) == 1 and rest[0][0] == "star" and not (isinstance(rest[0][3], tuple) and rest[0][3] and rest[0][3][0] == "slice") and all(len(x) == 1 and x[0][0] == "one" for _, x in rest[0][2]) and kind in ("list", "tuple", "iter"):
            t = sym("len", rest[0][1], typ="int")
        else:
            cc = self.charcount(rest) if len(rest) == 1 else None
            t = cc if cc is not None else sym("len", Doc(kind, tuple(rest)), typ="int")
        return [(st, add_int(t, cnt))]

    def distinct(self, st, keys):
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                e = eq_atom(a, b)
                r = e if isinstance(e, bool) else decide(st, e)
                if r is not False:
                    return None
        return len(keys)

    def charcount(self, segs):
        """A count of the characters of a text that are in some set."""
        s = segs[0]
        if s[0] != "star" or not (isinstance(s[1], Sym) and s[1].typ == "str"):
            return None
        src = s[1]
        e = sym("elem", src, typ="str")
        mask = 0
        for i, c in enumerate(rx.ALPHABET):
            facts = {}
            hit = None
            for f, x in s[2]:
                ok = True
                for a, p in f:
                    if a is truthy(src):
                        continue
                    b = Subst({e: const(c)})(a)
                    v = self.fold_atom(b)
                    if v is None:
                        return None
                    if v != p:
                        ok = False
                        break
                if ok:
                    if len(x) > 1 or x and x[0][0] != "one":
                        return None
                    if x and x[0][2] == const(0):
                        hit = False
                    else:
                        hit = bool(x)
            if hit is None:
                return None
            if hit:
                mask |= 1 << i
        return sym("ccount", src, mask, typ="int")

    def fold_atom(self, a):
        if isinstance(a, bool):
            return a
        if a.op == "eq" and all(isinstance(x, Const) for x in a.args):
            return a.args[0].v == a.args[1].v
        if a.op == "contains":
            c, b = a.args
            from . import strlang

            ls = strlang._lits(c)
            if ls is None or not isinstance(b, Const):
                return None
            if isinstance(c, Const):
                return b.v in c.v
            return b.v in ls
        if a.op == "truth" and isinstance(a.args[0], Const):
            return bool(a.args[0].v)
        if a.op in ("isupper", "islower", "isdigit", "isalpha", "isalnum", "isspace") and isinstance(a.args[0], Const):
            return getattr(a.args[0].v, a.op)()
        if a.op == "isnone" and isinstance(a.args[0], Const):
            return a.args[0].v is None
        return None

    # -------------------------------------------------------------- compare
    def compare(self, st, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            res = []
            for s, x in self.ip.resolve(st, a):
                for s2, y in self.ip.resolve(s, b):
                    res.extend(self.compare(s2, op, x, y))
            return res
        if op == "ne":
            return self.negate(self.compare(st, "eq", a, b))
        if op == "isnot":
            return self.negate(self.compare(st, "is", a, b))
        if op == "notin":
            return self.negate(self.compare(st, "in", a, b))
        if op in ("lt", "gt", "le", "ge"):
            ca, cb = self._cont(st, a), self._cont(st, b)
            if ca is not None and cb is not None and ca.kind == "set" and cb.kind == "set":
                x, y = (a, b) if op in ("lt", "le") else (b, a)
                if op in ("le", "ge"):
                    return self.issubset(st, x, y, None)
                return [(st, sym("propersubset", self.freeze(st, x), self.freeze(st, y), typ="bool"))]
        if op == "gt":
            return self.compare(st, "lt", b, a)
        if op == "ge":
            return self.negate(self.compare(st, "lt", a, b))
        if op == "le":
            return self.negate(self.compare(st, "lt", b, a))
        if op == "is":
            if isinstance(a, Sym) and isinstance(b, Sym) and a is not b and {a.typ, b.typ} <= {"str", "int", "float", "num"}:
                # equal numbers or texts may be two objects
                res = []
                for s, r in self.eq(st, a, b):
                    if isinstance(r, Raise):
                        res.append((s, r))
                        continue
                    for s2, p in self.ip.branch(s, r):
                        res.append((s2, sym("is", a, b, typ="bool") if p else FALSE))
                return res
            return [(st, self.is_(st, a, b))]
        if op == "eq":
            return self.eq(st, a, b)
        if op == "lt":
            return self.lt(st, a, b)
        if op == "in":
            return self.contains(st, b, a)
        return [(st, self.ip.unk("compare " + op, a, b, typ="bool"))]

    def negate(self, outs):
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
            elif isinstance(v, Const):
                res.append((s, const(not v.v)))
            elif isinstance(v, Sym) and v.op == "not":
                res.append((s, v.args[0]))
            else:
                res.append((s, sym("not", v, typ="bool")))
        return res

    def is_(self, st, a, b):
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if isinstance(a, (Const, EnumV, ClassV, Func, LibV, RegexV)) and isinstance(b, (Const, EnumV, ClassV, Func, LibV, RegexV)):
            return const(a is b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return const(a == b)
        if isinstance(b, Const) and b.v is None:
            if isinstance(a, Sym):
                if a.op in ("search", "match", "fullmatch"):
                    return sym("not", truthy(a), typ="bool")
                d = decide(st, isnone(a))
                return isnone(a) if d is None else const(d)
            return FALSE
        if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, Sym):
            if a.typ == "bool":
                return a if b.v else sym("not", a, typ="bool")
            if a.typ in PLAIN:
                return FALSE
        if isinstance(a, Sym) and isinstance(b, Sym) and a is b:
            return TRUE
        if isinstance(a, (EnumV, Sym)) and isinstance(b, (EnumV, Sym)):
            e = eq_atom(a, b)
            return const(e) if isinstance(e, bool) else e
        if isinstance(a, Sym) or isinstance(b, Sym):
            return sym("is", a, b, typ="bool")
        return FALSE

    def eq(self, st, a, b):
        ra, rb = self._cont(st, a), self._cont(st, b)
        if ra is not None or rb is not None:
            return self.eq_cont(st, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if a == b:
                return [(st, TRUE)]
            for x, y in ((a, b), (b, a)):
                o = st.heap.get(x.addr) if isinstance(x, Ref) else None
                if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                    m = o.cls.lookup("__eq__")
                    if m is not None:
                        return self.ip.call(st, Bound(x, m), [y], {})
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if fa == fb:
                return [(st, TRUE)]
            return [(st, sym("eq", fa, fb, typ="bool"))]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, const(a.v == b.v))]
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return [(st, const(a is b))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, FALSE)]
            if a == b:
                return [(st, TRUE)]
        if isinstance(a, Const) and isinstance(b, Sym):
            a, b = b, a
        # a length against a number
        if isinstance(a, Sym) and isinstance(b, Const) and a.op == "len" and isinstance(b.v, int):
            if b.v == 0 and isinstance(a.args[0], Sym):
                return self.negate([(st, truthy(a.args[0]))])
            if b.v < 0:
                return [(st, FALSE)]
            lo, hi = self.len_bounds(a)
            if hi is not None and b.v > hi or b.v < lo:
                return [(st, FALSE)]
        if isinstance(a, Sym) and isinstance(b, Sym):
            d = self.dup_atom(st, a, b)
            if d is not None:
                return [(st, d)]
        if isinstance(a, Sym) and isinstance(b, Sym) and {a.op, b.op} == {"mstart", "mend"} and a.args == b.args:
            return self.negate(self.matched_text(st, *a.args))
        if isinstance(a, Sym) and a.op == "opMod" and a.args[1] == const(2) and b == const(1):
            return self.negate(self.eq(st, a, const(0)))
        # booleans
        if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, Sym) and a.typ == "bool":
            return [(st, a)] if b.v else self.negate([(st, a)])
        e = eq_atom(a, b)
        if isinstance(e, bool):
            return [(st, const(e))]
        if e.op == "isnone" and isinstance(e.args[0], Sym) and e.args[0].op in ("search", "match", "fullmatch"):
            return [(st, sym("not", truthy(e.args[0]), typ="bool"))]
        d = decide(st, e)
        return [(st, e if d is None else const(d))]

    def matched_text(self, st, m, k):
        """Is the text of a group that took part in a match not empty?"""
        res = []
        for s, g in self.group(st, m, k):
            if isinstance(g, Raise):
                res.append((s, g))
            else:
                res.extend((s2, const(b)) for s2, b in self.ip.branch(s, g))
        return res

    def len_bounds(self, n):
        """Least and greatest number of elements of a set some of whose elements may be equal."""
        x = n.args[0]
        if isinstance(x, Doc) and x.kind in ("set", "frozenset", "dict") and all(s[0] in ("one", "kid") for s in x.segs):
            keys = [s[1] for s in x.segs]
            cs = {k for k in keys if isinstance(k, (Const, EnumV))}
            return max(len(cs), 1 if keys else 0), len(set(keys))
        return 0, None

    def dup_atom(self, st, a, b):
        """len(x) == len(set(x)): no two elements of x are equal."""
        for x, y in ((a, b), (b, a)):
            ba, oa = base_off(x)
            bb, ob = base_off(y)
            if ba is None or bb is None:
                continue
            if ba.op == "len" and bb.op == "len":
                u, v = ba.args[0], bb.args[0]
                if isinstance(u, Doc) and u.kind == "set":
                    l = v.segs if isinstance(v, Doc) else (("base", v),)
                    if isinstance(v, Doc) and v.kind == "set":
                        continue
                    if oa == 0 and ob == 0 and self.list_to_set(l) == u.segs:
                        return sym("not", sym("dup", Doc("list", tuple(l)), typ="bool"), typ="bool")
        return None

    def _cont(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            return o if isinstance(o, Cont) else None
        if isinstance(v, Doc) and v.kind in CONTAINERS:
            return v
        return None

    def eq_cont(self, st, a, b):
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(fa, Doc) and isinstance(fb, Doc):
            if fa.kind != fb.kind:
                return [(st, FALSE)]
            if fa == fb:
                return [(st, TRUE)]
            if not fa.segs or not fb.segs:
                # emptiness
                x = fb if not fa.segs else fa
                return [(s, const(not t)) for s, t in self.cont_truth(st, x.kind, x.segs)]
            ca, cb = self.const_doc(fa), self.const_doc(fb)
            if ca is not None and cb is not None:
                return [(st, const(ca == cb))]
        elif isinstance(fa, (Const, EnumV, ClassV)) or isinstance(fb, (Const, EnumV, ClassV)):
            return [(st, FALSE)]
        return [(st, sym("eq", fa, fb, typ="bool"))]

    def const_doc(self, d):
        """The Python value of a constant container."""
        if isinstance(d, Const):
            return d.v
        if isinstance(d, Tup):
            xs = [self.const_doc(x) for x in d.items]
            return None if any(x is None for x in xs) else tuple(xs)
        if not isinstance(d, Doc):
            return None
        if any(s[0] != "one" for s in d.segs):
            return None
        try:
            if d.kind in ("list", "tuple", "iter"):
                xs = [self.const_doc(s[2]) for s in d.segs]
                return None if any(x is None and s[2] != NONE for x, s in zip(xs, d.segs)) else xs
            if d.kind == "set":
                xs = [s[1] for s in d.segs]
                return {x.v for x in xs} if all(isinstance(x, Const) for x in xs) else None
            if d.kind == "dict":
                out = {}
                for s in d.segs:
                    if not isinstance(s[1], Const):
                        return None
                    v = self.const_doc(s[2])
                    if v is None and s[2] != NONE:
                        return None
                    out[s[1].v] = v
                return out
        except TypeError:
            return None
        return None

    def lt(self, st, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, const(a.v < b.v))]
            except TypeError:
                return [self.ip.raise_(st, "TypeError")]
        ka, kb = self._cont(st, a), self._cont(st, b)
        if ka is not None or kb is not None:
            return [(st, sym("lt", self.freeze(st, a), self.freeze(st, b), typ="bool"))]
        ba, oa = base_off(a)
        bb, ob = base_off(b)
        # c < len + k
        if ba is None and isinstance(bb, Sym) and bb.op == "len" and isinstance(ob, int):
            k = oa - ob
            if k < 0:
                return [(st, TRUE)]
            if k == 0 and isinstance(bb.args[0], Sym):
                return [(st, truthy(bb.args[0]))]
            a, b = const(k), bb
        elif bb is None and isinstance(ba, Sym) and ba.op == "len" and isinstance(oa, int):
            k = ob - oa
            if k <= 0:
                return [(st, FALSE)]
            if k == 1 and isinstance(ba.args[0], Sym):
                return self.negate([(st, truthy(ba.args[0]))])
            a, b = ba, const(k)
        if isinstance(a, Const) and isinstance(b, Sym) and b.op == "len" and isinstance(a.v, int):
            lo, hi = self.len_bounds(b)
            if a.v < lo:
                return [(st, TRUE)]
            if hi is not None and a.v >= hi:
                return [(st, FALSE)]
        if isinstance(b, Const) and isinstance(a, Sym) and a.op == "len" and isinstance(b.v, int):
            lo, hi = self.len_bounds(a)
            if hi is not None and hi < b.v:
                return [(st, TRUE)]
            if lo >= b.v:
                return [(st, FALSE)]
        if isinstance(ba, Sym) and isinstance(bb, Sym) and oa == ob and {ba.op, bb.op} == {"mstart", "mend"} and ba.args == bb.args:
            # where a match starts and ends
            if ba.op == "mend":
                return [(st, FALSE)]
            return self.matched_text(st, *ba.args)
        # how often something occurs is not negative
        if ba is None and isinstance(bb, Sym) and bb.op in COUNTS:
            if oa - ob < 0:
                return [(st, TRUE)]
            if oa == ob:
                return self.negate(self.eq(st, bb, const(0)))
        if bb is None and isinstance(ba, Sym) and ba.op in COUNTS:
            if ob - oa <= 0:
                return [(st, FALSE)]
            if ob - oa == 1:
                return self.eq(st, ba, const(0))
        if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)):
            for x in (a, b):
                if isinstance(x, Const) and x.v is None:
                    return [self.ip.raise_(st, "TypeError")]
            e = sym("lt", a, b, typ="bool")
            d = decide(st, e)
            # more than one element: there is one
            if d is None and isinstance(a, Const) and isinstance(b, Sym) and b.op == "len" and isinstance(b.args[0], Sym):
                res = []
                s = assume(st, e, True)
                if s is not None:
                    s = assume(s, truthy(b.args[0]), True)
                    if s is not None:
                        res.append((s, TRUE))
                s = assume(st, e, False)
                if s is not None:
                    res.append((s, FALSE))
                return res
            return [(st, e if d is None else const(d))]
        return [(st, self.ip.unk("compare", a, b, typ="bool"))]

    # -------------------------------------------------------------- contains
    def contains(self, st, c, x):
        if isinstance(c, Const):
            if isinstance(c.v, str):
                if isinstance(x, Const):
                    if not isinstance(x.v, str):
                        return [self.ip.raise_(st, "TypeError")]
                    return [(st, const(x.v in c.v))]
                if isinstance(x, Sym):
                    return self.seq(self.notnone(st, x, "TypeError"), lambda s: [(s, self.atom(s, sym("contains", c, x, typ="bool")))])
                return [self.ip.raise_(st, "TypeError")]
            return [self.ip.raise_(st, "TypeError", cause=("none",))]
        if isinstance(c, Sym) and c.typ in ("str", "ostr"):
            def go(s):
                if isinstance(x, Const) and x.v is None:
                    return [self.ip.raise_(s, "TypeError")]
                if c.op == "fstr" and isinstance(x, Const) and isinstance(x.v, str):
                    for p in c.args[0]:
                        if isinstance(p, Const) and x.v in p.v:
                            return [(s, TRUE)]
                return self.seq(
                    self.notnone(s, x, "TypeError") if isinstance(x, Sym) else [(s, None)],
                    lambda t: [(t, self.atom(t, sym("contains", c, x, typ="bool")))],
                )

            return self.seq(self.notnone(st, c, "TypeError"), go)
        if isinstance(c, ClassV) and c.kind == "enum":
            c = Tup(c.members.values())
        kind, segs = self.view(st, c)
        if isinstance(c, Ref):
            o = st.heap.get(c.addr)
            if isinstance(o, Inst):
                m = o.cls.lookup("__contains__")
                if m is not None:
                    return self.ip.call(st, Bound(c, m), [x], {})
        if segs is None:
            return [self.ip.raise_(st, "TypeError", cause=(c,) if isinstance(c, Sym) else ())]
        if isinstance(c, Sym) and c.typ in ("any", "ostr"):
            return self.seq(self.notnone(st, c, "TypeError"), lambda s: self._contains(s, kind, segs, x))
        return self._contains(st, kind, segs, x)

    def atom(self, st, a):
        d = decide(st, a)
        return a if d is None else const(d)

    def _contains(self, st, kind, segs, x):
        x = self.freeze(st, x)
        ones = []
        rest = []
        for s in segs:
            if s[0] in ("one", "kid", "upd"):
                ones.append(s[1] if kind in ("dict", "set") else s[2])
            elif s[0] == "perm":
                rest.extend(s[2])
            elif s[0] == "alt":
                rest.append(s)
            else:
                rest.append(s)
        outs = [(st, None)]
        # constants at once
        if ones and not rest and all(isinstance(o, (Const, LibV, EnumV, ClassV)) for o in ones):
            if isinstance(x, (Const, LibV, EnumV, ClassV)):
                hit = any(o is x or isinstance(o, Const) and isinstance(x, Const) and o.v == x.v for o in ones)
                return [(st, const(hit))]
            if isinstance(x, Sym):
                if len(ones) == 1:
                    return self.eq(st, x, ones[0])
                odd = [o for o in ones if isinstance(o, Const) and (o.v is None or o.v == "")]
                if odd:
                    # nothing, and text without characters, are told from the rest first
                    res = []
                    for s, r in self.eq(st, x, odd[0]):
                        if isinstance(r, Raise):
                            res.append((s, r))
                            continue
                        for t, pol in self.ip.branch(s, r):
                            if pol:
                                res.append((t, TRUE))
                            else:
                                left = [("one", o, None) if kind in ("dict", "set") else ("one", None, o) for o in ones if o is not odd[0]]
                                res.extend(self._contains(t, kind, left, x))
                    return res
                if x.op == "typeof":
                    d = Tup(ones)
                else:
                    d = Tup(sorted(ones, key=repr))
                return [(st, self.atom(st, sym("contains", d, x, typ="bool")))]
        res = []
        pend = [st]
        for o in ones:
            nxt = []
            for s in pend:
                for s2, r in self.eq(s, x, o):
                    if isinstance(r, Raise):
                        res.append((s2, r))
                        continue
                    for s3, b in self.ip.branch(s2, r):
                        if b:
                            res.append((s3, TRUE))
                        else:
                            nxt.append(s3)
            pend = nxt
        for s in pend:
            if not rest:
                res.append((s, FALSE))
            elif len(rest) == 1 and rest[0][0] == "base":
                res.append((s, self.atom(s, sym("has", rest[0][1], x, typ="bool"))))
            elif all(r[0] == "alt" for r in rest):
                cur = [(s, ())]
                for r in rest:
                    nx = []
                    for t, acc in cur:
                        for f, sub in r[1]:
                            u = assume_all(t, f)
                            if u is not None:
                                nx.append((u.fork() if u is t else u, acc + tuple(sub)))
                    cur = nx
                for t, acc in cur:
                    res.extend(self._contains(t, kind, acc, x))
            else:
                keys = [self._keys_of(r, kind) for r in rest]
                if all(keys):
                    # the keys of a dict under construction: the dict itself
                    d = Doc("dict", self.freeze_segs(s, tuple(keys)))
                else:
                    d = Doc(kind, self.freeze_segs(s, tuple(rest)))
                res.append((s, self.atom(s, sym("has", d, x, typ="bool"))))
        return res

    def _keys_of(self, seg, kind):
        """The segment of a dict whose keys this segment lists, if it does."""
        if seg[0] == "star" and isinstance(seg[1], Sym) and seg[1].op == "prevseq" and seg[3] is False:
            k = sym("key", seg[1], typ="any")
            one = ("one", k, None) if kind == "set" else ("one", None, k)
            if seg[2] == ((frozenset(), (one,)),):
                return ("prev",) + tuple(seg[1].args)
        return None

    # --------------------------------------------------------------- getattr
    def getattr(self, st, x, name):
        ip = self.ip
        if isinstance(x, ModV):
            fid = ip.modfid.get(x.name)
            if fid is not None and st.frames.get(fid, {}).get(name) is not None:
                return [(st, st.frames[fid][name])]
            sub = ip.src.alias(x.name + "." + name)
            if sub is not None:
                return [(st, ModV(sub))]
            if ip.src.is_namespace(x.name + "." + name):
                return [(st, ModV(x.name + "." + name))]
            if name == "__name__":
                return [(st, const(x.name))]
            return [ip.raise_(st, "AttributeError", name)]
        if isinstance(x, LibV):
            if x.name == "logging" and name.isupper():
                return [(st, const(0))]
            return [(st, self.from_import(x.name, name))]
        if isinstance(x, SuperV):
            seen = False
            for c in x.cls.mro():
                if c is x.cls:
                    continue
                if name in c.attrs:
                    return self.class_attr(st, x.self_, c.attrs[name])
            return [(st, Bound(x.self_, "super." + name))]
        if isinstance(x, EnumV):
            if name == "value":
                return [(st, x.value)]
            if name == "name":
                return [(st, const(x.name))]
            m = x.cls.lookup(name)
            if m is not None:
                return self.class_attr(st, x, m)
            # members are reachable from members
            if name in x.cls.members:
                return [(st, x.cls.members[name])]
            return [ip.raise_(st, "AttributeError", name)]
        if isinstance(x, ClassV):
            return self.class_getattr(st, x, name)
        if isinstance(x, RegexV):
            if name == "pattern":
                return [(st, const(x.pattern))]
            if name == "flags":
                return [(st, const(x.flags))]
            if name == "groupindex":
                p = pat(x)
                return [(st, ip.cont(st, "dict", [("one", const(k), const(v)) for k, v in re.compile(x.pattern, x.flags).groupindex.items()]))]
            if name == "groups":
                return [(st, const(re.compile(x.pattern, x.flags).groups))]
            return [(st, Bound(x, name))]
        if isinstance(x, Const):
            if x.v is None:
                return [ip.raise_(st, "AttributeError", f"'NoneType' object has no attribute '{name}'", cause=("none",))]
            if not hasattr(x.v, name):
                return [ip.raise_(st, "AttributeError", name)]
            return [(st, Bound(x, name))]
        if isinstance(x, Func):
            if name in ("__name__", "__qualname__"):
                return [(st, const(x.name))]
            if name in ("cache_clear", "cache_info"):
                return [(st, lib("noop"))]
            return [(st, ip.unk("function attribute " + name))]
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Inst):
                return self.inst_getattr(st, x, o, name)
            if isinstance(o, FH) and name in ("name", "mode", "closed"):
                if name == "name":
                    return [(st, sym("pathstr", o.path, typ="str"))]
                return [(st, const(o.mode if name == "mode" else o.closed))]
            return [(st, Bound(x, name))]
        if isinstance(x, (Doc, Tup)):
            return [(st, Bound(x, name))]
        if isinstance(x, Partial) and isinstance(x.fn, LibV) and x.fn.name == "property":
            if name in ("setter", "getter", "deleter"):
                return [(st, lib("property." + name))]
        if isinstance(x, Sym):
            return self.seq(self.notnone(st, x), lambda s: self.sym_getattr(s, x, name))
        return [(st, ip.unk("attribute " + name, x))]

    def class_attr(self, st, self_, v):
        if isinstance(v, Func):
            return [(st, Bound(self_, v))]
        if isinstance(v, Partial) and isinstance(v.fn, LibV):
            n = v.fn.name
            if n in ("property", "functools.cached_property"):
                return self.ip.call(st, v.args[0], [self_], {})
            if n == "staticmethod":
                return [(st, v.args[0])]
            if n == "classmethod":
                cls = self_
                if isinstance(self_, Ref):
                    cls = st.heap[self_.addr].cls
                elif isinstance(self_, EnumV):
                    cls = self_.cls
                return [(st, Bound(cls, v.args[0]))]
        return [(st, v)]

    def class_getattr(self, st, c, name):
        if c.kind == "enum" and name in c.members:
            return [(st, c.members[name])]
        if name == "__name__":
            return [(st, const(c.name))]
        if name == "__members__" and c.kind == "enum":
            return [(st, self.ip.cont(st, "dict", [("one", const(k), v) for k, v in c.members.items()]))]
        if name == "__fields__":
            return [(st, self.ip.cont(st, "dict", [("one", const(k), const(k)) for k in c.fields]))]
        v = c.lookup(name)
        if v is not None:
            if isinstance(v, Partial) and isinstance(v.fn, LibV):
                if v.fn.name in ("staticmethod",):
                    return [(st, v.args[0])]
                if v.fn.name == "classmethod":
                    return [(st, Bound(c, v.args[0]))]
            return [(st, v)]
        if c.kind == "model" and name in ("parse_obj", "construct", "schema", "parse_raw"):
            return [(st, Bound(c, name))]
        if c.kind == "exc" and name == "__init__":
            return [(st, lib("BaseException.__init__"))]
        if name == "__init__":
            return [(st, lib("object.__init__"))]
        return [self.ip.raise_(st, "AttributeError", name)]

    def inst_getattr(self, st, x, o, name):
        if name == "__class__":
            return [(st, o.cls)]
        v = o.cls.lookup(name) if isinstance(o.cls, ClassV) else None
        if isinstance(v, Partial) and isinstance(v.fn, LibV) and v.fn.name == "property":
            return self.class_attr(st, x, v)
        if name in o.fields:
            return [(st, o.fields[name])]
        if name == "__dict__":
            return [(st, self.ip.cont(st, "dict", [("one", const(k), w) for k, w in o.fields.items()]))]
        if v is not None:
            return self.class_attr(st, x, v)
        if o.cls.kind == "model":
            if name in ("dict", "json", "copy", "__fields_set__", "__fields__"):
                return [(st, Bound(x, name))]
        if o.cls.kind == "exc":
            if name in ("with_traceback", "add_note"):
                return [(st, Bound(x, name))]
            if name in ("args",):
                return [(st, Tup(()))]
            if o.extra == "any" or name in ("errno", "strerror", "filename", "msg", "__cause__", "__context__", "__traceback__", "pos", "doc", "lineno"):
                return [(st, sym("excattr", name))]
        if name in ("__str__", "__repr__", "__eq__", "__hash__"):
            return [(st, Bound(x, name))]
        if o.cls.kind == "namedtuple" and name in ("_asdict", "_replace"):
            return [(st, Bound(x, name))]
        return [self.ip.raise_(st, "AttributeError", name)]

    def sym_getattr(self, st, x, name):
        cls = self.ip.specs.get(x)
        if isinstance(cls, ClassV):
            v = cls.lookup(name)
            if isinstance(v, Partial) and isinstance(v.fn, LibV) and v.fn.name == "property":
                return self.class_attr(st, x, v)
            if name in cls.fields:
                return [(st, self.ip.pyd.sym_field(x, cls, name))]
            if v is not None:
                return self.class_attr(st, x, v)
            if name in ("dict", "copy", "json"):
                return [(st, Bound(x, name))]
        if x.typ == "path" and name in ("name", "parent", "stem", "suffix", "parts", "parents"):
            if name == "name" and x.op == "join":
                return [(st, x.args[1])]
            if name == "parent":
                if x.op == "join":
                    return [(st, x.args[0])]
                return [(st, sym("parent", x, typ="path"))]
            return [(st, sym("pathattr", x, name, typ="str" if name in ("name", "stem", "suffix") else "list"))]
        if x.typ == "match" or x.op in ("search", "match", "fullmatch"):
            if name in ("string",):
                R, s = match_regex(x)
                return [(st, s)]
            if name == "re":
                return [(st, match_regex(x)[0])]
            if name in ("lastgroup", "lastindex"):
                return [(st, sym("matchattr", x, name))]
        if x.typ in PLAIN or x.typ in CONTAINERS or x.typ in ("path", "match", "date", "fh", "regex"):
            return [(st, Bound(x, name))]
        if x.op == "stat":
            return [(st, sym("statattr", x, name, typ="int"))]
        if x.typ == "inst":
            return [(st, sym("attr", x, name))]
        return [(st, Bound(x, name))]

    def setattr(self, st, x, name, v):
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Inst):
                if x.addr <= self.ip.gmark and self.ip.phase == "run":
                    self.ip.glob_mut.setdefault(("h", x.addr), self.ip.where())
                if o.cls.kind == "model" and o.cls.fields and name not in o.cls.fields and not name.startswith("_"):
                    return [self.ip.raise_(st, "ValueError", name)]
                if o.cls.kind == "model" and self.ip.pyd.config(o.cls, "validate_assignment"):
                    res = []
                    for s, w in self.ip.pyd.coerce(st, o.cls.fields[name], v):
                        if not isinstance(w, Raise):
                            s.heap[x.addr] = s.heap[x.addr].with_(name, w)
                            w = NONE
                        res.append((s, w))
                    return res
                st.heap[x.addr] = o.with_(name, v)
                return [(st, NONE)]
        if isinstance(x, ClassV):
            if self.ip.phase == "run":
                self.ip.glob_mut.setdefault(("c", x.name, name), self.ip.where())
                st.effect("global_write", ("class", x.name, name), v, self.ip.where())
            x.attrs[name] = v
            return [(st, NONE)]
        if isinstance(x, (LibV, Func)):
            return [(st, NONE)]
        if isinstance(x, ModV):
            fid = self.ip.modfid.get(x.name)
            if fid is not None:
                if self.ip.phase == "run":
                    st.effect("global_write", (fid, name), v, self.ip.where())
                    self.ip.glob_mut.setdefault(("v", fid, name), self.ip.where())
                st.set(fid, name, v)
            return [(st, NONE)]
        if isinstance(x, Const):
            return [self.ip.raise_(st, "AttributeError", name)]
        if isinstance(x, Sym):
            st.effect("setattr", x, name, v, self.ip.where())
            return [(st, NONE)]
        self.ip.unk("set attribute")
        return [(st, NONE)]

    # --------------------------------------------------------------- getitem
    def getitem(self, st, x, k):
        ip = self.ip
        if isinstance(k, Sym) and k.op == "plus" and isinstance(k.args[1], int) and k.args[1] < 0:
            n = k.args[0]
            if isinstance(n, Sym) and n.op == "len" and n.args[0] == (x if isinstance(x, Sym) else self.freeze(st, x)):
                k = const(k.args[1])    # counted from the end
        if isinstance(x, ClassV):
            if x.kind == "enum":
                if isinstance(k, Const):
                    if k.v in x.members:
                        return [(st, x.members[k.v])]
                    return [ip.raise_(st, "KeyError", cause=(k,))]
                if isinstance(k, Sym):
                    res, pend = [], [st]
                    for nm, m in x.members.items():
                        nxt = []
                        for s in pend:
                            for s2, r in self.eq(s, k, const(nm)):
                                for s3, b in ip.branch(s2, r):
                                    if b is True:
                                        res.append((s3, m))
                                    else:
                                        nxt.append(s3)
                        pend = nxt
                    return res + [ip.raise_(s, "KeyError", cause=(k,)) for s in pend]
            return [(st, x)]
        if isinstance(x, LibV):
            return [(st, x)]
        if isinstance(x, Const):
            if isinstance(x.v, str):
                if isinstance(k, Const) and isinstance(k.v, int):
                    try:
                        return [(st, const(x.v[k.v]))]
                    except IndexError:
                        return [ip.raise_(st, "IndexError")]
                return [(st, sym("item", x, k, typ="str"))]
            return [ip.raise_(st, "TypeError", cause=("none",) if x.v is None else ())]
        if isinstance(x, Sym):
            return self.seq(self.notnone(st, x, "TypeError"), lambda s: self.sym_getitem(s, x, k))
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Inst):
                m = o.cls.lookup("__getitem__")
                if m is not None:
                    return ip.call(st, Bound(x, m), [k], {})
                if o.cls.kind == "namedtuple" and isinstance(k, Const):
                    return [(st, list(o.fields.values())[k.v])]
                return [ip.raise_(st, "TypeError")]
        kind, segs = self.view(st, x)
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        if kind == "dict":
            return self.dict_get(st, x, segs, k, lambda s: [ip.raise_(s, "KeyError", cause=self.cause_of(s, x, k))])
        if kind == "set":
            return [ip.raise_(st, "TypeError")]
        return self.list_get(st, x, kind, segs, k)

    def cause_of(self, st, x, k):
        f = self.freeze(st, x)
        return (f, self.freeze(st, k))

    def sym_getitem(self, st, x, k):
        ip = self.ip
        if x.typ == "match" or x.op in ("search", "match", "fullmatch"):
            return self.group(st, x, k)
        if x.typ in ("str", "ostr"):
            if isinstance(k, Const) and isinstance(k.v, int):
                need = k.v + 1 if k.v >= 0 else -k.v
                if need == 1:
                    g = self.guard(st, truthy(x), True, "IndexError", (x,))
                else:
                    g = self.guard(st, sym("lt", sym("len", x, typ="int"), const(need), typ="bool"), False, "IndexError", (x,))
                return self.seq(g, lambda s: [(s, sym("item", x, k, typ="str"))])
            if isinstance(k, Sym) and k.op == "idx" and k.args[0] is x:
                return [(st, sym("elem", x, typ="str"))]
            return [(st, sym("item", x, k, typ="str"))] + [ip.raise_(st.fork(), "IndexError", cause=(x, k))]
        if x.typ == "dict":
            return self.dict_get(st, x, (("base", x),), k, lambda s: [ip.raise_(s, "KeyError", cause=(x, k))])
        if x.typ in ("list", "tuple", "any", "iter") and isinstance(k, Const) and isinstance(k.v, str):
            return self.dict_get(st, x, (("base", x),), k, lambda s: [ip.raise_(s, "KeyError", cause=(x, k))])
        return self.list_get(st, x, "list", (("base", x),), k)

    def child(self, st, d, k):
        e = self.etype.get(d)
        if e and e[1] is not None:
            v = sym("at", d, k, typ=e[1] if isinstance(e[1], str) else "inst")
            return self.typed(v, e)
        return sym("at", d, k, typ=self.child_typ(d, k))

    def materialise(self, st, x, key, v, segkind):
        """A mutable object for a child that is read out of a document."""
        kind = v.kind if isinstance(v, Doc) else v.typ if isinstance(v, Sym) else None
        if kind not in ("list", "dict", "set"):
            return v
        segs = v.segs if isinstance(v, Doc) else (("base", v),)
        r = self.ip.cont(st, kind, segs)
        if isinstance(x, Ref):
            o = st.heap[x.addr]
            out = []
            done = False
            for s in o.segs:
                if s[0] in ("one", "kid", "upd") and s[1] == key and s[2] == v:
                    out.append((s[0], s[1], r))
                    done = True
                else:
                    out.append(s)
            if not done:
                out.append(("kid", key, r))
            st.heap[x.addr] = Cont(o.kind, tuple(out), o.extra)
        return r

    def dict_get(self, st, x, segs, k, missing):
        """d[k] -> [(st, v)]; missing(st) gives the outcomes for an absent key."""
        k = self.freeze(st, k)
        res = []
        pend = [st]
        segs = list(segs)
        defaultf = None
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Cont) and isinstance(o.extra, tuple) and o.extra and o.extra[0] == "default":
                defaultf = o.extra[1]
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            nxt = []
            for t in pend:
                if s[0] in ("one", "upd", "kid"):
                    for t2, r in self.eq(t, k, s[1]):
                        for t3, b in self.ip.branch(t2, r):
                            if b:
                                v = s[2]
                                if isinstance(v, Doc):
                                    v = self.materialise(t3, x, s[1], v, s[0])
                                res.append((t3, v))
                            else:
                                nxt.append(t3)
                elif s[0] == "base":
                    d = s[1]
                    # a key that was taken from this very dictionary
                    if isinstance(k, Sym) and k.op in ("key", "witkey") and k.args[0] is d:
                        v = sym("val" if k.op == "key" else "witval", *k.args, typ=self.val_of(d).typ)
                        e = self.etype.get(d)
                        if e:
                            self.typed(v, e)
                        res.append((t, self.materialise(t, x, k, v, "kid") if isinstance(x, Ref) else v))
                        continue
                    h = sym("has", d, k, typ="bool")
                    for t2, b in self.split(t, h):
                        if b:
                            v = self.child(t2, d, k)
                            if isinstance(x, Ref):
                                v = self.materialise(t2, x, k, v, "kid")
                            res.append((t2, v))
                        else:
                            nxt.append(t2)
                elif s[0] == "alt":
                    for f, sub in s[1]:
                        t2 = assume_all(t, f)
                        if t2 is None:
                            continue
                        if t2 is t:
                            t2 = t.fork()
                        res.extend(self.dict_get(t2, x, tuple(segs[:i]) + tuple(sub), k, missing))
                    # handled completely
                    continue
                elif s[0] == "del":
                    nxt.append(t)
                else:
                    d = Doc("dict", self.freeze_segs(t, tuple(segs[: i + 1])))
                    h = sym("has", d, k, typ="bool")
                    for t2, b in self.split(t, h):
                        if b:
                            v = self.star_value(t2, s, k)
                            if v is None:
                                v = sym("at", d, k, typ=self.ip.lib._items_typ((s,)))
                            res.append((t2, v))
                        else:
                            res.extend(missing(t2))
                    continue
            pend = nxt
            if not pend:
                break
        for t in pend:
            if defaultf is not None:
                for t2, v in self.ip.call(t, defaultf, [], {}):
                    if not isinstance(v, Raise):
                        self.put(t2, x, k, v)
                    res.append((t2, v))
            else:
                res.extend(missing(t))
        return res

    def star_value(self, st, seg, k):
        if seg[0] != "star":
            return None
        for _, sub in seg[2]:
            for e in sub:
                if e[0] == "one" and e[1] == k:
                    return e[2]
        return None

    def at_sym(self, st, src, k, sub):
        """Instantiate what is known of every element of src for the one at k."""
        e = self.elem_of(src, "list")
        a = sym("at", src, k, typ=e.typ)
        if e in self.ip.specs:
            self.ip.specs[a] = self.ip.specs[e]
        if e in self.etype:
            self.etype[a] = self.etype[e]
        m = Subst({sym("elem", src): a})
        s = st
        for atom, p in list(st.facts.items()):
            if p and atom.op == "forall" and atom.args[0] is src:
                dnf = [frozenset((m(x), q) for x, q in d) for d in atom.args[1]]
                s2 = add_dnf(s.fork(), dnf)
                if s2 is None:
                    return None, None, None
                s = s2
        return s, a, m(sub) if sub is not None else a

    def inst_value(self, st, v, m):
        """The value of one particular iteration, with its own objects."""
        if not info(v)[1]:
            v = m(v)
            if isinstance(v, Doc) and v.kind in CONTAINERS:
                return self.ip.cont(st, v.kind, v.segs)
            return v
        def hit(o):
            vs = (o.segs, o.extra) if isinstance(o, Cont) else (tuple(o.fields.values()), o.extra) if isinstance(o, Inst) else ()
            return any(not info(x)[0].isdisjoint(m.keys) for x in vs if x is not None)

        addrs = sorted(a for a in reachable(st.heap, [v]) if a in st.heap)
        if not any(hit(st.heap[a]) for a in addrs) and info(v)[0].isdisjoint(m.keys):
            return v
        refs = {Ref(a): self.ip.alloc(st, st.heap[a]) for a in addrs if isinstance(st.heap[a], (Cont, Inst))}
        sub = Subst(dict(m.m), refs=refs)
        for r, n in refs.items():
            o = st.heap[r.addr]
            if isinstance(o, Cont):
                st.heap[n.addr] = Cont(o.kind, sub(o.segs), sub(o.extra) if o.extra is not None else None)
            else:
                st.heap[n.addr] = Inst(o.cls, {k: sub(x) for k, x in o.fields.items()}, o.extra)
        return sub(v)

    def list_get(self, st, x, kind, segs, k):
        ip = self.ip
        if isinstance(k, Const) and isinstance(k.v, int):
            i = k.v
            ones = [s for s in segs]
            if all(s[0] == "one" for s in segs):
                try:
                    v = segs[i][2]
                except IndexError:
                    return [ip.raise_(st, "IndexError", cause=self.cause_of(st, x, k))]
                if isinstance(v, Doc) and isinstance(x, Ref):
                    r = ip.cont(st, v.kind, v.segs) if v.kind in CONTAINERS else v
                    if r is not v:
                        o = st.heap[x.addr]
                        l = list(o.segs)
                        l[i] = ("one", None, r)
                        st.heap[x.addr] = Cont(o.kind, tuple(l), o.extra)
                        v = r
                return [(st, v)]
            # known items before the unknown part
            if i >= 0:
                pre = list(itertools.takewhile(lambda s: s[0] == "one", segs))
                if i < len(pre):
                    return [(st, pre[i][2])]
                i -= len(pre)
                segs = segs[len(pre):]
            else:
                post = list(itertools.takewhile(lambda s: s[0] == "one", reversed(segs)))
                if -i <= len(post):
                    return [(st, post[-i - 1][2])]
                i += len(post)
                segs = segs[: len(segs) - len(post)]
            if len(segs) == 1 and segs[0][0] in ("base", "star"):
                s0 = segs[0]
                src = s0[1]
                need = i + 1 if i >= 0 else -i
                if s0[0] == "base":
                    g = self.need_len(st, src, need)
                    def go(s):
                        s2, a, v = self.at_sym(s, src, const(i), None)
                        return [(s2, v)] if s2 is not None else []
                    return self.seq(g, go)
                if len(s0[2]) >= 1 and all(len(sub) == 1 and sub[0][0] == "one" for _, sub in s0[2]):
                    g = self.need_len(st, src, need)

                    def go(s):
                        res = []
                        for f, sub in s0[2]:
                            s2, a, v = self.at_sym(s, src, const(i), sub[0][2])
                            if s2 is None:
                                continue
                            m = Subst({sym("elem", src): a, sym("key", src): sym("atkey", src, const(i)), sym("val", src): sym("atval", src, const(i))})
                            v = sub[0][2]
                            s3 = assume_all(s2, frozenset((m(x), p) for x, p in f))
                            if s3 is None:
                                continue
                            if info(v)[1]:
                                if s3 is s:
                                    s3 = s3.fork()
                                v = self.inst_value(s3, v, m)
                            else:
                                v = m(v)
                            if isinstance(v, Doc):
                                if s3 is s:
                                    s3 = s.fork()
                                v = ip.cont(s3, v.kind, v.segs) if v.kind in CONTAINERS else v
                            res.append((s3, v))
                        return res

                    return self.seq(g, go)
                # some element of it that is not skipped
                res = []
                for s, b in self.seg_truth(st, kind, s0):
                    if not b:
                        res.append(ip.raise_(s, "IndexError", cause=self.cause_of(s, x, k)))
                        continue
                    a = sym("pick", Doc("list", self.freeze_segs(s, (s0,))), const(i))
                    for f, sub in s0[2]:
                        if not sub:
                            continue
                        w = sym("at", src, a, typ=self.elem_of(src, "list").typ)
                        m = Subst({sym("elem", src): w, sym("key", src): sym("atkey", src, a), sym("val", src): sym("atval", src, a)})
                        s2, w2, _ = self.at_sym(s, src, a, None)
                        if s2 is None:
                            continue
                        s2 = assume_all(s2, frozenset((m(x), p) for x, p in f))
                        if s2 is None:
                            continue
                        for y in sub:
                            if y[0] == "one":
                                s3 = s2.fork()
                                res.append((s3, self.inst_value(s3, y[2], m)))
                                break
                return res
            if any(s[0] == "alt" for s in segs):
                res = []
                j = next(n for n, s in enumerate(segs) if s[0] == "alt")
                for f, sub in segs[j][1]:
                    t = assume_all(st, f)
                    if t is None:
                        continue
                    if t is st:
                        t = st.fork()
                    res.extend(self.list_get(t, x, kind, tuple(segs[:j]) + tuple(sub) + tuple(segs[j + 1:]), const(i)))
                return res
            if len(segs) == 1 and segs[0][0] == "perm":
                d = Doc("list", self.freeze_segs(st, segs))
                res = []
                for s, b in self.cont_truth(st, "list", segs[0][2]):
                    if b:
                        res.append((s, sym("at", d, k, typ=self._items_typ(segs))))
                    else:
                        res.append(ip.raise_(s, "IndexError", cause=self.cause_of(s, x, k)))
                return res
        # an index that runs over the same collection
        if isinstance(k, Sym) and k.op in ("idx", "witidx") and len(segs) == 1:
            s0 = segs[0]
            src = s0[1] if len(s0) > 1 else None
            if src is k.args[0]:
                if s0[0] == "base":
                    return [(st, self.elem_of(src, "list"))]
                if s0[0] == "star" and len(s0[2]) == 1 and len(s0[2][0][1]) == 1:
                    return [(st, s0[2][0][1][0][2])]
        kv = self.freeze(st, k)
        d = Doc(kind, self.freeze_segs(st, tuple(segs)))
        base = len(segs) == 1 and segs[0][0] == "base"
        v = sym("at", segs[0][1], kv, typ=self.elem_of(segs[0][1], "list").typ) if base else sym("at", d, kv, typ=self._items_typ(segs))
        a = sym("hasidx", d, kv, typ="bool")
        return [(st, v), ip.raise_(st.fork(), "IndexError", cause=self.cause_of(st, x, k))]

    def need_len(self, st, src, need):
        if not isinstance(src, Sym):
            return [(st, None)]
        if need == 1:
            return self.guard(st, truthy(src), True, "IndexError", (src,))
        return self.guard(st, sym("lt", sym("len", src, typ="int"), const(need), typ="bool"), False, "IndexError", (src,))

    def from_end(self, x, i):
        """x[: len(x) - 1] is x[:-1] for every x (and x[: len(x) - 2] is x[:-2])."""
        v, k = base_off(i) if isinstance(i, Sym) else (None, 0)
        if isinstance(v, Sym) and v.op == "len" and v.args[0] is x and isinstance(k, int) and k in (-1, -2):
            return const(k)
        return i

    def getslice(self, st, x, a, b, c):
        ip = self.ip
        if isinstance(x, Const):
            if isinstance(x.v, str) and all(isinstance(v, Const) for v in (a, b, c)):
                return [(st, const(x.v[a.v:b.v:c.v]))]
            if x.v is None:
                return [ip.raise_(st, "TypeError", cause=("none",))]
        if istext(x) or isinstance(x, Sym):
            a, b = self.from_end(x, a), self.from_end(x, b)
        if istext(x):
            def txt(s):
                if c == NONE and b == NONE and (a == NONE or a == const(0)):
                    return [(s, x)]
                return [(s, sym("slice", x, a, b, c, typ="str"))]
            return self.seq(self.notnone(st, x, "TypeError"), txt)
        kind, segs = self.view(st, x)
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        if isinstance(x, Tup) and all(isinstance(v, Const) for v in (a, b, c)):
            return [(st, Tup(x.items[a.v:b.v:c.v]))]
        if all(s[0] == "one" for s in segs) and all(isinstance(v, Const) for v in (a, b, c)):
            return [(st, ip.cont(st, kind, segs[a.v:b.v:c.v]))]
        if b == NONE and c == NONE and (a == NONE or a == const(0)):
            return [(st, ip.cont(st, kind, segs))]
        if a == NONE and b == NONE and c == const(-1):
            return [(st, ip.cont(st, kind, (("perm", "reversed", tuple(segs)),)))]
        out = []
        tag = ("slice", a, b, c)
        for s in segs:
            if s[0] == "base":
                e = self.elem_of(s[1], kind)
                out.append(("star", s[1], ((frozenset(), (("one", None, e),)),), tag))
            elif s[0] == "star":
                out.append(("star", s[1], s[2], tag))
            else:
                out.append(("alt", ((frozenset(), (s,)), (frozenset([(sym("sliced", tag, typ="bool"), True)]), ()))) if s[0] == "one" else s)
        return [(st, ip.cont(st, kind, out))]

    # --------------------------------------------------------------- setitem
    def mark_global(self, st, x):
        if isinstance(x, Ref) and x.addr <= self.ip.gmark and self.ip.phase == "run":
            self.ip.glob_mut.setdefault(("h", x.addr), self.ip.where())

    def put(self, st, x, k, v):
        self.mark_global(st, x)
        o = st.heap[x.addr]
        segs = list(o.segs)
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s[0] in ("one", "upd", "kid"):
                if s[1] == k:
                    segs[i] = ("one" if s[0] == "one" else "upd", k, v)
                    st.heap[x.addr] = Cont(o.kind, tuple(segs), o.extra)
                    return
                e = eq_atom(s[1], k)
                r = e if isinstance(e, bool) else quick(st.facts, e)
                if r is False:
                    continue
                break
            break
        how = "one"
        for s in segs:
            if s[0] == "base":
                if isinstance(k, Sym) and k.op in ("key", "witkey") and k.args[0] is s[1]:
                    how = "upd"
                elif quick(st.facts, sym("has", s[1], k, typ="bool")):
                    how = "upd"
            elif s[0] in ("prev", "star"):
                if quick(st.facts, sym("has", Doc("dict", self.freeze_segs(st, o.segs)), k, typ="bool")):
                    how = "upd"
        segs.append((how, k, v))
        st.heap[x.addr] = Cont(o.kind, tuple(segs), o.extra)

    def setitem(self, st, x, k, v):
        if isinstance(k, Phi):
            res = []
            for s, kk in self.ip.resolve(st, k):
                res.extend(self.setitem(s, x, kk, v))
            return res
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Cont):
                if o.kind == "dict":
                    self.put(st, x, self.freeze(st, k), v)
                    return [(st, NONE)]
                if o.kind == "list":
                    self.mark_global(st, x)
                    if isinstance(k, Const) and isinstance(k.v, int) and all(s[0] == "one" for s in o.segs):
                        l = list(o.segs)
                        try:
                            l[k.v] = ("one", None, v)
                        except IndexError:
                            return [self.ip.raise_(st, "IndexError")]
                        st.heap[x.addr] = Cont(o.kind, tuple(l), o.extra)
                        return [(st, NONE)]
                    st.heap[x.addr] = Cont(o.kind, o.segs + (("unkset", self.freeze(st, k), self.freeze(st, v)),), o.extra)
                    self.ip.unk("list item assignment")
                    return [(st, NONE)]
            if isinstance(o, Inst):
                m = o.cls.lookup("__setitem__")
                if m is not None:
                    return self.ip.call(st, Bound(x, m), [k, v], {})
                return [self.ip.raise_(st, "TypeError")]
        if isinstance(x, Const):
            return [self.ip.raise_(st, "TypeError")]
        if isinstance(x, Sym):
            st.effect("setitem", x, self.freeze(st, k), self.freeze(st, v), self.ip.where())
            self.touched(st, x)
            return [(st, NONE)]
        if isinstance(x, LibV):
            return [(st, NONE)]
        self.ip.unk("item assignment")
        return [(st, NONE)]

    def touched(self, st, x):
        """A part of some container was changed in place: what the container holds now is not followed."""
        if not isinstance(x, Sym) or x.op not in ("at", "val", "elem", "witval", "wit", "pick") or not x.args:
            return
        h = x.args[0]
        for a, o in list(st.heap.items()):
            if isinstance(o, Cont) and (("base", h) in o.segs or isinstance(h, Doc) and h.segs and o.segs[:len(h.segs)] == h.segs or isinstance(h, Doc) and self.freeze_segs(st, o.segs) == h.segs):
                u = self.ip.unk("change of an object in a container", x)
                st.heap[a] = Cont(o.kind, o.segs + (("upd", u, u) if o.kind == "dict" else ("one", u, None) if o.kind == "set" else ("one", None, u),), o.extra)
        self.touched(st, h)

    def delitem(self, st, x, k):
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Cont) and o.kind == "dict":
                return [(s, r if isinstance(r, Raise) else NONE) for s, r in self.dict_pop(st, x, k, None)]
            if isinstance(o, Cont) and all(s[0] == "one" for s in o.segs) and isinstance(k, Const):
                l = list(o.segs)
                del l[k.v]
                self.mark_global(st, x)
                st.heap[x.addr] = Cont(o.kind, tuple(l), o.extra)
                return [(st, NONE)]
        self.ip.unk("del item")
        return [(st, NONE)]

    def dict_pop(self, st, x, k, default):
        k = self.freeze(st, k)

        def missing(s):
            return [(s, default)] if default is not None else [self.ip.raise_(s, "KeyError", cause=self.cause_of(s, x, k))]

        o = st.heap[x.addr]
        res = []
        for s, v in self.dict_get(st, x, o.segs, k, lambda s: [(s, sym("missing"))]):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            if isinstance(v, Sym) and v.op == "missing":
                res.extend(missing(s))
                continue
            self.mark_global(s, x)
            o2 = s.heap[x.addr]
            segs = [e for e in o2.segs if not (e[0] in ("one", "upd", "kid") and e[1] == k)]
            if any(e[0] not in ("one", "kid", "upd") for e in segs):
                segs.append(("del", k))
            s.heap[x.addr] = Cont(o2.kind, tuple(segs), o2.extra)
            res.append((s, v))
        return res

    # ---------------------------------------------------------------- unpack
    def unpack(self, st, v, n, star):
        ip = self.ip
        if isinstance(v, Tup) or isinstance(v, (Ref, Doc)):
            kind, segs = self.iter_view(st, v)
            if segs is not None and all(s[0] == "one" for s in segs):
                items = [s[1] if kind in ("dict", "set") else s[2] for s in segs]
                if star is None:
                    if len(items) != n:
                        return [ip.raise_(st, "ValueError")]
                    return [(st, items)]
                if len(items) < n - 1:
                    return [ip.raise_(st, "ValueError")]
                k = len(items) - (n - 1)
                return [(st, items[:star] + [ip.new_list(st, items[star:star + k])] + items[star + k:])]
            if segs is not None and star is None and len(segs) == 1 and segs[0][0] == "star" and n == 1:
                src = segs[0][1]
                a = sym("lt", const(1), sym("len", src, typ="int"), typ="bool")
                g = self.guard(st, a, False, "ValueError", (src,))
                return self.seq(g, lambda s: [(t, r if isinstance(r, Raise) else [r]) for t, r in self.list_get(s, v, kind, segs, const(0))])
            if segs is not None and kind == "list" and len(segs) == 1 and segs[0][0] in ("base", "star"):
                return self.unpack_some(st, v, segs[0], n, star)
        if isinstance(v, Sym):
            if v.typ == "any" or v.typ in CONTAINERS or v.typ == "str":
                if star is None:
                    return [(st, [sym("at", v, const(i)) for i in range(n)])] + (
                        [] if v.op in ("unk",) else [ip.raise_(st.fork(), "ValueError", cause=(v,))]
                    )
        if isinstance(v, Const):
            if isinstance(v.v, str) and star is None and len(v.v) == n:
                return [(st, [const(c) for c in v.v])]
            return [ip.raise_(st, "TypeError")]
        u = ip.unk("unpacking", v)
        return [(st, [sym("at", u, const(i)) for i in range(n)])]

    def unpack_some(self, st, v, seg, n, star):
        """Parts of a list of which the length is not known."""
        ip = self.ip
        if star is None:
            whole = seg[0] == "base" or len(seg[2]) == 1 and len(next(iter(seg[2]))[1]) == 1 and not (isinstance(seg[3], tuple) and seg[3])
            if not whole or not isinstance(seg[1], Sym):
                u = ip.unk("unpacking", v)
                return [(st, [sym("at", u, const(i)) for i in range(n)])]
            g = self.guard(st, sym("eq", sym("len", seg[1], typ="int"), const(n), typ="bool"), True, "ValueError", (seg[1],))
            places = [const(i) for i in range(n)]
        else:
            g = [(st, None)]
            places = [const(i) for i in range(star)] + [None] + [const(i - n) for i in range(star + 1, n)]
        out = []
        for s, r in g:
            if isinstance(r, Raise):
                out.append((s, r))
                continue
            todo = [(s, [])]
            for k in places:
                nxt = []
                for s2, items in todo:
                    if k is None:
                        e = NONE if star == n - 1 else const(star + 1 - n)
                        got = self.getslice(s2, v, const(star) if star else NONE, e, NONE)
                    else:
                        got = self.getitem(s2, v, k)
                    for s3, x in got:
                        if not isinstance(x, Raise):
                            nxt.append((s3, items + [x]))
                        elif star is not None:
                            out.append(ip.raise_(s3, "ValueError", cause=x.cause))
                todo = nxt
            out.extend(todo)
        return out

    def spread(self, st, v):
        res = []
        for s, x in self.ip.resolve(st, v):
            kind, segs = self.iter_view(s, x)
            if segs is not None and all(t[0] == "one" for t in segs):
                res.append((s, [t[1] if kind in ("dict", "set") else t[2] for t in segs]))
            elif segs is not None and len(segs) == 1 and segs[0][0] in ("star", "base"):
                # a generator is used up by looking at it
                res.append((s, [Bound(self.ip.cont(s, kind if kind == "set" else "list", segs if kind in ("set", "list") else self.as_list_segs(kind, segs)), "*spread")]))
            else:
                res.append((s, [self.ip.unk("spread arguments", x)]))
        return res

    def spread_kw(self, st, v):
        res = []
        for s, x in self.ip.resolve(st, v):
            kind, segs = self.view(s, x)
            if kind == "dict" and all(t[0] in ("one", "kid") and isinstance(t[1], Const) for t in segs):
                res.append((s, {t[1].v: t[2] for t in segs}))
            elif isinstance(x, Const):
                res.append(self.ip.raise_(s, "TypeError"))
            else:
                res.append((s, {"**": x}))
        return res

    # ----------------------------------------------------------------- binop
    def inplace(self, st, op, o, v):
        c = self._cont(st, o)
        if not isinstance(o, Ref) or c is None:
            return None
        n = type(op).__name__
        if c.kind == "list" and n == "Add":
            return [(s, o if not isinstance(r, Raise) else r) for s, r in self.method(st, o, "extend", [v], {}, None)]
        if c.kind == "set" and n == "BitOr":
            return [(s, o if not isinstance(r, Raise) else r) for s, r in self.method(st, o, "update", [v], {}, None)]
        if c.kind == "dict" and n == "BitOr":
            return [(s, o if not isinstance(r, Raise) else r) for s, r in self.method(st, o, "update", [v], {}, None)]
        if c.kind == "set" and n in ("Sub", "BitAnd", "BitXor"):
            nm = {"Sub": "difference_update", "BitAnd": "intersection_update", "BitXor": "symmetric_difference_update"}[n]
            return [(s, o if not isinstance(r, Raise) else r) for s, r in self.method(st, o, nm, [v], {}, None)]
        return None

    def binop(self, st, op, a, b):
        ip = self.ip
        if isinstance(a, Phi) or isinstance(b, Phi):
            res = []
            for s, x in ip.resolve(st, a):
                for s2, y in ip.resolve(s, b):
                    res.extend(self.binop(s2, op, x, y))
            return res
        n = type(op).__name__
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                f = {
                    "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y,
                    "Mod": lambda x, y: x % y, "FloorDiv": lambda x, y: x // y, "Div": lambda x, y: x / y,
                    "BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y, "Pow": lambda x, y: x ** y if abs(y) < 64 else 0,
                    "BitXor": lambda x, y: x ^ y, "LShift": lambda x, y: x << y if y < 64 else 0, "RShift": lambda x, y: x >> y,
                }[n]
                return [(st, const(f(a.v, b.v)))]
            except Exception as e:
                nm = type(e).__name__
                return [ip.raise_(st, nm if nm in BUILTIN_EXC else "TypeError")]
        if n == "Div" and (isinstance(a, Sym) and a.typ == "path" or isinstance(b, Sym) and b.typ == "path"):
            if isinstance(a, Sym) and a.typ == "path":
                return [(st, join_path(a, b))]
            return [(st, join_path(mk_path(a), b))]
        if n == "Add":
            if istext(a) or istext(b):
                bad = [x for x in (a, b) if not istext(x) and not (isinstance(x, Sym) and x.typ in ("any", "content"))]
                if bad:
                    return [ip.raise_(st, "TypeError")]
                g = self.notnone(st, a, "TypeError") if isinstance(a, Sym) else [(st, None)]
                return self.seq(g, lambda s: self.seq(
                    self.notnone(s, b, "TypeError") if isinstance(b, Sym) else [(s, None)],
                    lambda t: [(t, fstr([a, b]))]))
            ka, kb = self._cont(st, a), self._cont(st, b)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            ta, tb = self.kind(st, a), self.kind(st, b)
            if ta in ("list", "tuple") and tb in ("list", "tuple"):
                if ta != tb:
                    return [ip.raise_(st, "TypeError")]
                _, sa = self.view(st, a)
                _, sb = self.view(st, b)
                return [(st, ip.cont(st, ta, tuple(sa) + tuple(sb)))]
            if isinstance(a, Const) and isinstance(a.v, int) and isinstance(b, Sym):
                a, b = b, a
            if isinstance(a, Sym) and isinstance(b, Const) and isinstance(b.v, int):
                return [(st, add_int(a, b.v))]
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a.op == "ccount" and b.op == "ccount" and a.args[0] is b.args[0] and not (a.args[1] & b.args[1]):
                    return [(st, sym("ccount", a.args[0], a.args[1] | b.args[1], typ="int"))]
                ba, oa = base_off(a)
                bb, ob = base_off(b)
                if isinstance(ba, Sym) and isinstance(bb, Sym):
                    x, y = sorted((ba, bb), key=okey)
                    return [(st, add_int(sym("add", x, y, typ="int" if a.typ == b.typ == "int" else "any"), (oa or 0) + (ob or 0)))]
            if isinstance(a, Const) or isinstance(b, Const) or ta in CONTAINERS or tb in CONTAINERS:
                return [ip.raise_(st, "TypeError")]
        if n == "Sub" and isinstance(a, Sym) and isinstance(b, Const) and isinstance(b.v, int):
            return [(st, add_int(a, -b.v))]
        if n == "Sub" and isinstance(a, Sym) and isinstance(b, Sym):
            ba, oa = base_off(a)
            bb, ob = base_off(b)
            if ba is bb and isinstance(ba, Sym) and a.typ == "int":
                return [(st, const((oa or 0) - (ob or 0)))]
        ta, tb = self.kind(st, a), self.kind(st, b)
        if n in ("BitOr", "BitAnd", "Sub", "BitXor") and ta == "set":
            nm = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}[n]
            return self.method(st, a, nm, [b], {}, None)
        if n == "BitOr" and ta == "dict" and tb == "dict":
            r = ip.cont(st, "dict", self.view(st, a)[1])
            return [(s, r if not isinstance(v, Raise) else v) for s, v in self.method(st, r, "update", [b], {}, None)]
        if n == "BitOr" and (isinstance(a, (LibV, ClassV)) or isinstance(b, (LibV, ClassV))):
            return [(st, Tup((a, b)))]
        if n == "Mod" and isinstance(a, Const) and isinstance(a.v, str):
            t = self.percent(st, a.v, b)
            if t is not None:
                return [(st, t)]
        if n == "Mod" and istext(a):
            return [(st, sym("format", a, self.freeze(st, b), typ="str"))]
        if n == "Mult" and (istext(a) or istext(b)):
            return [(st, sym("repeat", a, b, typ="str"))]
        if n == "Mult" and (ta in ("list", "tuple") or tb in ("list", "tuple")):
            c, k = (a, b) if ta in ("list", "tuple") else (b, a)
            if isinstance(k, Const) and isinstance(k.v, int) and k.v < 64:
                kd, sg = self.view(st, c)
                return [(st, ip.cont(st, kd, tuple(sg) * k.v))]
        if isinstance(a, (Const, Sym)) and isinstance(b, (Const, Sym)):
            for x in (a, b):
                if isinstance(x, Const) and x.v is None:
                    return [ip.raise_(st, "TypeError", cause=("none",))]
            typ = "int" if ta == tb == "int" and n != "Div" else "any"
            if n == "BitAnd" and typ == "int":
                if isinstance(a, Const):
                    a, b = b, a
                if b == const(1):
                    n, b = "Mod", const(2)
            return [(st, sym("op" + n, a, b, typ=typ))]
        return [(st, ip.unk("operator " + n, a, b))]

    # ----------------------------------------------------------- type checks
    def isinstance_(self, st, v, c):
        if isinstance(v, Phi):
            res = []
            for s, x in self.ip.resolve(st, v):
                res.extend(self.isinstance_(s, x, c))
            return res
        cs = list(c.items) if isinstance(c, Tup) else [c]
        maybe = []
        for t in cs:
            r = self._isinst(st, v, t)
            if r is True:
                return [(st, TRUE)]
            if r is None:
                maybe.append(t)
        if not maybe:
            return [(st, FALSE)]
        return [(st, self.atom(st, sym("isinst", v, Tup(maybe), typ="bool")))]

    def _isinst(self, st, v, t):
        if isinstance(t, Tup):
            rs = [self._isinst(st, v, x) for x in t.items]
            return True if True in rs else None if None in rs else False
        if isinstance(t, Const):
            return isinstance(v, Const) and v.v is None if t.v is None else None
        name = t.name if isinstance(t, LibV) else None
        if isinstance(v, Const):
            if name in ("str", "int", "float", "bool", "bytes"):
                return isinstance(v.v, getattr(builtins, name))
            return False
        if isinstance(v, EnumV):
            return isinstance(t, ClassV) and v.cls.is_sub(t)
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst) and isinstance(t, ClassV):
                return o.cls.is_sub(t)
            if isinstance(o, Cont):
                return name == o.kind if name in CONTAINERS else False if isinstance(t, ClassV) or name in ("str", "int", "float", "bool", "bytes") else None
            return None
        if isinstance(v, Doc):
            return name == v.kind if name in CONTAINERS else False
        if isinstance(v, Tup):
            return name == "tuple"
        if isinstance(v, Sym):
            ty = v.typ
            if ty in ("str", "int", "float", "bool", "list", "dict", "set", "tuple", "path"):
                if name is None:
                    return False
                base = name.split(".")[-1]
                if base == ty or ty == "bool" and base == "int" or ty == "path" and base in ("Path", "PurePath", "PathLike"):
                    return True
                if base in ("str", "int", "float", "bool", "list", "dict", "set", "tuple", "Path", "bytes", "complex", "frozenset"):
                    return False
                return None
            if ty == "ostr":
                n = quick(st.facts, isnone(v))
                if name == "str":
                    return None if n is None else not n
                return False
            if ty == "none":
                return False
        return None

    def super_(self, st, fid):
        f = fid
        while f is not None and self.ip.finfo[f][3] == "comp":
            f = self.ip.finfo[f][0]
        q = self.ip.stack[-1][1] if self.ip.stack else None
        fn = self.by_qual.get(q)
        if fn is None or fn.cls is None:
            return self.ip.unk("super()")
        a = fn.node.args.args
        return SuperV(st.frames[f].get(a[0].arg), fn.cls)

    # ----------------------------------------------------------------- names
    def builtin(self, name):
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if name == "object":
            return OBJECT
        if name in ("__name__",):
            return None
        if hasattr(builtins, name):
            return lib(name)
        return None

    SPECIAL = {
        "json.JSONDecodeError": lambda: BUILTIN_EXC["JSONDecodeError"],
        "json.decoder.JSONDecodeError": lambda: BUILTIN_EXC["JSONDecodeError"],
        "pydantic.ValidationError": lambda: BUILTIN_EXC["ValidationError"],
        "pydantic.error_wrappers.ValidationError": lambda: BUILTIN_EXC["ValidationError"],
        "re.error": lambda: BUILTIN_EXC["re.error"],
        "pydantic.BaseModel": lambda: BASEMODEL,
        "enum.Enum": lambda: ENUM,
        "typing.NamedTuple": lambda: NAMEDTUPLE,
        "os.sep": lambda: const("/"),
        "os.linesep": lambda: const("\n"),
        "os.path.sep": lambda: const("/"),
        "os.extsep": lambda: const("."),
        "typing.TYPE_CHECKING": lambda: FALSE,
        "abc.ABC": lambda: OBJECT,
    }

    def from_import(self, mod, name):
        full = mod + "." + name
        f = self.SPECIAL.get(full)
        if f is not None:
            return f()
        if mod == "re" and name in RE_FLAGS:
            return const(RE_FLAGS[name])
        if mod == "re.RegexFlag" and name in RE_FLAGS:
            return const(RE_FLAGS[name])
        if mod == "string":
            v = getattr(string, name, None)
            if isinstance(v, str):
                return const(v)
        if mod == "os" and name in ("error",):
            return BUILTIN_EXC["OSError"]
        return lib(full)

    def as_class(self, b):
        if isinstance(b, ClassV):
            return b
        if isinstance(b, LibV):
            if b.name.startswith("typing.Generic") or b.name in ("str", "int", "abc.ABC"):
                c = ClassV(b.name, "lib", [])
                return c
        c = ClassV(getattr(b, "name", "?"), "lib", [])
        return c

    def as_exc_class(self, t):
        return t

    def decorate(self, st, deco, fn, node):
        if isinstance(deco, LibV):
            n = deco.name
            if n in ("property", "staticmethod", "classmethod", "functools.cached_property", "abc.abstractproperty"):
                return Partial(lib(n), (fn,), ())
            if n in ("functools.lru_cache", "functools.cache"):
                if isinstance(fn, Func):
                    self.ip.cached_fns.add(fn)
                return fn
            if n.startswith("property."):
                return fn
            if n in ("pydantic.root_validator", "pydantic.validator"):
                return Partial(lib(n), (fn,), ())
            if n == "contextlib.contextmanager":
                return Partial(lib(n), (fn,), ())
            return fn
        if isinstance(deco, Partial) and isinstance(deco.fn, LibV):
            n = deco.fn.name
            if n in ("pydantic.root_validator", "pydantic.validator"):
                return Partial(deco.fn, (fn,) + deco.args, deco.kwargs)
            if n in ("functools.lru_cache", "functools.cache"):
                if isinstance(fn, Func):
                    self.ip.cached_fns.add(fn)
                return fn
            if n == "functools.wraps":
                return fn
        if isinstance(deco, (Func, Bound)):
            outs = [(s, v) for s, v in self.ip.call(st, deco, [fn], {}) if not isinstance(v, Raise)]
            if len(outs) == 1:
                s, v = outs[0]
                for a in State.__slots__:
                    setattr(st, a, getattr(s, a))
                return v
            self.ip.unk("decorator")
        return fn

    # ------------------------------------------------------------- with
    def with_(self, st, x, inner):
        ip = self.ip
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, FH):
                res = []
                for s, sig in inner(st, x):
                    f = s.heap.get(x.addr)
                    if isinstance(f, FH):
                        s.heap[x.addr] = FH(f.path, f.mode, f.pos, True)
                    res.append((s, sig))
                return res
            if isinstance(o, Inst):
                en, ex = o.cls.lookup("__enter__"), o.cls.lookup("__exit__")
                if en is not None and ex is not None:
                    res = []
                    for s, v in ip.call(st, Bound(x, en), [], {}):
                        if isinstance(v, Raise):
                            res.append((s, v))
                            continue
                        for s2, sig in inner(s, v):
                            for s3, r in ip.call(s2, Bound(x, ex), [NONE if not isinstance(sig, Raise) else sym("exctype"), NONE if not isinstance(sig, Raise) else sig.exc, NONE], {}):
                                if isinstance(r, Raise):
                                    res.append((s3, r))
                                elif isinstance(sig, Raise):
                                    for s4, b in ip.branch(s3, r):
                                        res.append((s4, NEXT if b else sig))
                                else:
                                    res.append((s3, sig))
                    return res
        if isinstance(x, Partial) and isinstance(x.fn, LibV):
            if x.fn.name == "contextlib.suppress":
                res = []
                for s, sig in inner(st, NONE):
                    if isinstance(sig, Raise):
                        m = ip.match_handler(s, sig, [self.as_exc_class(t) for t in x.args])
                        if m is True:
                            res.append((s, NEXT))
                            continue
                        if m is None:
                            res.append((s.fork(), NEXT))
                    res.append((s, sig))
                return res
            if x.fn.name == "ctxgen":
                return self.with_gen(st, x, inner)
        return inner(st, x)

    def with_gen(self, st, x, inner):
        """A context manager written as a generator."""
        ip = self.ip
        fn, args, kw = x.args[0], list(x.args[1:]), dict(x.kwargs)

        def hook(s, v, f):
            res = []
            for s2, sig in inner(s, v):
                if isinstance(sig, Raise):
                    res.append((s2, sig))
                elif isinstance(sig, str) and sig == NEXT:
                    res.append((s2, NONE))
                else:
                    s2.pending = sig
                    res.append((s2, NONE))
            return res

        ip.yieldhook.append(hook)
        try:
            g = Func(fn.node, fn.mod, fn.fid, fn.name, fn.cls, fn.defaults, fn.kwdefaults, fn.qual, False)
            outs = ip.call_plain(st, g, args, kw)
        finally:
            ip.yieldhook.pop()
        res = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
            elif s.pending is not None:
                sig = s.pending
                s = s.fork()
                s.pending = None
                res.append((s, sig))
            else:
                res.append((s, NEXT))
        return res

    # ----------------------------------------------------------------- texts
    def to_str(self, st, v):
        if isinstance(v, Phi):
            return sym("str", self.freeze(st, v), typ="str")
        if isinstance(v, Const):
            return v if isinstance(v.v, str) else const(str(v.v))
        if isinstance(v, Sym):
            if v.typ == "str":
                return v
            if v.typ == "path":
                return sym("pathstr", v, typ="str")
            return sym("str", v, typ="str")
        return sym("str", self.freeze(st, v), typ="str")

    # ----------------------------------------------------------------- files
    def inherit_role(self, h, path):
        for c, r in list(self.ip.json_roles.items()):
            if isinstance(c, Sym) and c.op == "content" and c.args[0] is path:
                self.ip.json_roles[h] = r

    def content(self, st, p):
        c = st.files.get(p)
        if c is None:
            c = (CLEAN, sym("content", p, typ="str"))
        return c

    def pathof(self, st, v):
        if isinstance(v, Ref):
            return None
        if isinstance(v, Sym) and v.typ == "path":
            return v
        if isinstance(v, (Const, Sym)) and (istext(v) or isinstance(v, Sym)):
            return mk_path(v)
        return None

    def exists_guard(self, st, p, exc="FileNotFoundError"):
        for op in ("isfile", "pexists"):
            if quick(st.facts, sym(op, p, typ="bool")):
                return [(st, None)]
        if p in st.files and st.files[p][0] != "absent":
            return [(st, None)]
        return self.guard(st, sym("isfile", p, typ="bool"), True, exc, ("file", p))

    def open_(self, st, pv, mode):
        ip = self.ip
        p = self.pathof(st, pv)
        if p is None:
            return [ip.raise_(st, "TypeError", cause=("none",))]
        if isinstance(pv, Const) and not isinstance(pv.v, str):
            return [ip.raise_(st, "TypeError", cause=("none",))]
        m = mode.v if isinstance(mode, Const) else None
        if m is None:
            ip.unk("open mode")
            m = "r+"
        m = m.replace("b", "").replace("t", "")

        def opened(s):
            s.effect("open", p, m, ip.where())
            if m[0] == "w":
                s.files[p] = (CLEAN, const(""))
                s.effect("trunc", p, ip.where())
                s.facts[sym("isfile", p, typ="bool")] = True
                pos = ("start",)
            elif m[0] == "a":
                pos = ("append",)
                s.facts[sym("isfile", p, typ="bool")] = True
            elif m[0] == "x":
                s.files[p] = (CLEAN, const(""))
                s.facts[sym("isfile", p, typ="bool")] = True
                pos = ("start",)
            else:
                pos = ("start",)
            return [(s, ip.alloc(s, FH(p, m, pos)))]

        if m[0] == "r":
            return self.seq(self.exists_guard(st, p), lambda s: opened(s.fork()))
        if m[0] == "x":
            return self.seq(self.guard(st, sym("isfile", p, typ="bool"), False, "FileExistsError", ("file", p)), lambda s: opened(s.fork()))
        return opened(st.fork())

    def norm_pos(self, pos):
        if pos[0] == "len" and pos[1] == const(""):
            return ("start",)
        return pos

    def read_text(self, st, ref, o):
        """What is read from the handle; moves the position."""
        c = self.content(st, o.path)
        if o.pos == ("start",) and c[0] == CLEAN:
            t = c[1]
        elif o.pos[0] in ("len", "append") and c[0] == CLEAN:
            t = const("")
        elif c[0] == CLEAN:
            t = sym("rest", c[1], str(o.pos), typ="str")
        else:
            t = sym("mixed", *[x for x in c if isinstance(x, Val)], typ="str")
        st.effect("read", o.path, c, self.ip.where())
        st.heap[ref.addr] = FH(o.path, o.mode, ("len", c[1]) if c[0] == CLEAN else ("unk",), o.closed)
        return t

    def write_text(self, st, ref, o, text):
        c = self.content(st, o.path)
        pos = self.norm_pos(o.pos)
        if o.mode[0] == "r" and "+" not in o.mode:
            return False
        if c[0] == CLEAN and c[1] == const("") and pos in (("start",), ("append",)):
            new, np = (CLEAN, text), ("len", text)
        elif c[0] == CLEAN and (pos == ("len", c[1]) or pos[0] == "append"):
            t = fstr([c[1], text])
            new, np = (CLEAN, t), ("len", t) if pos[0] != "append" else pos
        elif pos == ("start",) and c[0] == CLEAN:
            new, np = ("over", text, c[1]), ("after", text)
        elif c[0] == "over" and pos == ("start",):
            new, np = ("over", text, sym("longer", c[1], c[2], typ="str")), ("after", text)
        elif c[0] == "over" and pos == ("after", c[1]):
            t = fstr([c[1], text])
            new, np = ("over", t, c[2]), ("after", t)
        else:
            new, np = ("junk", text, c), ("unk",)
        st.files[o.path] = new
        st.effect("write", o.path, text, new, self.ip.where())
        st.heap[ref.addr] = FH(o.path, o.mode, np, o.closed)
        return True

    def truncate(self, st, ref, o, size):
        c = self.content(st, o.path)
        pos = self.norm_pos(o.pos)
        if size is None:
            if c[0] == CLEAN and (pos == ("len", c[1]) or pos[0] == "append"):
                new = c
            elif pos == ("start",):
                new = (CLEAN, const(""))
            elif c[0] == "over" and pos == ("after", c[1]):
                new = (CLEAN, c[1])
                st.heap[ref.addr] = FH(o.path, o.mode, ("len", c[1]), o.closed)
            else:
                new = ("junk", const(""), c)
        elif size == const(0):
            new = (CLEAN, const(""))
            if pos[0] != "start":
                st.heap[ref.addr] = FH(o.path, o.mode, ("hole", pos), o.closed)
        else:
            new = ("junk", const(""), c)
        if new != c:
            st.effect("trunc", o.path, self.ip.where())
        st.files[o.path] = new

    def seek(self, st, ref, o, a, whence):
        if a == const(0) and (whence is None or whence == const(0)):
            pos = ("start",)
        elif a == const(0) and whence == const(2):
            c = self.content(st, o.path)
            pos = ("len", c[1]) if c[0] == CLEAN else ("unk",)
        else:
            pos = ("unk",)
        st.heap[ref.addr] = FH(o.path, o.mode, pos, o.closed)

    # ------------------------------------------------------------------ json
    def plain_by_facts(self, st, v):
        for a, p in st.facts.items():
            if not p:
                continue
            if a.op == "isnone" and a.args[0] is v:
                return True
            if a.op == "contains" and isinstance(a.args[1], Sym) and a.args[1].op == "typeof" and a.args[1].args[0] is v:
                c = a.args[0]
                names = [x.name for x in c.items if isinstance(x, LibV)] if isinstance(c, Tup) else []
                if isinstance(c, Tup) and len(names) == len(c.items) and set(names) <= {"int", "float", "bool", "str"}:
                    return True
            if a.op == "eq" and any(isinstance(x, Sym) and x.op == "typeof" and x.args[0] is v for x in a.args):
                if any(isinstance(x, LibV) and x.name in ("int", "float", "bool", "str") for x in a.args):
                    return True
            if a.op == "isinst" and a.args[0] is v and isinstance(a.args[1], Tup):
                if all(isinstance(x, LibV) and x.name in ("int", "float", "bool", "str") for x in a.args[1].items):
                    return True
        return False

    def ser(self, st, v):
        """Can the value be written as JSON? True / False / None (maybe)."""
        if isinstance(v, Const):
            return not isinstance(v.v, bytes)
        if isinstance(v, Sym):
            if v.typ in PLAIN:
                return True
            if v.typ in ("set", "path", "match", "date", "regex", "fh", "inst"):
                return False
            if self.is_json(v):
                return True
            if quick(st.facts, isnone(v)):
                return True
            if self.plain_by_facts(st, v):
                return True
            if v.op == "leval" or v.typ == "list":
                return self.ser_elems(st, v)
            if v.op in ("head", "out", "mid", "stale"):
                return None
            return None
        if isinstance(v, Phi):
            rs = set()
            for f, x in v.alts:
                s = assume_all(st, f)
                if s is not None:
                    rs.add(self.ser(s, x))
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, Tup):
            return self._all([self.ser(st, x) for x in v.items])
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return self.ser_segs(st, o.kind, o.segs)
            return False
        if isinstance(v, Doc):
            if v.kind == "inst":
                return False
            return self.ser_segs(st, v.kind, v.segs)
        return False

    def _all(self, rs):
        return False if False in rs else None if None in rs else True

    def ser_elems(self, st, src):
        e = self.elem_of(src, "list")
        r = self.ser(st, e) if e.typ != "any" or self.is_json(e) else None
        if r is not None:
            return r
        for a, p in st.facts.items():
            if p and a.op == "forall" and a.args[0] is src:
                good = True
                for d in a.args[1]:
                    t = State()
                    t.facts = dict(d)
                    if not self.plain_by_facts(t, e):
                        good = False
                        break
                if good:
                    return True
        if quick(st.facts, truthy(src)) is False:
            return True
        return None

    def ser_segs(self, st, kind, segs):
        if kind in ("set", "iter"):
            return False
        rs = []
        for s in segs:
            if s[0] in ("one", "upd", "kid"):
                if kind == "dict":
                    k = s[1]
                    if isinstance(k, (Tup, Ref, Doc)):
                        rs.append(False)
                rs.append(self.ser(st, s[2]))
            elif s[0] == "base":
                if self.is_json(s[1]) or isinstance(s[1], Const):
                    rs.append(True)
                elif kind == "dict":
                    rs.append(self.ser(st, self.val_of(s[1])))
                else:
                    rs.append(self.ser_elems(st, s[1]))
            elif s[0] == "star":
                for f, sub in s[2]:
                    t = assume_all(st, f)
                    if t is None:
                        continue
                    r = self.ser_segs(t, "list" if kind != "dict" else kind, sub)
                    rs.append(None if r is False else r)
            elif s[0] == "alt":
                for f, sub in s[1]:
                    t = assume_all(st, f)
                    if t is None:
                        continue
                    r = self.ser_segs(t, "list" if kind != "dict" else kind, sub)
                    rs.append(None if r is False else r)
            elif s[0] == "perm":
                rs.append(self.ser_segs(st, "list", s[2]))
            elif s[0] == "del":
                continue
            else:
                rs.append(None)
        return self._all(rs)

    def jdoc(self, st, v, conv=None):
        """The document that json writes for the value."""
        v = self.freeze(st, v)
        return self._jdoc(v, conv)

    def _jkey(self, k):
        if isinstance(k, Const) and not isinstance(k.v, str):
            if k.v is None:
                return const("null")
            if isinstance(k.v, bool):
                return const("true" if k.v else "false")
            return const(str(k.v))
        if isinstance(k, Sym) and k.typ in ("int", "float"):
            return sym("str", k, typ="str")
        return k

    def _jdoc(self, v, conv):
        if isinstance(v, Tup):
            return Doc("list", [("one", None, self._jdoc(x, conv)) for x in v.items])
        if isinstance(v, Phi):
            return Phi((f, self._jdoc(x, conv)) for f, x in v.alts)
        if isinstance(v, Doc):
            if v.kind == "inst":
                return v
            kind = v.kind
            if kind == "tuple" or kind == "set" and conv:
                segs = self.as_list_segs(v.kind, v.segs)
                kind = "list"
            else:
                segs = v.segs
            return Doc(kind, self._jsegs(segs, kind, conv))
        return v

    def _jsegs(self, segs, kind, conv):
        out = []
        for s in segs:
            if s[0] in ("one", "upd", "kid"):
                c = self._jdoc(s[2], conv) if s[2] is not None else None
                if s[0] == "kid" and isinstance(c, Doc) and len(c.segs) == 1 and c.segs[0][0] == "base" and isinstance(c.segs[0][1], Sym) and c.segs[0][1].op in ("at", "val", "witval"):
                    # read but not changed
                    continue
                out.append((s[0], self._jkey(s[1]) if s[1] is not None else None, c))
            elif s[0] == "star":
                out.append(("star", s[1], tuple((f, self._jsegs(x, kind, conv)) for f, x in s[2])) + s[3:])
            elif s[0] == "alt":
                out.append(("alt", tuple((f, self._jsegs(x, kind, conv)) for f, x in s[1])))
            elif s[0] == "perm":
                out.append(("perm", s[1], self._jsegs(s[2], kind, conv)))
            else:
                out.append(s)
        return tuple(out)

    BENIGN = {"indent", "sort_keys", "ensure_ascii", "separators", "check_circular", "allow_nan"}

    def dumps(self, st, v, kw):
        """-> [(st, text or Raise)]"""
        conv = None
        d = kw.get("default")
        if isinstance(d, LibV) and d.name in ("list", "sorted", "tuple"):
            conv = d.name
        odd = tuple(sorted(k for k in kw if k not in self.BENIGN and not (k == "default" and conv)))
        if "skipkeys" in kw and kw["skipkeys"] == FALSE:
            odd = tuple(k for k in odd if k != "skipkeys")
        text = sym("jsonof", self.jdoc(st, v, conv), odd, typ="str")
        if conv or "default" in kw:
            r = self.ser(st, text.args[0])
            if "default" in kw and not conv:
                r = True if r else None
        else:
            r = self.ser(st, v)
        res = []
        if r is not False:
            res.append((st, text))
        if r is not True:
            s = st.fork()
            res.append(self.ip.raise_(s, "TypeError", "not JSON serializable", cause=(text,)))
        return res

    def loads(self, st, text, path=None):
        """-> [(st, value or Raise)]"""
        ip = self.ip
        if isinstance(text, Sym) and text.op == "jsonof" and not text.args[1]:
            d = text.args[0]
            if isinstance(d, Doc):
                return [(st, ip.cont(st, d.kind, d.segs))]
            return [(st, d)]
        if isinstance(text, Const):
            import json

            try:
                v = json.loads(text.v)
            except Exception:
                return [ip.raise_(st, "JSONDecodeError", cause=("file", path) if path is not None else (text,))]
            return [(st, self.from_py(st, v))]
        a = sym("ok", text, typ="bool")
        cause = ("file", path) if path is not None else (text,)

        def go(s):
            j = sym("json", text, typ="dict" if text in ip.json_roles or path is not None else "any")
            if j.typ == "dict":
                return [(s, ip.cont(s, "dict", (("base", j),)))]
            return [(s, j)]

        return self.seq(self.guard(st, a, True, "JSONDecodeError", cause), go)

    def from_py(self, st, v):
        if isinstance(v, dict):
            return self.ip.cont(st, "dict", [("one", const(k), self.from_py(st, x)) for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return self.ip.cont(st, "list", [("one", None, self.from_py(st, x)) for x in v])
        return const(v)

    # ----------------------------------------------------------------- regex
    def regex_of(self, v, flags=NONE):
        if isinstance(v, RegexV):
            return v
        if isinstance(v, Const) and isinstance(v.v, str):
            f = flags.v if isinstance(flags, Const) and isinstance(flags.v, int) else 0
            return regex(v.v, f)
        return None

    def re_call(self, st, name, R, args, kw, node):
        ip = self.ip
        if name in ("search", "match", "fullmatch", "finditer", "findall", "split"):
            s = args[0] if args else kw.get("string")
        elif name in ("sub", "subn"):
            names = ["repl", "string", "count"]
            vals = dict(zip(names, args))
            vals.update(kw)
            s = vals.get("string")
        else:
            return [(st, ip.unk("regex " + name))]
        if isinstance(s, Phi):
            res = []
            for t, x in ip.resolve(st, s):
                na = list(args)
                if name in ("sub", "subn"):
                    vals["string"] = x
                    res.extend(self.re_call(t, name, R, [], dict(vals), node))
                else:
                    na[0] = x
                    res.extend(self.re_call(t, name, R, na, {k: v for k, v in kw.items() if k != "string"}, node))
            return res
        if R is None:
            return [(st, ip.unk("dynamic pattern", s if isinstance(s, Val) else NONE))]
        if not istext(s):
            if isinstance(s, Sym) and s.typ in ("any", "content"):
                pass
            else:
                return [ip.raise_(st, "TypeError", cause=("none",))]
        extra = [a for a in args[1:]] if name in ("search", "match", "fullmatch", "finditer", "findall") else []
        st.effect("regex", R, name, s, ip.where()) if False else None
        ip.regex_used.add((R, name, isinstance(s, Sym)))
        if extra or any(k in kw for k in ("pos", "endpos")):
            s = sym("slice", s, extra[0] if extra else kw.get("pos", NONE), extra[1] if len(extra) > 1 else kw.get("endpos", NONE), NONE, typ="str")

        def go(t):
            if name in ("search", "match", "fullmatch"):
                if isinstance(s, Const):
                    m = getattr(re.compile(R.pattern, R.flags), name)(s.v)
                    if m is None:
                        return [(t, NONE)]
                return [(t, sym(name, R, s, typ="any"))]
            if name == "finditer":
                src = sym("finditer", R, s, typ="iter")
                return [(t, ip.cont(t, "iter", (("base", src),)))]
            if name == "findall":
                src = sym("finditer", R, s, typ="iter")
                m = sym("elem", src, typ="match")
                p = re.compile(R.pattern, R.flags)
                if p.groups == 0:
                    v = self.group_sym(m, 0)
                else:
                    vs = [self.or_empty(t, self.group_sym(m, i)) for i in range(1, p.groups + 1)]
                    v = vs[0] if p.groups == 1 else Tup(vs)
                return [(t, ip.cont(t, "list", (("star", src, ((frozenset(), (("one", None, v),)),), False),)))]
            if name == "split":
                return [(t, ip.cont(t, "list", (("base", sym("resplit", R, s, typ="list")),)))]
            # sub
            repl = vals.get("repl")
            cnt = vals.get("count", const(0))
            if isinstance(repl, (Func, Bound, Partial)):
                m = sym("elem", sym("finditer", R, s, typ="iter"), typ="match")
                outs = ip.call(t.fork(), repl, [m], {})
                alts = tuple(sorted(((frozenset((a, p) for a, p in u.facts.items() if t.facts.get(a) is None), self.freeze(u, v)) for u, v in outs if not isinstance(v, Raise)), key=repr))
                rr = sym("fn", alts)
                bad = [(u, v) for u, v in outs if isinstance(v, Raise)]
            else:
                rr, bad = self.freeze(t, repl), []
            if isinstance(s, Const) and isinstance(rr, Const):
                return [(t, const(re.compile(R.pattern, R.flags).sub(rr.v, s.v)))]
            v = sym("sub", R, rr, s, cnt, typ="str")
            if name == "subn":
                v = Tup((v, sym("subcount", R, s, typ="int")))
            return [(t, v)] + bad

        return self.seq(self.notnone(st, s, "TypeError") if isinstance(s, Sym) else [(st, None)], go)

    def or_empty(self, st, g):
        if g.typ == "str":
            return g
        a = isnone(g)
        return Phi(((frozenset([(a, True)]), const("")), (frozenset([(a, False)]), g)))

    def group_sym(self, m, key):
        R, _ = match_regex(m)
        p = pat(R) if R is not None else None
        k = key
        typ = "ostr"
        if key == 0:
            typ = "str"
        elif p is not None:
            k = p.key(key)
            if k in p.rules()[0]:
                typ = "str"
        return sym("group", m, k, typ=typ)

    def group(self, st, m, k):
        if isinstance(k, Const):
            R, _ = match_regex(m)
            if R is not None:
                c = re.compile(R.pattern, R.flags)
                if isinstance(k.v, int) and k.v > c.groups or isinstance(k.v, str) and k.v not in c.groupindex:
                    return [self.ip.raise_(st, "IndexError", "no such group")]
            return [(st, self.group_sym(m, k.v))]
        return [(st, self.ip.unk("group", m, k))]
