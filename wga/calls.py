"""Functions of the language and the libraries."""
import ast
import builtins
import re
import string as _string

from . import rx
from .interp import BUILTIN_EXC, BREAK, CONT, NEXT, Raise, Ret, builtin_exc, fstr
from .state import *
from .terms import *

PYEXC = (ValueError, TypeError, IndexError, KeyError, AttributeError, SyntaxError, OverflowError, ZeroDivisionError)


def _excname(e):
    n = type(e).__name__
    return n if n in BUILTIN_EXC else "ValueError"


# names of parameters that may also be passed by position
SIGS = {
    "re.compile": ("pattern", "flags"), "re.search": ("pattern", "string", "flags"), "re.match": ("pattern", "string", "flags"),
    "re.fullmatch": ("pattern", "string", "flags"), "re.findall": ("pattern", "string", "flags"),
    "re.finditer": ("pattern", "string", "flags"), "re.split": ("pattern", "string", "maxsplit", "flags"),
    "re.sub": ("pattern", "repl", "string", "count", "flags"), "re.subn": ("pattern", "repl", "string", "count", "flags"),
    "re.escape": ("pattern",), "open": ("file", "mode"), "json.dump": ("obj", "fp"), "json.dumps": ("obj",),
    "json.load": ("fp",), "json.loads": ("s",), "ast.literal_eval": ("node_or_string",), "enumerate": ("iterable", "start"),
    "sum": ("iterable", "start"), "itertools.count": ("start", "step"), "itertools.islice": (), "str": ("object",),
    "getattr": (), "copy.deepcopy": ("x",), "copy.copy": ("x",), "shutil.rmtree": ("path",), "os.remove": ("path",),
    "os.unlink": ("path",), "os.mkdir": ("path",), "os.makedirs": ("name",), "os.listdir": ("path",), "os.rmdir": ("path",),
    "os.path.exists": ("path",), "functools.reduce": ("function", "sequence", "initial"),
    "itertools.repeat": ("object", "times"), "os.rename": ("src", "dst"), "os.replace": ("src", "dst"),
}


class Calls:
    # ------------------------------------------------------------ dispatch
    def call(self, st, name, args, kw, node=None):
        """A call of a builtin or of a library function."""
        f = getattr(self, "f_" + name.replace(".", "_"), None)
        if f is None:
            for pre, alt in (("pathlib.", "pathlib_"), ("builtins.", "")):
                if name.startswith(pre):
                    f = getattr(self, "f_" + alt + name[len(pre):].replace(".", "_"), None)
        sig = SIGS.get(name)
        if sig and kw:
            args, kw = list(args), dict(kw)
            while len(args) < len(sig) and sig[len(args)] in kw:
                args.append(kw.pop(sig[len(args)]))
        if name in self.KEEP_PHI:
            return f(st, args, kw, node)
        return self._resolved(st, args, kw, lambda s, a, k: self._call(s, name, f, a, k, node))

    KEEP_PHI = {"print", "noop", "json.dumps", "json.dump", "functools.partial"}

    def _resolved(self, st, args, kw, go):
        todo = [(st, list(args), dict(kw))]
        for i in range(len(args)):
            nxt = []
            for s, a, k in todo:
                for s2, v in self.ip.resolve(s, a[i]):
                    b = list(a)
                    b[i] = v
                    nxt.append((s2, b, k))
            todo = nxt
        for key in kw:
            nxt = []
            for s, a, k in todo:
                for s2, v in self.ip.resolve(s, k[key]):
                    nxt.append((s2, a, {**k, key: v}))
            todo = nxt
        res = []
        for s, a, k in todo:
            res.extend(go(s, a, k))
        return res

    def _call(self, st, name, f, args, kw, node):
        if f is not None:
            return f(st, args, kw, node)
        if name in BUILTIN_EXC:
            return self.ip.pyd.construct(st, BUILTIN_EXC[name], args, kw)
        top = name.split(".")[0]
        if top in ("logging", "warnings", "typing", "abc", "types", "gc", "atexit", "textwrap", "pprint", "threading", "dotenv", "__future__"):
            if name in ("typing.cast",):
                return [(st, args[1])]
            if top in ("textwrap", "pprint"):
                return [(st, sym("text", name, *[self.freeze(st, a) for a in args], typ="str"))]
            return [(st, lib("logging.obj") if top == "logging" else lib("noop"))]
        if top == "string" or top == "re" and False:
            pass
        base = getattr(builtins, name, None)
        if base is not None and args and all(isinstance(a, Const) for a in args) and not kw and name in ("abs", "round", "divmod", "pow", "chr", "ord", "hex", "oct", "bin", "complex", "format", "ascii", "hash"):
            return self.fold(st, lambda: base(*[a.v for a in args]))
        u = self.ip.unk("call of " + name, *[self.freeze(st, a) for a in args])
        if top in ("os", "shutil", "subprocess", "tempfile", "socket", "sqlite3", "pickle", "shelve", "exec", "eval", "__import__", "importlib", "io", "codecs", "fcntl", "mmap"):
            st = st.fork()
            st.effect("opaque", name, tuple(self.freeze(st, a) for a in args), self.ip.where())
        return [(st, u)]

    def fold(self, st, f):
        try:
            v = f()
        except PYEXC as e:
            return [self.ip.raise_(st, _excname(e))]
        return [(st, self.from_py(st, v) if isinstance(v, (list, dict)) else Tup(const(x) for x in v) if isinstance(v, tuple) else const(v))]

    def key_of(self, node, tag):
        return (getattr(node, "lineno", self.ip.site[1]), getattr(node, "col_offset", 0), self.ip.site[0], tag)

    # --------------------------------------------------------------- basics
    def f_noop(self, st, args, kw, node):
        return [(st, lib("noop"))]

    f_object___init__ = lambda self, st, args, kw, node: [(st, NONE)]

    def f_BaseException___init__(self, st, args, kw, node):
        if args and isinstance(args[0], Ref):
            o = st.heap.get(args[0].addr)
            if isinstance(o, Inst):
                st.heap[args[0].addr] = o.with_("args", Tup(args[1:]))
        return [(st, NONE)]

    def f_len(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, ClassV) and v.kind == "enum":
            return [(st, const(len(v.members)))]
        return self.length(st, v)

    def _make(self, st, kind, args, kw, node):
        ip = self.ip
        if not args:
            return [(st, ip.cont(st, kind, ()))]
        if isinstance(args[0], Bound) and args[0].fn == "*spread":
            args = [args[0].self_]
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [ip.raise_(st, "TypeError", cause=("none",) if args[0] == NONE else ())]
        if isinstance(args[0], Sym) and args[0].typ in ("any", "ostr"):
            return self.seq(self.notnone(st, args[0], "TypeError"), lambda s: [(s, ip.cont(s, kind, self._conv(kind, k, segs)))])
        return [(st, ip.cont(st, kind, self._conv(kind, k, segs)))]

    def _conv(self, kind, k, segs):
        if kind in ("set",):
            if k == "set" or k in ("list", "tuple", "iter") and len(segs) == 1 and segs[0][0] == "base":
                return tuple(segs)
            return self.set_segs(k, segs)
        if k == "set" or k in ("list", "tuple", "iter"):
            if k == "set" and all(s[0] in ("one", "star", "alt") for s in segs):
                return tuple(self.map_segs("set", segs, lambda key, v: ("one", None, key)))
            return tuple(segs) if k != "set" else tuple(self.map_segs("set", segs, lambda key, v: ("one", None, key)))
        return self.as_list_segs(k, segs)

    def f_list(self, st, args, kw, node):
        return self._make(st, "list", args, kw, node)

    def f_set(self, st, args, kw, node):
        return self._make(st, "set", args, kw, node)

    f_frozenset = f_set

    def f_iter(self, st, args, kw, node):
        if args and isinstance(args[0], Ref) and self.kind(st, args[0]) == "iter":
            return [(st, args[0])]
        return self._make(st, "iter", args, kw, node)

    def f_tuple(self, st, args, kw, node):
        if not args:
            return [(st, Tup(()))]
        if isinstance(args[0], Tup):
            return [(st, args[0])]
        res = []
        for s, v in self._make(st, "tuple", args, kw, node):
            if not isinstance(v, Raise):
                o = s.heap[v.addr]
                if all(x[0] == "one" for x in o.segs):
                    v = Tup([x[2] for x in o.segs])
            res.append((s, v))
        return res

    def f_dict(self, st, args, kw, node):
        ip = self.ip
        r = ip.cont(st, "dict", ())
        outs = [(st, NONE)]
        if args or kw:
            outs = self.method(st, r, "update", args, kw, node)
        return [(s, v if isinstance(v, Raise) else r) for s, v in outs]

    f_collections_OrderedDict = f_dict

    def f_collections_defaultdict(self, st, args, kw, node):
        r = self.ip.cont(st, "dict", (), ("default", args[0]) if args and args[0] != NONE else None)
        outs = [(st, NONE)]
        if len(args) > 1 or kw:
            outs = self.method(st, r, "update", args[1:], kw, node)
        return [(s, v if isinstance(v, Raise) else r) for s, v in outs]

    def f_collections_deque(self, st, args, kw, node):
        return self._make(st, "list", args[:1], kw, node)

    def f_collections_ChainMap(self, st, args, kw, node):
        return self.f_dict(st, args, kw, node)

    def f_collections_Counter(self, st, args, kw, node):
        """How often each item occurs."""
        if not args:
            return [(st, self.ip.cont(st, "dict", (), ("default", lib("int"))))]
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        d = Doc("list", self.freeze_segs(st, self.as_list_segs(k, segs)))
        c = sym("counter", d, typ="dict")
        self.etype[c] = ("any", "int", None, None)
        return [(st, self.ip.cont(st, "dict", (("base", c),), ("default", lib("int"))))]

    def f_collections_namedtuple(self, st, args, kw, node):
        c = ClassV(args[0].v if isinstance(args[0], Const) else "nt", "lib", [])
        c.kind = "namedtuple"
        names = None
        if isinstance(args[1], Const) and isinstance(args[1].v, str):
            names = args[1].v.replace(",", " ").split()
        else:
            _, segs = self.view(st, args[1])
            if segs is not None and all(s[0] == "one" and isinstance(s[2], Const) for s in segs):
                names = [s[2].v for s in segs]
        c.fields = {n: {"name": n} for n in names or ()}
        return [(st, c)]

    def f_str(self, st, args, kw, node):
        if not args:
            return [(st, const(""))]
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV) and o.cls.kind != "exc":
                m = o.cls.lookup("__str__") or o.cls.lookup("__repr__")
                if m is not None and o.cls.kind is None:
                    return self.ip.call(st, Bound(v, m), [], {})
            if isinstance(o, Inst) and isinstance(o.cls, ClassV) and o.cls.kind == "exc":
                m = o.cls.lookup("__str__")
                if isinstance(m, Func):
                    return self.ip.call(st, Bound(v, m), [], {})
                got = o.fields.get("args")
                if isinstance(got, Tup) and len(got.items) == 1:
                    return [(st, self.to_str(st, got.items[0]))]
        return [(st, self.to_str(st, v))]

    def f_repr(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Const):
            return [(st, const(repr(v.v)))]
        return [(st, sym("repr", self.freeze(st, v), typ="str"))]

    f_ascii = f_repr

    def plain_spec(self, st, v, spec):
        """Does this format give what str() gives?"""
        if spec == "":
            return True
        t = v.typ if isinstance(v, Sym) else type(v.v).__name__ if isinstance(v, Const) else None
        return spec == "d" and t == "int" or spec == "s" and t == "str"

    def percent(self, st, fmt, v):
        """Text for the simple cases of  fmt % v ."""
        vals = list(v.items) if isinstance(v, Tup) else None
        if vals is None:
            o = self._cont(st, v)
            if o is not None:
                if o.kind != "tuple" or not all(x[0] == "one" for x in o.segs):
                    return None
                vals = [x[2] for x in o.segs]
            else:
                vals = [v]
        parts = []
        for x in re.split(r"(%.)", fmt, flags=re.S):
            if x == "%%":
                parts.append(const("%"))
            elif x[:1] == "%" :
                if x not in ("%s", "%d") or not vals:
                    return None
                y = vals.pop(0)
                if x == "%d" and not self.plain_spec(st, y, "d"):
                    return None
                parts.append(self.to_str(st, y))
            elif x:
                parts.append(const(x))
        return None if vals else fstr(parts) if parts else const("")

    def f_format(self, st, args, kw, node):
        if len(args) == 1:
            return self.f_str(st, args, kw, node)
        if isinstance(args[1], Const) and self.plain_spec(st, args[0], args[1].v):
            return self.f_str(st, args[:1], kw, node)
        return [(st, sym("format", self.freeze(st, args[0]), self.freeze(st, args[1]), typ="str"))]

    def _number(self, st, args, kw, name, atom):
        ip = self.ip
        if not args:
            return [(st, const(0 if name == "int" else 0.0))]
        v = args[0]
        py = getattr(builtins, name)
        if isinstance(v, Const):
            if v.v is None:
                return [ip.raise_(st, "TypeError", cause=("none",))]
            try:
                return [(st, const(py(v.v)))]
            except (ValueError, TypeError, OverflowError) as e:
                return [ip.raise_(st, _excname(e), cause=(v,))]
        if len(args) > 1 or kw:
            return [(st, sym(name + "base", v, args[1] if len(args) > 1 else NONE, typ=name)), ip.raise_(st.fork(), "ValueError", cause=(v,))]
        if isinstance(v, Sym):
            if v.typ == name or v.typ == "bool" and name == "int":
                return [(st, v)]
            if v.typ in ("int", "float", "num"):
                return [(st, sym(name, v, typ=name))]
            if v.typ in ("path", "match", "date") or v.typ in ("list", "dict", "set", "tuple"):
                return [ip.raise_(st, "TypeError")]
            if v.op == "str" and isinstance(v.args[0], Sym) and v.args[0].typ == name:
                return [(st, v.args[0])]
            g = self.notnone(st, v, "TypeError") if v.typ != "str" else [(st, None)]
            a = sym(atom, v, typ="bool")

            def go(s):
                return self.seq(self.guard(s, a, True, "ValueError", (v,)), lambda t: [(t, sym(name, v, typ=name))])

            return self.seq(g, go)
        return [ip.raise_(st, "TypeError")]

    def f_int(self, st, args, kw, node):
        return self._number(st, args, kw, "int", "isint")

    def f_float(self, st, args, kw, node):
        return self._number(st, args, kw, "float", "isfloat")

    def f_bool(self, st, args, kw, node):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Raise) else const(b)) for s, b in self.ip.branch(st, args[0])]

    def f_type(self, st, args, kw, node):
        v = args[0]
        if len(args) > 1:
            return [(st, self.ip.unk("type()"))]
        if isinstance(v, Const):
            return [(st, lib(type(v.v).__name__))]
        if isinstance(v, EnumV):
            return [(st, v.cls)]
        if isinstance(v, ClassV):
            return [(st, lib("type"))]
        if isinstance(v, Tup):
            return [(st, lib("tuple"))]
        if isinstance(v, Doc):
            return [(st, lib(v.kind))]
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst):
                return [(st, o.cls)]
            if isinstance(o, Cont):
                return [(st, lib(o.kind))]
        if isinstance(v, Sym):
            if v.typ in ("str", "int", "float", "bool", "list", "dict", "set", "tuple"):
                return [(st, lib(v.typ))]
            if v in self.ip.specs:
                return [(st, self.ip.specs[v])]
            if v.typ == "ostr":
                res = []
                for s, b in self.split(st, isnone(v)):
                    res.append((s, lib("NoneType" if b else "str")))
                return res
        return [(st, sym("typeof", v, typ="class"))]

    def f_isinstance(self, st, args, kw, node):
        return self.isinstance_(st, args[0], args[1])

    def f_issubclass(self, st, args, kw, node):
        a, b = args
        if isinstance(a, ClassV):
            bs = b.items if isinstance(b, Tup) else (b,)
            return [(st, const(any(isinstance(x, ClassV) and a.is_sub(x) for x in bs)))]
        return [(st, sym("issub", a, b, typ="bool"))]

    def f_callable(self, st, args, kw, node):
        return [(st, const(isinstance(args[0], (Func, Bound, ClassV, LibV, Partial))))]

    def f_getattr(self, st, args, kw, node):
        if not isinstance(args[1], Const):
            return [(st, sym("attr", self.freeze(st, args[0]), args[1]))]
        outs = self.getattr(st, args[0], args[1].v)
        if len(args) > 2:
            res = []
            for s, v in outs:
                if isinstance(v, Raise):
                    c = self.ip.exc_class(s, v)
                    if c is not None and c.name == "AttributeError":
                        v = args[2]
                res.append((s, v))
            return res
        return outs

    def f_setattr(self, st, args, kw, node):
        if isinstance(args[1], Const):
            return self.setattr(st, args[0], args[1].v, args[2])
        if isinstance(args[0], Ref):
            st.effect("setattr", args[0], self.freeze(st, args[1]), self.freeze(st, args[2]), self.ip.where())
        self.ip.unk("setattr with a computed name", *args[1:])
        return [(st, NONE)]

    def f_hasattr(self, st, args, kw, node):
        if not isinstance(args[1], Const):
            return [(st, sym("hasattr", self.freeze(st, args[0]), args[1], typ="bool"))]
        if isinstance(args[0], Sym) and args[0].typ == "any":
            return [(st, sym("hasattr", args[0], args[1], typ="bool"))]
        outs = self.getattr(st.fork(), args[0], args[1].v)
        v = outs[0][1]
        return [(st, const(not isinstance(v, Raise)))]

    def f_vars(self, st, args, kw, node):
        if args:
            return self.getattr(st, args[0], "__dict__")
        return [(st, self.ip.unk("vars"))]

    def f_id(self, st, args, kw, node):
        return [(st, sym("idof", self.freeze(st, args[0]), typ="int"))]

    def f_hash(self, st, args, kw, node):
        return [(st, sym("hash", self.freeze(st, args[0]), typ="int"))]

    def f_abs(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Const):
            return self.fold(st, lambda: abs(v.v))
        return [(st, sym("abs", v, typ=getattr(v, "typ", "any")))]

    def f_round(self, st, args, kw, node):
        if all(isinstance(a, Const) for a in args):
            return self.fold(st, lambda: round(*[a.v for a in args]))
        return [(st, sym("round", *args, typ="int" if len(args) == 1 else "float"))]

    def f_ord(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Const):
            return self.fold(st, lambda: ord(v.v))
        return [(st, sym("ord", v, typ="int"))]

    def f_chr(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Const):
            return self.fold(st, lambda: chr(v.v))
        b, o = base_off(v)
        res = [(st, sym("chr", v, typ="str"))]
        return res

    def f_print(self, st, args, kw, node):
        fp = kw.get("file")
        o = st.heap.get(fp.addr) if isinstance(fp, Ref) else None
        if isinstance(o, FH):
            sep, end = kw.get("sep", NONE), kw.get("end", NONE)
            parts = []
            for i, v in enumerate(args):
                if i:
                    parts.append(const(" ") if sep is NONE else sep)
                parts.append(self.to_str(st, v))
            parts.append(const("\n") if end is NONE else end)
            return [(s, v if isinstance(v, Raise) else NONE) for s, v in self.m_file(st, fp, o, "write", [fstr(parts)], {})]
        st = st.fork()
        st.effect("print", tuple(self.freeze(st, a) for a in args), self.ip.where())
        return [(st, NONE)]

    def f_input(self, st, args, kw, node):
        st = st.fork()
        n = sum(1 for e in st.effects if e[0] == "input")
        v = sym("input", n, self.ip.ctx, typ="str")
        st.effect("input", v, self.ip.where())
        return [(st, v)]

    def f_open(self, st, args, kw, node):
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        return self.open_(st, args[0] if args else kw.get("file"), mode)

    f_io_open = f_open

    def f_exit(self, st, args, kw, node):
        return [self.ip.raise_(st, "SystemExit")]

    f_quit = f_sys_exit = f_os__exit = f_exit

    # ------------------------------------------------------------ sequences
    def f_range(self, st, args, kw, node):
        ip = self.ip
        if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 64:
                return [(st, ip.cont(st, "list", [("one", None, const(i)) for i in r]))]
        if len(args) == 1 or len(args) == 2 and args[0] == const(0):
            n = args[-1]
            if isinstance(n, Sym) and n.op == "len":
                src = n.args[0]
                return [(st, ip.cont(st, "list", (("star", src, ((frozenset(), (("one", None, sym("idx", src, typ="int")),)),), False),)))]
        r = sym("range", *args, typ="list")
        self.etype[r] = ("int", "int", None, None)
        return [(st, ip.cont(st, "list", (("base", r),)))]

    def _exact(self, seg):
        """Each element of the source gives exactly one item."""
        return seg[0] == "star" and all(len(x) == 1 and x[0][0] == "one" for _, x in seg[2]) and not (len(seg) > 3 and seg[3])

    def f_enumerate(self, st, args, kw, node):
        ip = self.ip
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        segs = self.as_list_segs(k, segs)
        out = []
        n = start
        for s in segs:
            if s[0] == "one":
                out.append(("one", None, Tup((n, s[2]))))
                n = self._plus(n, 1)
            elif s[0] == "base" or self._exact(s):
                src = s[1]
                i = sym("idx", src, typ="int")
                idx = self._sum(n, i)
                if s[0] == "base":
                    e = self.elem_of(src, "list")
                    cs = ((frozenset(), (("one", None, Tup((idx, e))),)),)
                    out.append(("star", src, cs, False))
                else:
                    out.append(("star", src, tuple((f, tuple(("one", None, Tup((idx, y[2]))) for y in x)) for f, x in s[2]), s[3] if len(s) > 3 else False))
                n = self._sum(n, sym("len", src, typ="int"))
            else:
                p = sym("posin", Doc("list", self.freeze_segs(st, (s,))), typ="int")
                out.extend(self.map_segs("list", (s,), lambda key, v: ("one", None, Tup((self._sum(n, p), key)))))
                n = sym("pos", n, p, typ="int")
        return [(st, ip.cont(st, "iter", out))]

    def _plus(self, n, k):
        return add_int(n, k) if isinstance(n, (Const, Sym)) else n

    def _sum(self, a, b):
        if isinstance(a, Const) and isinstance(a.v, int):
            return add_int(b, a.v)
        if isinstance(b, Const) and isinstance(b.v, int):
            return add_int(a, b.v)
        ba, oa = base_off(a)
        bb, ob = base_off(b)
        x, y = sorted((ba, bb), key=okey)
        return add_int(sym("add", x, y, typ="int"), oa + ob)

    def _infinite(self, segs):
        for s in segs:
            if s[0] in ("base", "star") and isinstance(s[1], Sym) and s[1].op in ("count", "cycle", "repeat"):
                return True
            if s[0] == "star" and any(self._infinite(x) for _, x in s[2]):
                return True
        return False

    def _parallel(self, st, views):
        """The pairs of sequences built in the same way from the same things; None: they are not."""
        if len({len(v) for v in views}) != 1:
            return None
        out = []
        for at in zip(*views):
            x = at[0]
            if len({y[0] for y in at}) != 1:
                return None
            if x[0] == "one":
                out.append(("one", None, Tup([y[2] for y in at])))
            elif x[0] == "base":
                if any(y[1] is not x[1] for y in at):
                    return None
                e = self.elem_of(x[1], "list")
                out.append(("star", x[1], ((frozenset(), (("one", None, Tup([e] * len(at))),)),), False))
            elif x[0] in ("star", "alt"):
                n = 2 if x[0] == "star" else 1
                if x[0] == "star" and any(y[1] is not x[1] or y[3] != x[3] for y in at):
                    return None
                # the cases that go together
                cases = [(f, (tuple(sub),)) for f, sub in x[n]]
                for y in at[1:]:
                    cases = [(f | g, subs + (tuple(sub),)) for f, subs in cases for g, sub in y[n]
                             if not any((z, not p) in f for z, p in g) and (f == g or assume_all(st, f | g) is not None)]
                    if len(cases) > 64:
                        return None
                done = []
                for f, subs in cases:
                    inner = self._parallel(st, subs)
                    if inner is None:
                        return None
                    done.append((f, inner))
                cases = done
                out.append(("star", x[1], tuple(cases), x[3]) if x[0] == "star" else ("alt", tuple(cases)))
            else:
                return None
        return tuple(out)

    def f_zip(self, st, args, kw, node):
        ip = self.ip
        if len(args) == 1 and isinstance(args[0], Bound) and args[0].fn == "*spread":
            return [(st, ip.unk("zip of unknown arguments", self.freeze(st, args[0].self_)))]
        views = []
        for a in args:
            k, sg = self.iter_view(st, a)
            if sg is None:
                return [ip.raise_(st, "TypeError")]
            views.append(self.as_list_segs(k, sg))
        if not views:
            return [(st, ip.cont(st, "iter", ()))]
        if all(all(s[0] == "one" for s in v) for v in views):
            return [(st, ip.cont(st, "iter", [("one", None, Tup([x[2] for x in t])) for t in zip(*views)]))]
        both = self._parallel(st, views) if len(views) > 1 else None
        if both is not None:
            return [(st, ip.cont(st, "iter", both))]
        finite = [i for i, v in enumerate(views) if not self._infinite(v)]
        if not finite:
            return [(st, ip.unk("zip of endless sequences"))]
        # the sequence that decides the length
        main = [i for i in finite if len(views[i]) == 1 and (views[i][0][0] == "base" or self._exact(views[i][0]) or views[i][0][0] == "perm")]
        if main:
            i0 = main[0]
            seg = views[i0][0]
            if seg[0] == "perm":
                src = sym("permseq", Doc("list", self.freeze_segs(st, (seg,))), typ="list")
                known = self.seg_truth(st, "list", seg)
                if len(known) == 1:
                    st = known[0][0].fork()
                    st.facts[truthy(src)] = known[0][1]
                inner = self.as_list_segs("list", seg[2])
                if len(inner) == 1 and inner[0][0] == "star":
                    ty = self._items_typ(inner)
                    self.etype.setdefault(src, (ty, ty, None, None))
                    ssrc = src
                elif len(inner) == 1 and inner[0][0] == "base":
                    e = self.elem_of(inner[0][1], "list")
                    self.etype.setdefault(src, (e.typ, e.typ, ip.specs.get(e), self.etype.get(e)))
                    ssrc = src
                else:
                    ssrc = src
                base_items = None
                src = ssrc
                seg = ("base", src)
            src = seg[1]
            idx = sym("idx", src, typ="int")
            cols = []
            partial = False
            for j, v in enumerate(views):
                if j == i0:
                    cols.append(None)
                elif j in finite:
                    if len(v) == 1 and v[0][0] in ("base", "star") and v[0][1] is src and (v[0][0] == "base" or self._exact(v[0])):
                        if v[0][0] == "base":
                            cols.append(self.elem_of(src, "list"))
                        else:
                            cols.append(v[0][2][0][1][0][2] if len(v[0][2]) == 1 else sym("at", Doc("list", self.freeze_segs(st, v)), idx))
                    else:
                        d = Doc("list", self.freeze_segs(st, v))
                        partial = ("zip", d)
                        cols.append(sym("nth", d, idx, typ=self._items_typ(v)))
                else:
                    d = Doc("iter", self.freeze_segs(st, v))
                    cols.append(sym("nth", d, idx, typ=self._items_typ(v)))
            if seg[0] == "base":
                cases = ((frozenset(), (("one", None, self.elem_of(src, "list")),)),)
            else:
                cases = seg[2]
            out = []
            for f, x in cases:
                items = list(cols)
                items[i0] = x[0][2]
                out.append((f, (("one", None, Tup(items)),)))
            return [(st, ip.cont(st, "iter", (("star", src, tuple(out), partial),)))]
        ds = [Doc("list", self.freeze_segs(st, v)) for v in views]
        z = sym("zip", *ds, typ="list")
        t = Tup([sym("at", d, sym("idx", z, typ="int"), typ=self._items_typ(v)) for d, v in zip(ds, views)])
        return [(st, ip.cont(st, "iter", (("star", z, ((frozenset(), (("one", None, t),)),), False),)))]

    def _items_typ(self, segs):
        ts = set()

        def go(sg):
            for s in sg:
                if s[0] == "one":
                    v = s[2]
                    ts.add(type(v.v).__name__ if isinstance(v, Const) else v.typ if isinstance(v, Sym) else "any")
                elif s[0] == "base":
                    ts.add(self.elem_of(s[1], "list").typ)
                elif s[0] == "star":
                    for _, x in s[2]:
                        go(x)
                elif s[0] == "perm" and (s[1] in ("reversed", "insert", "sorted") or str(s[1]).startswith("sorted")):
                    go(s[2])
                else:
                    ts.add("any")

        go(segs)
        return ts.pop() if len(ts) == 1 else "any"

    def f_reversed(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        segs = self.as_list_segs(k, segs)
        if all(s[0] == "one" for s in segs):
            return [(st, self.ip.cont(st, "iter", tuple(reversed(segs))))]
        return [(st, self.ip.cont(st, "iter", (("perm", "reversed", segs),)))]

    def f_sorted(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        segs = self._conv("list", k, segs)
        key = kw.get("key")
        rev = kw.get("reverse", FALSE)
        if all(s[0] == "one" and isinstance(s[2], Const) for s in segs) and key is None:
            try:
                vs = sorted((s[2].v for s in segs), reverse=bool(isinstance(rev, Const) and rev.v))
                return [(st, self.ip.new_list(st, [const(v) for v in vs]))]
            except TypeError:
                return [self.ip.raise_(st, "TypeError")]
        if not segs:
            return [(st, self.ip.cont(st, "list", ()))]
        how = "sorted" if (key is None or key == NONE) and rev == FALSE else "sorted:" + repr(key) + repr(rev)
        return [(st, self.ip.cont(st, "list", (("perm", how, segs),)))]

    def _quant(self, st, it, want, node):
        """any / all as a search through the items."""
        ip = self.ip

        def one(s, v):
            res = []
            for s2, x in ip.resolve(s, v):
                for s3, b in ip.branch(s2, x):
                    if isinstance(b, Raise):
                        res.append((s3, b))
                    elif b == want:
                        res.append((s3, Ret(const(want))))
                    else:
                        res.append((s3, NEXT))
            return res

        res = []
        for s, sig in ip.iterate(st, it, one, self.key_of(node, "any" if want else "all")):
            if isinstance(sig, Ret):
                res.append((s, sig.v))
            elif isinstance(sig, Raise):
                res.append((s, sig))
            else:
                res.append((s, const(not want)))
        return res

    def f_any(self, st, args, kw, node):
        return self._quant(st, args[0], True, node)

    def f_all(self, st, args, kw, node):
        return self._quant(st, args[0], False, node)

    def f_sum(self, st, args, kw, node):
        ip = self.ip
        k, segs = self.iter_view(st, args[0])
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        segs = self.as_list_segs(k, segs)
        if isinstance(start, (Ref, Tup)):
            # sum(lists, [])
            flat = self.flatten(st, segs)
            kd, sg = self.view(st, start)
            return [(st, ip.cont(st, "list", tuple(sg) + tuple(flat)))]
        # booleans count
        cur = [(st, start)]
        ones = [s for s in segs if s[0] == "one"]
        rest = [s for s in segs if s[0] != "one"]
        for s in ones:
            nxt = []
            for t, acc in cur:
                for t2, v in ip.resolve(t, s[2]):
                    if isinstance(v, Sym) and v.typ == "bool":
                        for t3, b in ip.branch(t2, v):
                            nxt.extend(self.binop(t3, ast.Add(), acc, const(int(b))))
                    elif isinstance(v, Const) and isinstance(v.v, bool):
                        nxt.extend(self.binop(t2, ast.Add(), acc, const(int(v.v))))
                    else:
                        nxt.extend(self.binop(t2, ast.Add(), acc, v))
            cur = nxt
        res = []
        for t, acc in cur:
            if not rest:
                res.append((t, acc))
                continue
            cc = None
            if len(rest) == 1:
                cc = self.charcount(self._boolsegs(rest))
                if cc is None and self._exact(rest[0]) and all(x[0][2] == const(1) for _, x in rest[0][2]):
                    cc = sym("len", rest[0][1], typ="int")
                elif cc is None and rest[0][0] == "star" and all(len(x) <= 1 and (not x or x[0] == ("one", None, const(1))) for _, x in rest[0][2]):
                    cc = sym("len", Doc("list", self.freeze_segs(t, tuple(rest))), typ="int")
            if cc is None:
                cc = sym("sum", Doc("list", self.freeze_segs(t, tuple(rest))), typ="any")
            res.extend(self.binop(t, ast.Add(), cc, acc) if acc != const(0) else [(t, cc)])
        return res

    def _boolsegs(self, segs):
        """Items that are conditions count when they are true."""
        out = []
        for s in segs:
            if s[0] != "star":
                out.append(s)
                continue
            cases = []
            for f, x in s[2]:
                if len(x) == 1 and x[0][0] == "one" and isinstance(x[0][2], Sym) and x[0][2].typ == "bool":
                    a, pos = x[0][2], True
                    while a.op == "not":
                        a, pos = a.args[0], not pos
                    cases.append((f | {(a, pos)}, (("one", None, const(1)),)))
                    cases.append((f | {(a, not pos)}, ()))
                elif len(x) == 1 and x[0][0] == "one" and isinstance(x[0][2], Const) and x[0][2].v in (0, False):
                    cases.append((f, ()))
                else:
                    cases.append((f, x))
            out.append(("star", s[1], tuple(cases)) + s[3:])
        return out

    def _minmax(self, st, args, kw, node, which):
        ip = self.ip
        if len(args) == 1:
            k, segs = self.iter_view(st, args[0])
            if segs is None:
                return [ip.raise_(st, "TypeError")]
            segs = self.as_list_segs(k, segs)
        else:
            segs = tuple(("one", None, a) for a in args)
        if segs and all(s[0] == "one" and isinstance(s[2], Const) for s in segs) and "key" not in kw:
            return self.fold(st, lambda: (min if which == "min" else max)(s[2].v for s in segs))
        if not segs:
            if "default" in kw:
                return [(st, kw["default"])]
            return [ip.raise_(st, "ValueError")]
        d = Doc("list", self.freeze_segs(st, segs))
        v = sym(which, d, self.freeze(st, kw.get("key", NONE)), typ=self._items_typ(segs))
        res = []
        for s, b in self.cont_truth(st, "list", segs):
            if b:
                res.append((s, v))
            elif "default" in kw:
                res.append((s, kw["default"]))
            else:
                res.append(ip.raise_(s, "ValueError", cause=(d,)))
        return res

    def f_min(self, st, args, kw, node):
        return self._minmax(st, args, kw, node, "min")

    def f_max(self, st, args, kw, node):
        return self._minmax(st, args, kw, node, "max")

    def collect(self, st, it, f, key, kind="iter"):
        """A new container with f(st, v) -> [(st, [items] | Raise)] for each element."""
        ip = self.ip
        acc = ip.cont(st, kind, ())

        def one(s, v):
            res = []
            for s2, items in f(s, v):
                if isinstance(items, Raise):
                    res.append((s2, items))
                    continue
                o = s2.heap[acc.addr]
                segs = [("one", x, None) if kind == "set" else ("one", None, x) for x in items]
                if segs:
                    s2.heap[acc.addr] = Cont(o.kind, o.segs + tuple(segs), o.extra)
                res.append((s2, NEXT))
            return res

        return [(s, sig if isinstance(sig, Raise) else acc) for s, sig in ip.iter_collect(st, it, one, key, acc)]

    def f_map(self, st, args, kw, node):
        ip = self.ip
        if len(args) > 2:
            outs = self.f_zip(st, args[1:], {}, node)
            res = []
            for s, z in outs:
                if isinstance(z, Raise):
                    res.append((s, z))
                    continue
                res.extend(self.collect(s, z, lambda t, v: [
                    (u, r if isinstance(r, Raise) else [r]) for u, r in ip.call(t, args[0], list(v.items) if isinstance(v, Tup) else [v], {})
                ], self.key_of(node, "map")))
            return res
        return self.collect(st, args[1], lambda s, v: [
            (t, r if isinstance(r, Raise) else [r]) for t, r in ip.call(s, args[0], [v], {})
        ], self.key_of(node, "map"))

    def f_filter(self, st, args, kw, node):
        ip = self.ip

        def f(s, v):
            res = []
            outs = [(s, v)] if args[0] == NONE or args[0] == lib("bool") else ip.call(s, args[0], [v], {})
            for t, r in outs:
                if isinstance(r, Raise):
                    res.append((t, r))
                    continue
                for t2, r2 in ip.resolve(t, r):
                    for t3, b in ip.branch(t2, r2):
                        res.append((t3, b if isinstance(b, Raise) else [v] if b else []))
            return res

        return self.collect(st, args[1], f, self.key_of(node, "filter"))

    def f_next(self, st, args, kw, node):
        ip = self.ip
        it = args[0]
        default = args[1] if len(args) > 1 else None

        def end(s):
            return [(s, default)] if default is not None else [ip.raise_(s, "StopIteration")]

        o = st.heap.get(it.addr) if isinstance(it, Ref) else None
        if isinstance(o, Cont):
            segs = list(self.as_list_segs(o.kind, o.segs))
            if not segs:
                return end(st)
            if segs[0][0] == "one":
                st = st.fork()
                st.heap[it.addr] = Cont(o.kind, tuple(segs[1:]), o.extra)
                return [(st, segs[0][2])]
            res = []
            d = ip.cont(st, "list", tuple(segs))
            for s, b in self.cont_truth(st, "list", tuple(segs)):
                if not b:
                    res.extend(end(s))
                    continue
                for s2, v in self.list_get(s, d, "list", tuple(segs), const(0)):
                    if isinstance(v, Raise):
                        continue
                    s2 = s2.fork()
                    rest = tuple(x if x[0] != "star" else ("star", x[1], x[2], ("rest", 1)) for x in segs) if len(segs) > 1 or segs[0][0] != "one" else ()
                    s2.heap[it.addr] = Cont(o.kind, rest, o.extra)
                    res.append((s2, v))
            return res
        return [(st, sym("nextof", self.freeze(st, it), self.ip.uniq()))] + (end(st.fork()))

    def flatten(self, st, segs):
        """Items of the items."""
        out = []
        for s in segs:
            if s[0] == "one":
                v = s[2]
                if isinstance(v, Phi):
                    cs = []
                    for f, x in v.alts:
                        k, sg = self.view(st, x)
                        cs.append((f, tuple(self.as_list_segs(k, sg)) if sg is not None else ()))
                    out.append(("alt", tuple(cs)))
                    continue
                k, sg = self.view(st, v)
                if sg is None:
                    self.ip.unk("flatten", v)
                    continue
                out.extend(self.as_list_segs(k, sg))
            elif s[0] == "star":
                out.append(("star", s[1], tuple((f, tuple(self.flatten(st, x))) for f, x in s[2])) + s[3:])
            elif s[0] == "alt":
                out.append(("alt", tuple((f, tuple(self.flatten(st, x))) for f, x in s[1])))
            elif s[0] == "perm":
                out.append(("perm", s[1], tuple(self.flatten(st, s[2]))))
            elif s[0] == "base":
                e = self.elem_of(s[1], "list")
                k, sg = self.view(st, e)
                if sg is None:
                    sg = (("base", e),)
                    k = "list"
                out.append(("star", s[1], ((frozenset(), tuple(self.as_list_segs(k, sg))),), False))
            else:
                out.append(s)
        return out

    def f_itertools_chain(self, st, args, kw, node):
        if len(args) == 1 and isinstance(args[0], Bound) and args[0].fn == "*spread":
            return self.f_itertools_chain_from_iterable(st, [args[0].self_], kw, node)
        return [(st, self.ip.cont(st, "iter", self.flatten(st, [("one", None, self._ref(a)) for a in args])))]

    def _ref(self, a):
        return a

    def f_itertools_chain_from_iterable(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        return [(st, self.ip.cont(st, "iter", self.flatten(st, self.as_list_segs(k, segs))))]

    def f_itertools_count(self, st, args, kw, node):
        a = args[0] if args else kw.get("start", const(0))
        b = args[1] if len(args) > 1 else kw.get("step", const(1))
        c = sym("count", a, b, typ="iter")
        self.etype[c] = ("int", "int", None, None)
        return [(st, self.ip.cont(st, "iter", (("base", c),)))]

    def f_itertools_cycle(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[0])
        c = sym("cycle", Doc("list", self.freeze_segs(st, segs or ())), typ="iter")
        return [(st, self.ip.cont(st, "iter", (("base", c),)))]

    def f_itertools_repeat(self, st, args, kw, node):
        if len(args) == 1:
            c = sym("repeat", self.freeze(st, args[0]), typ="iter")
            return [(st, self.ip.cont(st, "iter", (("base", c),)))]
        return [(st, self.ip.unk("repeat"))]

    def _combi(self, st, name, args, kw):
        import itertools

        if not kw or (name == "product" and set(kw) == {"repeat"} and isinstance(kw["repeat"], Const)):
            cols = []
            rest = list(args)
            tail = []
            if name != "product" and len(rest) > 1 and isinstance(rest[-1], Const):
                tail = [rest.pop().v]
            for a in rest:
                if isinstance(a, Const) and isinstance(a.v, str):
                    cols.append([const(c) for c in a.v])
                    continue
                k, segs = self.iter_view(st, a)
                if segs is None or not all(s[0] == "one" for s in segs):
                    break
                cols.append([s[2] for s in self.as_list_segs(k, segs)])
            else:
                n = 1
                for c in cols:
                    for i in range(len(c)):
                        n *= (i + 1) if name != "product" else 1
                    if name == "product":
                        n *= len(c) ** (kw["repeat"].v if kw else 1)
                f = getattr(itertools, name, None)
                if f and n <= 1000 and (tail == [] or isinstance(tail[0], int)):
                    return [
                        (st, self.ip.cont(st, "iter", [("one", None, Tup(tuple(x))) for x in f(*cols, *tail, **{k: v.v for k, v in kw.items()})]))
                    ]
        ps = []
        for a in args:
            if isinstance(a, Const) and isinstance(a.v, str):
                ps.append(a)
                continue
            k, segs = self.iter_view(st, a)
            ps.append(Doc("list", self.freeze_segs(st, self.as_list_segs(k, segs))) if segs is not None else a)
        kwv = tuple(self.freeze(st, v) for _, v in sorted(kw.items()))
        c = sym(name, tuple(ps), kwv, typ="iter")
        typ = "any"
        if all(isinstance(p, Const) and isinstance(p.v, str) for p in ps):
            typ = "tuple"
        self.etype[c] = (typ, typ, None, ("str", "str", None, None) if typ == "tuple" else None)
        return [(st, self.ip.cont(st, "iter", (("base", c),)))]

    def f_itertools_product(self, st, args, kw, node):
        rep = kw.get("repeat", const(1))
        if rep == const(1) and len(args) == 2:
            views = [self.iter_view(st, a) for a in args]
            if all(v[1] is not None and all(s[0] == "one" for s in v[1]) for v in views) and len(views[0][1]) * len(views[1][1]) < 40:
                a, b = [self.as_list_segs(*v) for v in views]
                return [(st, self.ip.cont(st, "iter", [("one", None, Tup((x[2], y[2]))) for x in a for y in b]))]
        return self._combi(st, "product", args, kw)

    def f_itertools_permutations(self, st, args, kw, node):
        return self._combi(st, "permutations", args, kw)

    def f_itertools_combinations(self, st, args, kw, node):
        k, segs = self.view(st, args[0])
        if segs is not None and len(args) > 1 and args[1] == const(2) and all(s[0] == "one" for s in segs) and len(segs) <= 8:
            it = [s[1] if k in ("set", "dict") else s[2] for s in segs]
            return [(st, self.ip.cont(st, "iter", [("one", None, Tup((x, y))) for i, x in enumerate(it) for y in it[i + 1:]]))]
        return self._combi(st, "combinations", args, kw)

    def f_itertools_islice(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        segs = self.as_list_segs(k, segs)
        a = args[1:] if len(args) > 1 else (NONE,)
        if len(a) == 1:
            a = (NONE, a[0], NONE)
        a = tuple(a) + (NONE,) * (3 - len(a))
        if a[1] == NONE and a[0] in (NONE, const(0)):
            return [(st, self.ip.cont(st, "iter", segs))]
        if all(isinstance(x, Const) for x in a) and all(s[0] == "one" for s in segs):
            return [(st, self.ip.cont(st, "iter", segs[a[0].v:a[1].v:a[2].v]))]
        if self._infinite(segs):
            d = sym("islice", Doc("iter", self.freeze_segs(st, segs)), a, typ="iter")
            t = self._items_typ(segs)
            self.etype[d] = (t, t, None, None)
            return [(st, self.ip.cont(st, "iter", (("base", d),)))]
        r = self.ip.cont(st, "list", segs)
        return self.getslice(st, r, *a)

    def f_itertools_starmap(self, st, args, kw, node):
        ip = self.ip
        return self.collect(st, args[1], lambda s, v: [
            (t, r if isinstance(r, Raise) else [r]) for t, r in ip.call(s, args[0], list(v.items) if isinstance(v, Tup) else [v], {})
        ], self.key_of(node, "starmap"))

    def f_itertools_takewhile(self, st, args, kw, node):
        k, segs = self.iter_view(st, args[1])
        self.ip.unk("takewhile")
        return [(st, self.ip.cont(st, "iter", tuple(s if s[0] != "star" else s[:3] + (("takewhile",),) for s in segs or ())))]

    def f_functools_partial(self, st, args, kw, node):
        return [(st, Partial(args[0], args[1:], tuple(kw.items())))]

    def f_functools_reduce(self, st, args, kw, node):
        ip = self.ip
        f, it = args[0], args[1]
        k, segs = self.iter_view(st, it)
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        segs = self.as_list_segs(k, segs)
        fid = ip.newframe(None, None)
        if len(args) > 2:
            st.frames[fid] = {"acc": args[2]}
        else:
            if not segs or segs[0][0] != "one":
                return [(st, sym("reduce", self.freeze(st, f), Doc("list", self.freeze_segs(st, segs))))]
            st.frames[fid] = {"acc": segs[0][2]}
            segs = segs[1:]

        def one(s, v):
            res = []
            for s2, r in ip.call(s, f, [s.frames[fid]["acc"], v], {}):
                if isinstance(r, Raise):
                    res.append((s2, r))
                else:
                    s2.set(fid, "acc", r)
                    res.append((s2, NEXT))
            return res

        ip.finfo[fid] = (None, None, None, None)
        res = []
        for s, sig in ip.iter_segs(st, "list", segs, one, self.key_of(node, "reduce")):
            if isinstance(sig, Raise):
                res.append((s, sig))
            else:
                v = s.frames[fid]["acc"]
                res.append((s, v))
        return res

    def f_functools_lru_cache(self, st, args, kw, node):
        if args and isinstance(args[0], Func):
            self.ip.cached_fns.add(args[0])
            return [(st, args[0])]
        return [(st, Partial(lib("functools.lru_cache"), args, tuple(kw.items())))]

    f_functools_cache = f_functools_lru_cache

    def f_functools_wraps(self, st, args, kw, node):
        return [(st, Partial(lib("functools.wraps"), args, ()))]

    def f_operator_attrgetter(self, st, args, kw, node):
        return [(st, Partial(lib("wga.attrget"), args, ()))]

    def f_wga_attrget(self, st, args, kw, node):
        return self.f_getattr(st, [args[-1], args[0]], {}, node)

    def f_operator_itemgetter(self, st, args, kw, node):
        return [(st, Partial(lib("wga.itemget"), args, ()))]

    def f_wga_itemget(self, st, args, kw, node):
        return self.getitem(st, args[-1], args[0])

    def f_operator_methodcaller(self, st, args, kw, node):
        return [(st, Partial(lib("wga.methodcall"), args, tuple(kw.items())))]

    def f_wga_methodcall(self, st, args, kw, node):
        res = []
        for s, m in self.getattr(st, args[-1], args[0].v):
            res.extend([(s, m)] if isinstance(m, Raise) else self.ip.call(s, m, args[1:-1], kw))
        return res

    # ---------------------------------------------------------------- regexes
    def f_re_compile(self, st, args, kw, node):
        flags = args[1] if len(args) > 1 else kw.get("flags", const(0))
        p = args[0]
        if isinstance(p, RegexV):
            return [(st, p)]
        R = self.regex_of(p, flags)
        if R is None:
            return [(st, sym("dynre", self.freeze(st, p), typ="regex"))]
        try:
            re.compile(R.pattern, R.flags)
        except re.error:
            return [self.ip.raise_(st, "re.error")]
        return [(st, R)]

    def f_re_escape(self, st, args, kw, node):
        if isinstance(args[0], Const):
            return [(st, const(re.escape(args[0].v)))]
        return [(st, sym("reescape", args[0], typ="str"))]

    def _re(self, name, npos):
        def f(st, args, kw, node):
            kw = dict(kw)
            flags = kw.pop("flags", None)
            args = list(args)
            pat_ = args.pop(0) if args else kw.pop("pattern")
            if flags is None and len(args) >= npos:
                flags = args[npos - 1]
                args = args[: npos - 1]
            R = self.regex_of(pat_, flags or const(0))
            return self.re_call(st, name, R, args, kw, node)

        return f

    def __getattr__(self, n):
        if n.startswith("f_re_"):
            name = n[5:]
            if name in ("search", "match", "fullmatch", "finditer", "findall"):
                return self._re(name, 2)
            if name == "split":
                return self._re(name, 3)
            if name in ("sub", "subn"):
                return self._re(name, 4)
        return super().__getattr__(n)

    # ------------------------------------------------------------------ json
    def f_json_dumps(self, st, args, kw, node):
        return self.dumps(st, args[0] if args else kw.get("obj"), {k: v for k, v in kw.items() if k != "obj"})

    def f_json_dump(self, st, args, kw, node):
        """Writes piece by piece: what can not be written out is noticed half way."""
        ip = self.ip
        fp = args[1] if len(args) > 1 else kw.get("fp")
        obj = args[0] if args else kw.get("obj")
        o = st.heap.get(fp.addr) if isinstance(fp, Ref) else None
        if not isinstance(o, FH):
            return [(st, ip.unk("json.dump to something else"))]
        res = []
        for s, t in self.dumps(st, obj, {k: v for k, v in kw.items() if k not in ("obj", "fp")}):
            if isinstance(t, Raise):
                s = s.fork()
                self.write_text(s, fp, s.heap[fp.addr], sym("partialjson", self.freeze(s, obj), typ="str"))
                res.append((s, t))
            else:
                s = s.fork()
                if self.write_text(s, fp, s.heap[fp.addr], t) is False:
                    res.append(ip.raise_(s, "OSError"))
                else:
                    res.append((s, NONE))
        return res

    def f_json_loads(self, st, args, kw, node):
        t = args[0]
        if t == NONE:
            return [self.ip.raise_(st, "TypeError", cause=("none",))]
        return self._loads(st, t, self._path_of_text(t), kw)

    def _path_of_text(self, t):
        if isinstance(t, Sym) and t.op == "content":
            return t.args[0]
        return None

    def _loads(self, st, t, path, kw):
        hooks = [k for k in kw if k in ("object_hook", "object_pairs_hook", "parse_int", "parse_float", "parse_constant", "cls")]
        outs = self.loads(st, t, path)
        if hooks:
            return [(s, v if isinstance(v, Raise) else self.ip.unk("json hooks", self.freeze(s, v))) for s, v in outs]
        return outs

    def f_json_load(self, st, args, kw, node):
        fp = args[0] if args else kw.get("fp")
        o = st.heap.get(fp.addr) if isinstance(fp, Ref) else None
        if not isinstance(o, FH):
            return [(st, self.ip.unk("json.load from something else"))]
        st = st.fork()
        t = self.read_text(st, fp, o)
        return self._loads(st, t, o.path, kw)

    def f_ast_literal_eval(self, st, args, kw, node):
        ip = self.ip
        x = args[0]
        if isinstance(x, Const):
            try:
                return [(st, self.from_py(st, ast.literal_eval(x.v)))]
            except (ValueError, SyntaxError) as e:
                return [ip.raise_(st, type(e).__name__)]
        if not istext_(x):
            return [ip.raise_(st, "ValueError")]
        typ = "list" if self.bracketed(st, x) else "any"
        v = sym("leval", x, typ=typ)
        res = [(st, v)]
        for e in ("SyntaxError", "ValueError"):
            res.append(ip.raise_(st.fork(), e, cause=(v,)))
        return res

    def bracketed(self, st, x):
        """Is the text certainly `[...]`?"""
        from . import strlang

        y = x
        while isinstance(y, Sym) and (y.op == "replace" and all(isinstance(a, Const) and a.v[:1] not in ("[", "]", "") for a in y.args[1:3]) or y.op == "sub"):
            if y.op == "sub":
                # what is replaced does not contain brackets at the ends
                y = y.args[2]
            else:
                y = y.args[0]
        root, chain = strlang.root_of(y)
        if not isinstance(root, Sym):
            return False
        try:
            lang, _ = strlang.lang_of_facts(st.facts, root)
            want = rx.concat(rx.lit("["), rx.any_star(), rx.lit("]"))
            want = strlang.pre(want, chain)
            return rx.witness(rx.AND(lang, rx.NOT(want)), limit=60000) is None
        except rx.Unsupported:
            return False

    # ----------------------------------------------------------------- times
    def _now(self, st, typ):
        st = st.fork()
        k = sum(1 for e in st.effects if e[0] == "now")
        v = sym("now", k, self.ip.phase, self.ip.ctx, self.ip.calls_id(), typ=typ)
        st.effect("now", v, self.ip.where())
        return [(st, v)]

    def f_datetime_datetime_now(self, st, args, kw, node):
        return self._now(st, "date")

    f_datetime_datetime_utcnow = f_datetime_datetime_today = f_datetime_now = f_datetime_datetime_now
    f_datetime_date_today = f_datetime_datetime_now

    def f_time_time(self, st, args, kw, node):
        return self._now(st, "float")

    f_time_time_ns = f_time_monotonic = f_time_perf_counter = f_time_time

    def f_time_sleep(self, st, args, kw, node):
        return [(st, NONE)]

    def f_datetime_datetime_timestamp(self, st, args, kw, node):
        return self.method(st, args[0], "timestamp", [], {}, node)

    def f_datetime_timedelta(self, st, args, kw, node):
        return [(st, sym("timedelta", *[self.freeze(st, a) for a in args], typ="inst"))]

    def f_datetime_datetime_fromtimestamp(self, st, args, kw, node):
        return [(st, sym("fromtimestamp", *[self.freeze(st, a) for a in args], typ="date"))]

    # ------------------------------------------------------------------ copy
    def f_copy_copy(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap[v.addr]
            if isinstance(o, Cont):
                return [(st, self.ip.cont(st, o.kind, o.segs, o.extra))]
            if isinstance(o, Inst):
                return [(st, self.ip.alloc(st, Inst(o.cls, dict(o.fields), o.extra)))]
        return [(st, v)]

    def deep(self, st, v, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            o = st.heap[v.addr]
            r = self.ip.alloc(st, o)
            memo[v.addr] = r
            if isinstance(o, Cont):
                st.heap[r.addr] = Cont(o.kind, self._deep_segs(st, o.segs, memo), o.extra)
            elif isinstance(o, Inst):
                st.heap[r.addr] = Inst(o.cls, {k: self.deep(st, x, memo) for k, x in o.fields.items()}, o.extra)
            return r
        if isinstance(v, Tup):
            return Tup(self.deep(st, x, memo) for x in v.items)
        return v

    def _deep_segs(self, st, segs, memo):
        out = []
        for s in segs:
            if s[0] in ("one", "upd", "kid"):
                out.append((s[0],) + tuple(self.deep(st, x, memo) if isinstance(x, Val) else x for x in s[1:]))
            elif s[0] == "star":
                out.append(("star", s[1], tuple((f, self._deep_segs(st, x, memo)) for f, x in s[2])) + s[3:])
            elif s[0] == "alt":
                out.append(("alt", tuple((f, self._deep_segs(st, x, memo)) for f, x in s[1])))
            elif s[0] == "perm":
                out.append(("perm", s[1], self._deep_segs(st, s[2], memo)))
            else:
                out.append(s)
        return tuple(out)

    def f_copy_deepcopy(self, st, args, kw, node):
        return [(st, self.deep(st, args[0]))]

    # --------------------------------------------------------------- pydantic
    def f_pydantic_Field(self, st, args, kw, node):
        return [(st, Partial(lib("pydantic.Field"), args, tuple(kw.items())))]

    f_pydantic_fields_Field = f_pydantic_Field

    def f_pydantic_root_validator(self, st, args, kw, node):
        return [(st, Partial(lib("pydantic.root_validator"), args, tuple(kw.items())))]

    def f_pydantic_validator(self, st, args, kw, node):
        return [(st, Partial(lib("pydantic.validator"), args, tuple(kw.items())))]

    def f_pydantic_constr(self, st, args, kw, node):
        return [(st, Partial(lib("pydantic.constr"), args, tuple(kw.items())))]

    def f_pydantic_PrivateAttr(self, st, args, kw, node):
        return [(st, kw.get("default", args[0] if args else NONE))]

    def f_dataclasses_dataclass(self, st, args, kw, node):
        if args and isinstance(args[0], ClassV):
            args[0].kind = args[0].kind or "dataclass"
            return [(st, args[0])]
        return [(st, Partial(lib("dataclasses.dataclass"), (), tuple(kw.items())))]

    def f_dataclasses_field(self, st, args, kw, node):
        return [(st, Partial(lib("pydantic.Field"), args, tuple(kw.items())))]

    def f_dataclasses_asdict(self, st, args, kw, node):
        return self.ip.pyd.to_dict(st, args[0], {})

    def f_dataclasses_replace(self, st, args, kw, node):
        o = st.heap[args[0].addr]
        return [(st, self.ip.alloc(st, Inst(o.cls, {**o.fields, **kw}, o.extra)))]

    def f_enum_auto(self, st, args, kw, node):
        return [(st, sym("enumauto", self.ip.uniq()))]

    f_enum_unique = lambda self, st, args, kw, node: [(st, args[0])]

    # ------------------------------------------------------------- contextlib
    def f_contextlib_contextmanager(self, st, args, kw, node):
        if args and isinstance(args[0], Func):
            return [(st, Partial(lib("ctxgen"), args, tuple(kw.items())))]
        return [(st, Partial(lib("contextlib.contextmanager"), args, tuple(kw.items())))]

    def f_contextlib_suppress(self, st, args, kw, node):
        return [(st, Partial(lib("contextlib.suppress"), args, ()))]

    def f_contextlib_nullcontext(self, st, args, kw, node):
        return [(st, args[0] if args else NONE)]

    f_contextlib_closing = f_contextlib_nullcontext

    # ------------------------------------------------------------------ paths
    def f_pathlib_Path(self, st, args, kw, node):
        if not args:
            return [(st, sym("path", const("."), typ="path"))]
        if args[0] == NONE:
            return [self.ip.raise_(st, "TypeError", cause=("none",))]
        p = mk_path_(args[0])
        for a in args[1:]:
            p = join_path_(p, a)
        return [(st, p)]

    f_pathlib_PurePath = f_pathlib_PosixPath = f_pathlib_Path

    def f_pathlib_Path_cwd(self, st, args, kw, node):
        return [(st, sym("path", const("."), typ="path"))]

    f_pathlib_Path_home = lambda self, st, args, kw, node: [(st, sym("path", const("~"), typ="path"))]

    def _p(self, st, v):
        return self.pathof(st, v)

    def f_os_path_join(self, st, args, kw, node):
        if any(a == NONE for a in args):
            return [self.ip.raise_(st, "TypeError", cause=("none",))]
        p = mk_path_(args[0])
        for a in args[1:]:
            p = join_path_(p, a)
        return [(st, sym("pathstr", p, typ="str"))]

    def f_os_fspath(self, st, args, kw, node):
        return [(st, self.to_str(st, args[0]))]

    def f_os_path_exists(self, st, args, kw, node):
        return self.path_exists(st, self._p(st, args[0]), "pexists")

    def f_os_path_isfile(self, st, args, kw, node):
        return self.path_exists(st, self._p(st, args[0]), "isfile")

    def f_os_path_isdir(self, st, args, kw, node):
        return self.path_exists(st, self._p(st, args[0]), "isdir")

    f_os_path_lexists = f_os_path_exists

    def f_os_path_basename(self, st, args, kw, node):
        p = self._p(st, args[0])
        return [(st, p.args[1] if p.op == "join" else sym("pathattr", p, "name", typ="str"))]

    def f_os_path_dirname(self, st, args, kw, node):
        if isinstance(args[0], Sym) and args[0].op == "file":
            return [(st, sym("pathstr", sym("parent", sym("path", args[0], typ="path"), typ="path"), typ="str"))]
        p = self._p(st, args[0])
        q = p.args[0] if p.op == "join" else sym("parent", p, typ="path")
        return [(st, sym("pathstr", q, typ="str"))]

    def f_os_path_abspath(self, st, args, kw, node):
        return [(st, sym("pathstr", sym("resolve", self._p(st, args[0]), typ="path"), typ="str"))]

    f_os_path_realpath = f_os_path_abspath

    def f_os_path_normpath(self, st, args, kw, node):
        return [(st, sym("pathstr", sym("resolve", self._p(st, args[0]), typ="path"), typ="str"))]

    def f_os_path_getsize(self, st, args, kw, node):
        return [(st, sym("filesize", self._p(st, args[0]), typ="int"))]

    def f_os_getcwd(self, st, args, kw, node):
        return [(st, const("."))]

    def f_os_mkdir(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "mkdir", [], kw, node)

    def f_os_makedirs(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "mkdir", [], {**kw, "parents": TRUE}, node)

    def f_os_remove(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "unlink", [], kw, node)

    f_os_unlink = f_os_remove

    def f_os_rmdir(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "rmdir", [], kw, node)

    f_os_removedirs = f_os_rmdir

    def f_shutil_rmtree(self, st, args, kw, node):
        p = self._p(st, args[0])
        st = st.fork()
        st.effect("rmtree", p, self.ip.where())
        return [(st, NONE)]

    def f_os_rename(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "replace", [args[1]], kw, node)

    f_os_replace = f_shutil_move = f_os_rename

    def f_shutil_copy(self, st, args, kw, node):
        p, q = self._p(st, args[0]), self._p(st, args[1])
        st = st.fork()
        st.files[q] = self.content(st, p)
        st.effect("read", p, self.content(st, p), self.ip.where())
        st.effect("write", q, sym("copyof", p), st.files[q], self.ip.where())
        return [(st, args[1])]

    f_shutil_copyfile = f_shutil_copy2 = f_shutil_copy

    def f_os_listdir(self, st, args, kw, node):
        p = self._p(st, args[0]) if args else sym("path", const("."), typ="path")
        res = []
        for s, v in self.method(st, p, "iterdir", [], {}, node):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            o = s.heap[v.addr]
            src = o.segs[0][1]
            e = self.elem_of(src, "list")
            seg = ("one", None, sym("pathattr", e, "name", typ="str"))
            res.append((s, self.ip.cont(s, "list", (("star", src, ((frozenset(), (seg,)),), False),))))
        return res

    def f_os_scandir(self, st, args, kw, node):
        return self.method(st, self._p(st, args[0]), "iterdir", [], {}, node)

    def f_glob_glob(self, st, args, kw, node):
        p = self._p(st, args[0])
        st = st.fork()
        src = sym("glob", p, typ="list")
        st.effect("listdir", p, self.ip.where())
        self.etype[src] = ("str", "str", None, None)
        return [(st, self.ip.cont(st, "list", (("base", src),)))]

    f_glob_iglob = f_glob_glob

    def path_exists(self, st, p, what):
        if p is None:
            return [self.ip.raise_(st, "TypeError")]
        c = st.files.get(p)
        if c is not None and what != "isdir":
            return [(st, const(c[0] != "absent"))]
        if c is not None and what == "isdir":
            return [(st, FALSE)]
        if what == "pexists":
            for w in ("isfile", "isdir"):
                if quick(st.facts, sym(w, p, typ="bool")):
                    return [(st, TRUE)]
        else:
            pe = quick(st.facts, sym("pexists", p, typ="bool"))
            if pe is False:
                return [(st, FALSE)]
            other = quick(st.facts, sym("isdir" if what == "isfile" else "isfile", p, typ="bool"))
            if other:
                return [(st, FALSE)]
        if what == "pexists":
            # a file of that name
            d = decide(st, sym("isfile", p, typ="bool"))
            if d is False and self._is_file_path(p):
                return [(st, FALSE)]
        return [(st, self.atom(st, sym(what, p, typ="bool")))]

    def _is_file_path(self, p):
        if p.op != "join":
            return False
        c = p.args[1]
        t = c.args[0][-1] if isinstance(c, Sym) and c.op == "fstr" else c
        return isinstance(t, Const) and isinstance(t.v, str) and "." in t.v


def istext_(v):
    return isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Sym) and v.typ in ("str", "ostr", "any")


def mk_path_(v):
    from .lib import mk_path

    return mk_path(v)


def join_path_(a, b):
    from .lib import join_path

    return join_path(a, b)
