"""Methods of the values of the language and of the libraries."""
import re

from . import rx, strlang
from .calls import PYEXC, _excname
from .interp import BREAK, CONT, NEXT, Raise, Ret, fstr
from .state import *
from .terms import *

STR_METHODS = {n for n in dir(str) if not n.startswith("_")}
LIST_METHODS = {n for n in dir(list) if not n.startswith("_")}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("_")}
SET_METHODS = {n for n in dir(set) if not n.startswith("_")}
PATH_METHODS = {
    "joinpath", "exists", "is_file", "is_dir", "mkdir", "touch", "unlink", "rmdir", "iterdir", "glob", "rglob",
    "read_text", "write_text", "read_bytes", "write_bytes", "open", "rename", "replace", "resolve", "absolute",
    "with_name", "with_suffix", "with_stem", "relative_to", "is_relative_to", "as_posix", "stat", "expanduser",
    "is_absolute", "match", "samefile", "is_symlink", "chmod",
}
MATCH_METHODS = {"group", "groups", "groupdict", "start", "end", "span", "expand"}
ISX = ("isupper", "islower", "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isidentifier",
       "isascii", "istitle", "isprintable")


class Methods:
    def method(self, st, x, name, args, kw, node=None):
        """x.name(*args, **kw)"""
        if isinstance(x, Phi):
            res = []
            for s, y in self.ip.resolve(st, x):
                for s2, f in self.getattr(s, y, name):
                    res.extend([(s2, f)] if isinstance(f, Raise) else self.ip.call(s2, f, args, kw, node))
            return res
        return self._resolved(st, args, kw, lambda s, a, k: self._method(s, x, name, a, k, node))

    def _method(self, st, x, name, args, kw, node):
        ip = self.ip
        if name.startswith("super."):
            return self.m_super(st, x, name[6:], args, kw)
        if isinstance(x, Const):
            if isinstance(x.v, str):
                return self.m_str(st, x, name, args, kw, node)
            return self.m_const(st, x, name, args, kw)
        if isinstance(x, RegexV):
            return self.re_call(st, name, x, args, kw, node)
        if isinstance(x, ClassV):
            return self.m_class(st, x, name, args, kw)
        if isinstance(x, EnumV):
            return [(st, ip.unk("enum method " + name))]
        if isinstance(x, Ref):
            o = st.heap.get(x.addr)
            if isinstance(o, Cont):
                return self.m_cont(st, x, o.kind, name, args, kw, node)
            if isinstance(o, FH):
                return self.m_file(st, x, o, name, args, kw)
            if isinstance(o, Inst):
                return self.m_inst(st, x, o, name, args, kw)
        if isinstance(x, (Doc, Tup)):
            k, segs = self.view(st, x)
            if segs is not None:
                return self.m_cont(st, x, k, name, args, kw, node)
        if isinstance(x, Sym):
            t = x.typ
            if t == "match" or x.op in ("search", "match", "fullmatch"):
                return self.m_match(st, x, name, args, kw)
            if t in ("str", "ostr"):
                return self.m_str(st, x, name, args, kw, node)
            if t == "path":
                return self.m_path(st, x, name, args, kw, node)
            if t == "date":
                return self.m_date(st, x, name, args, kw)
            if t in ("list", "dict", "set", "tuple", "iter"):
                return self.m_symcont(st, x, t, name, args, kw, node)
            if t == "fh":
                return [(st, ip.unk("file method " + name))]
            if x in ip.specs and name in ("dict", "copy", "json"):
                return self.m_model(st, x, name, args, kw)
            # of unknown kind: by the name of the method
            if t in ("any", "content", "json", "inst"):
                if name in DICT_METHODS and name not in LIST_METHODS and name not in SET_METHODS:
                    return self.m_symcont(st, x, "dict", name, args, kw, node)
                if name in ("get", "items", "keys", "values"):
                    return self.m_symcont(st, x, "dict", name, args, kw, node)
                if name in STR_METHODS and name not in LIST_METHODS:
                    return self.m_str(st, x, name, args, kw, node)
                if name in ("append", "extend", "insert", "sort"):
                    return self.m_symcont(st, x, "list", name, args, kw, node)
                if name in ("add", "union", "intersection", "difference", "issubset", "issuperset"):
                    return self.m_symcont(st, x, "set", name, args, kw, node)
                if name in MATCH_METHODS:
                    return self.m_match(st, x, name, args, kw)
                if name in PATH_METHODS:
                    return self.m_path(st, x, name, args, kw, node)
                if name == "timestamp":
                    return self.m_date(st, x, name, args, kw)
                return [(st, ip.unk("method " + name, x, *[self.freeze(st, a) for a in args]))]
            if t in ("int", "float", "bool", "num"):
                if name == "is_integer":
                    return [(st, sym("is_integer", x, typ="bool"))]
                return [(st, ip.unk("number method " + name, x))]
        return [(st, ip.unk("method " + name, *[self.freeze(st, a) for a in [x] + args]))]

    # ---------------------------------------------------------------- super()
    def m_super(self, st, x, name, args, kw):
        ip = self.ip
        o = st.heap.get(x.addr) if isinstance(x, Ref) else None
        if isinstance(o, Inst) and name == "__init__":
            k = o.cls.kind
            if k == "exc":
                st = st.fork()
                st.heap[x.addr] = st.heap[x.addr].with_("args", Tup(args))
                return [(st, NONE)]
            if k == "model":
                return ip.pyd.init_model(st, x, o.cls, kw)
            return [(st, NONE)]
        if isinstance(o, Inst) and name in ("dict", "json", "copy"):
            return self.m_model(st, x, name, args, kw, plain=True)
        if name == "__setattr__" and isinstance(o, Inst) and len(args) == 2 and isinstance(args[0], Const):
            return self.setattr(st, x, args[0].v, args[1])
        if name in ("__init_subclass__", "__init__", "__enter__", "__exit__", "__post_init__"):
            return [(st, NONE)]
        return [(st, ip.unk("super()." + name))]

    # ------------------------------------------------------------------ texts
    def m_const(self, st, x, name, args, kw):
        if all(isinstance(a, Const) for a in args) and not kw and hasattr(x.v, name):
            return self.fold(st, lambda: getattr(x.v, name)(*[a.v for a in args]))
        return [(st, self.ip.unk("method " + name, x))]

    def m_str(self, st, x, name, args, kw, node):
        ip = self.ip
        if isinstance(x, Const) and name not in ("join", "format") and all(isinstance(a, Const) for a in args) and all(isinstance(v, Const) for v in kw.values()):
            f = getattr(x.v, name, None)
            if f is None:
                return [ip.raise_(st, "AttributeError", name)]
            return self.fold(st, lambda: f(*[a.v for a in args], **{k: v.v for k, v in kw.items()}))
        if any(isinstance(a, Const) and a.v is None for a in args) and name not in ("strip", "lstrip", "rstrip", "split", "rsplit"):
            return [ip.raise_(st, "TypeError", cause=("none",))]
        g = getattr(self, "s_" + name, None)
        if name in ISX:
            return [(st, self.atom(st, sym(name, x, typ="bool")))]
        if g is not None:
            return g(st, x, args, kw, node)
        return [(st, sym("strmeth", name, x, *[self.freeze(st, a) for a in args], typ="str"))]

    def _strip(op):
        def f(self, st, x, args, kw, node):
            c = args[0] if args else kw.get("chars", NONE)
            if isinstance(x, Sym) and x.op == op and x.args[1] == c:
                return [(st, x)]
            if isinstance(c, Const) and (c.v is None or isinstance(c.v, str)) and strlang.keeps(x, (op, c.v)):
                return [(st, x)]
            return [(st, sym(op, x, c, typ="str"))]

        return f

    s_strip = _strip("strip")
    s_lstrip = _strip("lstrip")
    s_rstrip = _strip("rstrip")

    def _case(op):
        def f(self, st, x, args, kw, node):
            return [(st, x if isinstance(x, Sym) and x.op == op or strlang.keeps(x, (op,)) else sym(op, x, typ="str"))]

        return f

    s_lower = _case("lower")
    s_upper = _case("upper")
    s_casefold = _case("casefold")

    def s_split(self, st, x, args, kw, node):
        sep = args[0] if args else kw.get("sep", NONE)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", const(-1))
        return [(st, self.ip.cont(st, "list", (("base", sym("split", x, sep, mx, typ="list")),)))]

    def s_rsplit(self, st, x, args, kw, node):
        sep = args[0] if args else kw.get("sep", NONE)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", const(-1))
        if mx == const(-1):
            return self.s_split(st, x, args, kw, node)
        return [(st, self.ip.cont(st, "list", (("base", sym("rsplit", x, sep, mx, typ="list")),)))]

    def s_splitlines(self, st, x, args, kw, node):
        return [(st, self.ip.cont(st, "list", (("base", sym("splitlines", x, typ="list")),)))]

    def s_replace(self, st, x, args, kw, node):
        if len(args) >= 2 and all(isinstance(y, Const) and isinstance(y.v, str) for y in args[:2]) and strlang.keeps(x, ("replace", args[0].v, args[1].v)):
            return [(st, x)]
        return [(st, sym("replace", x, *args, typ="str"))]

    def _ends(op):
        def f(self, st, x, args, kw, node):
            a = self.freeze(st, args[0])
            if isinstance(x, Sym) and x.op == "fstr" and isinstance(a, Const):
                p = x.args[0][0 if op == "startswith" else -1]
                if isinstance(p, Const) and len(p.v) >= len(a.v):
                    return [(st, const(getattr(p.v, op)(a.v)))]
            return [(st, self.atom(st, sym(op, x, a, typ="bool")))]

        return f

    s_startswith = _ends("startswith")
    s_endswith = _ends("endswith")

    def s_count(self, st, x, args, kw, node):
        if isinstance(args[0], Const) and len(args[0].v) == 1 and len(args) == 1:
            ch = args[0].v
            return [(st, sym("ccount", x, rx.mask_of(lambda c: c == ch), typ="int"))]
        return [(st, sym("count", x, *args, typ="int"))]

    def s_find(self, st, x, args, kw, node):
        return [(st, sym("find", x, *args, typ="int"))]

    def s_rfind(self, st, x, args, kw, node):
        return [(st, sym("rfind", x, *args, typ="int"))]

    def _index(op):
        def f(self, st, x, args, kw, node):
            a = sym("contains", x, args[0], typ="bool")
            return self.seq(self.guard(st, a, True, "ValueError", (x,)), lambda s: [(s, sym(op, x, *args, typ="int"))])

        return f

    s_index = _index("find")
    s_rindex = _index("rfind")

    def s_partition(self, st, x, args, kw, node):
        a, b, c = (sym("partition", x, args[0], i, typ="str") for i in range(3))
        return [(st, Tup((a, b, c)))]

    def s_rpartition(self, st, x, args, kw, node):
        return [(st, Tup(sym("rpartition", x, args[0], i, typ="str") for i in range(3)))]

    def s_join(self, st, x, args, kw, node):
        ip = self.ip
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [ip.raise_(st, "TypeError")]
        segs = self._conv("list", k, segs)
        if all(s[0] == "one" for s in segs):
            bad = [s[2] for s in segs if isinstance(s[2], Const) and not isinstance(s[2].v, str) or isinstance(s[2], (Ref, Tup, Doc, EnumV))]
            if bad:
                return [ip.raise_(st, "TypeError", cause=(bad[0],))]
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(x)
                parts.append(self.to_str(st, s[2]) if isinstance(s[2], Sym) and s[2].typ in ("str", "ostr", "any") else s[2])
            return [(st, fstr(parts) if parts else const(""))]
        return [(st, sym("joined", x, Doc("list", self.freeze_segs(st, tuple(segs))), typ="str"))]

    def s_format(self, st, x, args, kw, node):
        ip = self.ip
        if isinstance(x, Const):
            import string

            parts = []
            n = 0
            ok = True
            for lit, field, spec, conv in string.Formatter().parse(x.v):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    field = str(n)
                    n += 1
                v = args[int(field)] if field.isdigit() and int(field) < len(args) else kw.get(field)
                if conv not in (None, "s") or spec and (v is None or conv or not self.plain_spec(st, v, spec)):
                    ok = False
                    break
                if field.isdigit() and int(field) < len(args):
                    parts.append(self.to_str(st, args[int(field)]))
                elif field in kw:
                    parts.append(self.to_str(st, kw[field]))
                else:
                    ok = False
                    break
            if ok:
                return [(st, fstr(parts) if parts else const(""))]
        return [(st, sym("formatted", x, *[self.freeze(st, a) for a in args], typ="str"))]

    def s_format_map(self, st, x, args, kw, node):
        return [(st, sym("formatted", x, self.freeze(st, args[0]), typ="str"))]

    def s_encode(self, st, x, args, kw, node):
        return [(st, x)]

    def _rm(op, test):
        def f(self, st, x, args, kw, node):
            return [(st, sym(op, x, args[0], typ="str"))]

        return f

    s_removeprefix = _rm("removeprefix", "startswith")
    s_removesuffix = _rm("removesuffix", "endswith")

    # ------------------------------------------------------------- containers
    def m_symcont(self, st, x, kind, name, args, kw, node):
        """Methods of an unknown container: reads through a view, writes as effects."""
        MUT = {
            "list": {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"},
            "dict": {"update", "pop", "popitem", "setdefault", "clear"},
            "set": {"add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update"},
        }.get(kind, ())
        if name in MUT:
            st = st.fork()
            st.effect("mutate", x, name, tuple(self.freeze(st, a) for a in args), self.ip.where())
            self.touched(st, x)
            if name in ("pop", "popitem", "setdefault"):
                return [(st, self.ip.unk("mutation of an unknown object", x))]
            return [(st, NONE)]
        return self.m_cont(st, x, kind, name, args, kw, node)

    def m_cont(self, st, x, kind, name, args, kw, node):
        f = getattr(self, {"list": "l_", "dict": "d_", "set": "c_", "tuple": "l_", "iter": "i_"}[kind] + name, None)
        if f is None:
            if name.startswith("__") and name.endswith("__"):
                alt = {"__len__": "len", "__contains__": None, "__getitem__": None}
                if name == "__len__":
                    return self.length(st, x)
                if name == "__contains__":
                    return self.contains(st, x, args[0])
                if name == "__getitem__":
                    return self.getitem(st, x, args[0])
                if name == "__setitem__":
                    return self.setitem(st, x, args[0], args[1])
            real = {"list": list, "dict": dict, "set": set, "tuple": tuple}.get(kind)
            if real is not None and not hasattr(real, name):
                return [self.ip.raise_(st, "AttributeError", name)]
            return [(st, self.ip.unk(kind + " method " + name, *[self.freeze(st, a) for a in args]))]
        return f(st, x, args, kw, node)

    def _set_segs(self, st, x, segs):
        st = st.fork()
        self.mark_global(st, x)
        o = st.heap[x.addr]
        st.heap[x.addr] = Cont(o.kind, tuple(segs), o.extra)
        return st

    def _segs(self, st, x):
        return self.view(st, x)[1]

    # lists
    def l_append(self, st, x, args, kw, node):
        return [(self._set_segs(st, x, self._segs(st, x) + (("one", None, args[0]),)), NONE)]

    def l_extend(self, st, x, args, kw, node):
        a = args[0]
        k, segs = self.iter_view(st, a)
        if segs is None:
            return [self.ip.raise_(st, "TypeError", cause=("none",))]
        new = tuple(self._conv("list", k, segs))

        def go(s):
            return [(self._set_segs(s, x, self._segs(s, x) + new), NONE)]

        if isinstance(a, Sym) and a.typ in ("any", "ostr"):
            return self.seq(self.notnone(st, a, "TypeError"), go)
        return go(st)

    l_extendleft = l_extend

    def l_appendleft(self, st, x, args, kw, node):
        return [(self._set_segs(st, x, (("one", None, args[0]),) + self._segs(st, x)), NONE)]

    def l_insert(self, st, x, args, kw, node):
        i, v = args
        segs = self._segs(st, x)
        if i == const(0):
            return [(self._set_segs(st, x, (("one", None, v),) + segs), NONE)]
        if isinstance(i, Const) and all(s[0] == "one" for s in segs):
            l = list(segs)
            l.insert(i.v, ("one", None, v))
            return [(self._set_segs(st, x, l), NONE)]
        return [(self._set_segs(st, x, (("perm", "insert", segs + (("one", None, v),)),)), NONE)]

    def l_pop(self, st, x, args, kw, node):
        i = args[0] if args else const(-1)
        segs = self._segs(st, x)
        if not segs:
            return [self.ip.raise_(st, "IndexError")]
        if isinstance(i, Const) and i.v == -1 and segs[-1][0] == "one":
            return [(self._set_segs(st, x, segs[:-1]), segs[-1][2])]
        if isinstance(i, Const) and i.v == 0 and segs[0][0] == "one":
            return [(self._set_segs(st, x, segs[1:]), segs[0][2])]
        if isinstance(i, Const) and all(s[0] == "one" for s in segs):
            l = list(segs)
            try:
                v = l.pop(i.v)
            except IndexError:
                return [self.ip.raise_(st, "IndexError")]
            return [(self._set_segs(st, x, l), v[2])]
        res = []
        for s, v in self.list_get(st, x, "list", segs, i):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            cut = (const(1), None, None) if i == const(0) else (None, const(-1), None) if i == const(-1) else None
            if cut is None:
                self.ip.unk("list.pop")
                res.append((s, v))
                continue
            for s2, r in self.getslice(s, x, *cut):
                res.append((self._set_segs(s2, x, self._segs(s2, r)), v))
        return res

    def l_popleft(self, st, x, args, kw, node):
        return self.l_pop(st, x, [const(0)], kw, node)

    def l_remove(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        v = self.freeze(st, args[0])
        res = []
        if all(s[0] == "one" for s in segs):
            pend = [st]
            for i, sg in enumerate(segs):
                nxt = []
                for s in pend:
                    for s2, r in self.eq(s, sg[2], v):
                        for s3, b in self.ip.branch(s2, r):
                            if b is True:
                                res.append((self._set_segs(s3, x, segs[:i] + segs[i + 1:]), NONE))
                            else:
                                nxt.append(s3)
                pend = nxt
            return res + [self.ip.raise_(s, "ValueError", cause=(v,)) for s in pend]
        for s, r in self.contains(st, x, v):
            if isinstance(r, Raise):
                res.append((s, r))
                continue
            for s2, b in self.ip.branch(s, r):
                if b is True:
                    res.append((self._set_segs(s2, x, segs + (("del", v),)), NONE))
                else:
                    res.append(self.ip.raise_(s2, "ValueError", cause=(v,)))
        return res

    def l_index(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if all(s[0] == "one" and isinstance(s[2], (Const, EnumV)) for s in segs) and isinstance(args[0], (Const, EnumV)):
            for i, s in enumerate(segs):
                if s[2] == args[0]:
                    return [(st, const(i))]
            return [self.ip.raise_(st, "ValueError")]
        res = []
        for s, r in self.contains(st, x, args[0]):
            if isinstance(r, Raise):
                res.append((s, r))
                continue
            for s2, b in self.ip.branch(s, r):
                if b is True:
                    res.append((s2, sym("indexof", self.freeze(s2, x), self.freeze(s2, args[0]), typ="int")))
                else:
                    res.append(self.ip.raise_(s2, "ValueError"))
        return res

    def l_count(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if all(s[0] == "one" and isinstance(s[2], (Const, EnumV)) for s in segs) and isinstance(args[0], (Const, EnumV)):
            return [(st, const(sum(s[2] == args[0] for s in segs)))]
        if len(segs) <= 6 and all(s[0] in ("one", "alt") for s in segs) and all(y[0] == "one" for s in segs if s[0] == "alt" for _, z in s[1] for y in z):
            # one by one
            pend = [(st, 0)]
            res = []
            for s in segs:
                nxt = []
                for t, n in pend:
                    for f, sub in (s[1] if s[0] == "alt" else ((frozenset(), (s,)),)):
                        u = assume_all(t, f)
                        if u is None:
                            continue
                        if u is t:
                            u = t.fork()
                        cur = [(u, n)]
                        for y in sub:
                            new = []
                            for w, m in cur:
                                for w2, r in self.eq(w, y[2], args[0]):
                                    if isinstance(r, Raise):
                                        res.append((w2, r))
                                        continue
                                    for w3, b in self.ip.branch(w2, r):
                                        new.append((w3, m + bool(b)))
                            cur = new
                        nxt.extend(cur)
                pend = nxt
            return res + [(t, const(n)) for t, n in pend]
        return [(st, sym("count", self.freeze(st, x), self.freeze(st, args[0]), typ="int"))]

    def l_sort(self, st, x, args, kw, node):
        res = []
        for s, v in self.f_sorted(st, [x], kw, node):
            res.append((s, v) if isinstance(v, Raise) else (self._set_segs(s, x, self._segs(s, v)), NONE))
        return res

    def l_reverse(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if all(s[0] == "one" for s in segs):
            return [(self._set_segs(st, x, segs[::-1]), NONE)]
        return [(self._set_segs(st, x, (("perm", "reversed", segs),)), NONE)]

    def l_copy(self, st, x, args, kw, node):
        k, segs = self.view(st, x)
        return [(st, self.ip.cont(st, "list", segs))]

    def l_clear(self, st, x, args, kw, node):
        return [(self._set_segs(st, x, ()), NONE)]

    # dicts
    def d_get(self, st, x, args, kw, node):
        default = args[1] if len(args) > 1 else kw.get("default", NONE)
        segs = self._segs(st, x)
        k = self.freeze(st, args[0])
        if self.ip.merge and isinstance(k, Sym) and len(segs) > 1 and all(s[0] == "one" for s in segs):
            before, mark = st.fork(), self.ip.naddr
            res = self.dict_get(st, x, segs, k, lambda s: [(s, default)])
            return self.ip.merge_outcomes([r for r in res if not isinstance(r[1], Raise)], before, mark) + [r for r in res if isinstance(r[1], Raise)]
        return self.dict_get(st, x, segs, k, lambda s: [(s, default)])

    def _live(self, segs):
        """Entries as they are now: `upd` and `del` folded in where possible."""
        return segs

    def d_items(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        return [(st, self.ip.cont(st, "list", tuple(self.map_segs("dict", segs, lambda k, v: ("one", None, Tup((k, v)))))))]

    def d_keys(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if all(s[0] == "base" for s in segs):
            return [(st, self.ip.cont(st, "set", tuple(("star", s[1], ((frozenset(), (("one", sym("key", s[1], typ=self.key_typ(s[1])), None),)),), False) for s in segs)))]
        return [(st, self.ip.cont(st, "set", tuple(self.map_segs("dict", segs, lambda k, v: ("one", k, None)))))]

    def d_values(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        return [(st, self.ip.cont(st, "list", tuple(self.map_segs("dict", segs, lambda k, v: ("one", None, v)))))]

    def d_update(self, st, x, args, kw, node):
        ip = self.ip
        if args:
            a = args[0]
            k, segs = self.view(st, a)
            if segs is None and not isinstance(a, Ref):
                return [ip.raise_(st, "TypeError", cause=("none",))]
            if k != "dict":
                # pairs (an iterator is used up by the loop)
                def pair(s, v):
                    res = []
                    for s2, xs in self.unpack(s, v, 2, None):
                        if isinstance(xs, Raise):
                            res.append((s2, xs))
                            continue
                        for s3, r in self.setitem(s2.fork(), x, xs[0], xs[1]):
                            res.append((s3, r if isinstance(r, Raise) else NEXT))
                    return res

                outs = []
                for s, sig in ip.iterate(st, a, pair, self.key_of(node, "update")):
                    outs.append((s, sig if isinstance(sig, Raise) else NONE))
                return outs
            if isinstance(a, Sym) and a.typ == "any":
                return self.seq(self.notnone(st, a, "TypeError"), lambda s: self._merge(s, x, segs, kw))
            return self._merge(st, x, segs, kw)
        return self._merge(st, x, (), kw)

    def _merge(self, st, x, segs, kw):
        st = st.fork()
        self.mark_global(st, x)
        segs = tuple(segs) + tuple(("one", const(k), v) for k, v in kw.items())
        o = st.heap[x.addr]
        if not o.segs:
            st.heap[x.addr] = Cont(o.kind, segs, o.extra)
            return [(st, NONE)]
        for s in segs:
            if s[0] in ("one", "kid", "upd"):
                self.put(st, x, s[1], s[2])
            else:
                o = st.heap[x.addr]
                st.heap[x.addr] = Cont(o.kind, o.segs + (s,), o.extra)
        return [(st, NONE)]

    def d_pop(self, st, x, args, kw, node):
        return self.dict_pop(st.fork(), x, args[0], args[1] if len(args) > 1 else kw.get("default"))

    def d_popitem(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if segs and segs[-1][0] == "one":
            return [(self._set_segs(st, x, segs[:-1]), Tup((segs[-1][1], segs[-1][2])))]
        if not segs:
            return [self.ip.raise_(st, "KeyError")]
        u = self.ip.unk("popitem")
        return [(self._set_segs(st, x, segs + (("del", u),)), u)]

    def d_setdefault(self, st, x, args, kw, node):
        k = self.freeze(st, args[0])
        d = args[1] if len(args) > 1 else kw.get("default", NONE)

        def missing(s):
            s = s.fork()
            self.put(s, x, k, d)
            return [(s, d)]

        return self.dict_get(st, x, self._segs(st, x), k, missing)

    def d_clear(self, st, x, args, kw, node):
        return [(self._set_segs(st, x, ()), NONE)]

    def d_copy(self, st, x, args, kw, node):
        k, segs = self.view(st, x)
        o = st.heap.get(x.addr) if isinstance(x, Ref) else None
        return [(st, self.ip.cont(st, "dict", segs, o.extra if o is not None else None))]

    def d_fromkeys(self, st, x, args, kw, node):
        return self.f_dict_fromkeys(st, args, kw, node)

    def f_dict_fromkeys(self, st, args, kw, node):
        v = args[1] if len(args) > 1 else NONE
        k, segs = self.iter_view(st, args[0])
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        out = []
        for s in self.map_segs(k, segs, lambda a, b: ("one", a, v)):
            if s not in out:
                out.append(s)
        return [(st, self.ip.cont(st, "dict", out))]

    def f_str_maketrans(self, st, args, kw, node):
        return [(st, self.ip.unk("maketrans", *[self.freeze(st, a) for a in args]))]

    def f_str_join(self, st, args, kw, node):
        return self.method(st, args[0], "join", args[1:], kw, node)

    # `str.strip` and the like as functions
    def __getattr__(self, n):
        if n.startswith("f_str_") and n[6:] in STR_METHODS:
            return lambda st, args, kw, node: self._method(st, args[0], n[6:], list(args[1:]), kw, node)
        if n.startswith("f_dict_") and n[7:] in DICT_METHODS:
            return lambda st, args, kw, node: self._method(st, args[0], n[7:], list(args[1:]), kw, node)
        if n.startswith("f_list_") and n[7:] in LIST_METHODS:
            return lambda st, args, kw, node: self._method(st, args[0], n[7:], list(args[1:]), kw, node)
        if n.startswith("f_set_") and n[6:] in SET_METHODS:
            return lambda st, args, kw, node: self._method(st, args[0], n[6:], list(args[1:]), kw, node)
        if n.startswith("f_pathlib_Path_") and n[15:] in PATH_METHODS:
            return lambda st, args, kw, node: self._method(st, args[0], n[15:], list(args[1:]), kw, node)
        raise AttributeError(n)

    # sets
    def c_add(self, st, x, args, kw, node):
        v = self.freeze(st, args[0])
        o = st.heap[x.addr]
        for s in o.segs:
            if s[0] == "one" and s[1] == v:
                self.mark_global(st, x)
                return [(st, NONE)]
        return [(self._set_segs(st, x, o.segs + (("one", v, None),)), NONE)]

    def c_update(self, st, x, args, kw, node):
        cur = st
        for a in args:
            k, segs = self.iter_view(cur, a)
            if segs is None:
                return [self.ip.raise_(cur, "TypeError")]
            new = [s for s in self.set_segs(k, segs)]
            old = self._segs(cur, x)
            cur = self._set_segs(cur, x, old + tuple(s for s in new if s not in old))
        return [(cur, NONE)]

    def c_union(self, st, x, args, kw, node):
        out = list(self.set_segs("set", self._segs(st, x)))
        for a in args:
            if isinstance(a, Bound) and a.fn == "*spread":
                k, segs = self.iter_view(st, a.self_)
                segs = self.list_to_set(self.flatten(st, self.as_list_segs(k, segs)))
                k = "set"
            else:
                k, segs = self.iter_view(st, a)
            if segs is None:
                return [self.ip.raise_(st, "TypeError")]
            for s in self.set_segs(k, segs):
                if s not in out:
                    out.append(s)
        return [(st, self.ip.cont(st, "set", out))]

    def f_set_union(self, st, args, kw, node):
        if len(args) == 1 and isinstance(args[0], Bound) and args[0].fn == "*spread":
            return self.c_union(st, self.ip.cont(st, "set", ()), args, kw, node)
        return self.c_union(st, args[0], args[1:], kw, node)

    def _filter_set(self, st, x, others, keep, node, tag):
        """Elements of x which are (not) in the others."""
        def f(s, v):
            outs = [(s, True)]
            res = []
            for a in others:
                nxt = []
                for s1, _ in outs:
                    for s2, r in self.contains(s1, a, v):
                        if isinstance(r, Raise):
                            res.append((s2, r))
                            continue
                        for s3, b in self.ip.branch(s2, r):
                            if b is keep:
                                nxt.append((s3, True))
                            else:
                                res.append((s3, []))
                outs = nxt
            return res + [(s1, [v]) for s1, _ in outs]

        os_ = []
        for a in others:
            k, segs = self.iter_view(st, a)
            if segs is None:
                return [self.ip.raise_(st, "TypeError")]
            os_.append(Doc("set", self.freeze_segs(st, self.set_segs(k, segs))))
        others = os_
        return self.collect(st, x, f, self.key_of(node, tag), "set")

    def c_intersection(self, st, x, args, kw, node):
        return self._filter_set(st, x, args, True, node, "and")

    def c_difference(self, st, x, args, kw, node):
        return self._filter_set(st, x, args, False, node, "sub")

    def c_symmetric_difference(self, st, x, args, kw, node):
        res = []
        for s, a in self.c_difference(st, x, args, kw, node):
            if isinstance(a, Raise):
                res.append((s, a))
                continue
            for s2, b in self._filter_set(s, args[0], [x], False, node, "sub2"):
                res.extend([(s2, b)] if isinstance(b, Raise) else self.c_union(s2, a, [b], {}, node))
        return res

    def _upd(op):
        def f(self, st, x, args, kw, node):
            res = []
            for s, v in getattr(self, "c_" + op)(st, x, args, kw, node):
                res.append((s, v) if isinstance(v, Raise) else (self._set_segs(s, x, self._segs(s, v)), NONE))
            return res

        return f

    c_intersection_update = _upd("intersection")
    c_difference_update = _upd("difference")
    c_symmetric_difference_update = _upd("symmetric_difference")

    def c_discard(self, st, x, args, kw, node):
        v = self.freeze(st, args[0])
        segs = self._segs(st, x)
        if all(s[0] == "one" for s in segs):
            return [(self._set_segs(st, x, [s for s in segs if s[1] != v]), NONE)] if all(
                isinstance(s[1], Const) for s in segs) and isinstance(v, Const) else self._filter_into(st, x, v, node)
        return self._filter_into(st, x, v, node)

    def _filter_into(self, st, x, v, node):
        return self.c_difference_update(st, x, [Doc("set", (("one", v, None),))], {}, node)

    def c_remove(self, st, x, args, kw, node):
        res = []
        for s, r in self.contains(st, x, args[0]):
            if isinstance(r, Raise):
                res.append((s, r))
                continue
            for s2, b in self.ip.branch(s, r):
                if b is True:
                    res.extend(self.c_discard(s2, x, args, kw, node))
                else:
                    res.append(self.ip.raise_(s2, "KeyError"))
        return res

    def c_clear(self, st, x, args, kw, node):
        return [(self._set_segs(st, x, ()), NONE)]

    def c_copy(self, st, x, args, kw, node):
        return [(st, self.ip.cont(st, "set", self._segs(st, x)))]

    def c_pop(self, st, x, args, kw, node):
        segs = self._segs(st, x)
        if not segs:
            return [self.ip.raise_(st, "KeyError")]
        if len(segs) == 1 and segs[0][0] == "one":
            return [(self._set_segs(st, x, ()), segs[0][1])]
        u = self.ip.unk("set.pop", self.freeze(st, x))
        return [(self._set_segs(st, x, segs + (("del", u),)), u)]

    def issubset(self, st, a, b, node):
        """every element of a is in b"""
        def one(s, v):
            res = []
            for s2, r in self.contains(s, b, v):
                if isinstance(r, Raise):
                    res.append((s2, r))
                    continue
                for s3, t in self.ip.branch(s2, r):
                    res.append((s3, NEXT if t is True else Ret(FALSE)))
            return res

        k, segs = self.iter_view(st, b)
        if segs is None:
            return [self.ip.raise_(st, "TypeError")]
        b = Doc("set", self.freeze_segs(st, self.set_segs(k, segs)))
        res = []
        for s, sig in self.ip.iterate(st, a, one, self.key_of(node, "subset")):
            res.append((s, sig.v if isinstance(sig, Ret) else sig if isinstance(sig, Raise) else TRUE))
        return res

    def c_issubset(self, st, x, args, kw, node):
        return self.issubset(st, x, args[0], node)

    def c_issuperset(self, st, x, args, kw, node):
        return self.issubset(st, args[0], x, node)

    def c_isdisjoint(self, st, x, args, kw, node):
        res = []
        k, segs = self.view(st, x)
        if k in ("set", "list") and isinstance(args[0], Sym) and args[0].typ in ("str", "ostr") and segs is not None:
            ones = [(s[1] if k == "set" else s[2]) if s[0] == "one" else None for s in segs]
            if all(isinstance(o, Const) and isinstance(o.v, str) for o in ones):
                # none of these characters is in the text
                pend = self.notnone(st, args[0], "TypeError")
                res.extend((s, v) for s, v in pend if isinstance(v, Raise))
                pend = [s for s, v in pend if not isinstance(v, Raise)]
                for o in ones:
                    nxt = []
                    if len(o.v) != 1:
                        continue
                    for s in pend:
                        for s2, r in self.contains(s, args[0], o):
                            if isinstance(r, Raise):
                                res.append((s2, r))
                                continue
                            for s3, b in self.ip.branch(s2, r):
                                if b:
                                    res.append((s3, FALSE))
                                else:
                                    nxt.append(s3)
                    pend = nxt
                return res + [(s, TRUE) for s in pend]
        for s, v in self.c_intersection(st, x, args, kw, node):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            for s2, b in self.ip.branch(s, v):
                res.append((s2, const(not b)))
        return res

    def d_isdisjoint(self, st, x, args, kw, node):
        return [(st, self.ip.unk("isdisjoint", typ="bool"))]

    # ----------------------------------------------------------------- match
    def m_match(self, st, x, name, args, kw):
        def go(s):
            return self._m_match(s, x, name, args, kw)

        return self.seq(self.notnone(st, x), go)

    def _m_match(self, st, x, name, args, kw):
        ip = self.ip
        if name == "group":
            if len(args) <= 1:
                return self.group(st, x, args[0] if args else const(0))
            cur = [(st, [])]
            for a in args:
                nxt = []
                for s, acc in cur:
                    if isinstance(acc, Raise):
                        nxt.append((s, acc))
                        continue
                    for s2, v in self.group(s, x, a):
                        nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
                cur = nxt
            return [(s, a if isinstance(a, Raise) else Tup(a)) for s, a in cur]
        R, _ = match_regex(x)
        if name in ("groups", "groupdict") and R is not None:
            c = re.compile(R.pattern, R.flags)
            default = args[0] if args else kw.get("default", NONE)

            def g(k):
                v = self.group_sym(x, k)
                if default == NONE or v.typ == "str":
                    return v
                a = isnone(v)
                return Phi(((frozenset([(a, True)]), default), (frozenset([(a, False)]), v)))

            if name == "groups":
                return [(st, Tup(g(i) for i in range(1, c.groups + 1)))]
            return [(st, ip.cont(st, "dict", [("one", const(k), g(k)) for k in c.groupindex]))]
        if name in ("start", "end", "span"):
            k = args[0] if args else const(0)
            if isinstance(k, Const) and R is not None and k.v != 0:
                k = const(pat(R).key(k.v))
            a, b = sym("mstart", x, k, typ="int"), sym("mend", x, k, typ="int")
            return [(st, a if name == "start" else b if name == "end" else Tup((a, b)))]
        return [(st, ip.unk("match method " + name, x))]

    # ------------------------------------------------------------------ paths
    def m_path(self, st, x, name, args, kw, node):
        ip = self.ip
        if name == "joinpath":
            from .lib import join_path, mk_path

            p = x
            for a in args:
                if a == NONE:
                    return [ip.raise_(st, "TypeError", cause=("none",))]
                p = join_path(p, a)
            return [(st, p)]
        if name in ("exists", "is_file", "is_dir"):
            return self.path_exists(st, x, {"exists": "pexists", "is_file": "isfile", "is_dir": "isdir"}[name])
        if name == "mkdir":
            ok = kw.get("exist_ok", args[2] if len(args) > 2 else FALSE)

            def make(s):
                s = s.fork()
                s.effect("mkdir", x, ip.where())
                s.facts[sym("isdir", x, typ="bool")] = True
                s.facts[sym("pexists", x, typ="bool")] = True
                return [(s, NONE)]

            if ok == TRUE:
                return make(st)
            res = []
            for s, v in self.path_exists(st, x, "pexists"):
                for s2, b in ip.branch(s, v):
                    if b is True:
                        res.append(ip.raise_(s2, "FileExistsError", cause=("file", x)))
                    else:
                        # the fact changes with the call
                        s2 = s2.fork()
                        s2.facts.pop(sym("pexists", x, typ="bool"), None)
                        s2.facts.pop(sym("isdir", x, typ="bool"), None)
                        s2.facts[sym("pexists0", x, typ="bool")] = False
                        res.extend(make(s2))
            return res
        if name == "touch":
            st = st.fork()
            st.effect("touch", x, ip.where())
            if st.files.get(x) is None and quick(st.facts, sym("isfile", x, typ="bool")) is False:
                st.files[x] = ("clean", const(""))
            st.facts.pop(sym("isfile", x, typ="bool"), None)
            st.facts[sym("isfile", x, typ="bool")] = True
            return [(st, NONE)]
        if name == "unlink":
            missing = kw.get("missing_ok", args[0] if args else FALSE)

            def rm(s):
                s = s.fork()
                s.effect("unlink", x, ip.where())
                s.files[x] = ("absent",)
                return [(s, NONE)]

            c = st.files.get(x)
            if c is not None and c[0] == "absent":
                return [(st, NONE)] if missing == TRUE else [ip.raise_(st, "FileNotFoundError", cause=("file", x))]
            if missing == TRUE:
                return rm(st)
            return self.seq(self.exists_guard(st, x), rm)
        if name == "rmdir":
            st = st.fork()
            st.effect("rmdir", x, ip.where())
            st.facts.pop(sym("isdir", x, typ="bool"), None)
            st.facts.pop(sym("pexists", x, typ="bool"), None)
            return [(st, NONE)]
        if name in ("iterdir", "glob", "rglob"):
            def ls(s):
                s = s.fork()
                if name == "iterdir":
                    src = sym("listdir", x, typ="list")
                else:
                    src = sym("glob", x, args[0], typ="list")
                s.effect("listdir", x, ip.where())
                return [(s, ip.cont(s, "iter", (("base", src),)))]

            if name != "iterdir":
                return ls(st)
            res = []
            for s, v in self.path_exists(st, x, "isdir"):
                for s2, b in ip.branch(s, v):
                    res.extend(ls(s2) if b is True else [ip.raise_(s2, "FileNotFoundError", cause=("file", x))])
            return res
        if name == "open":
            mode = args[0] if args else kw.get("mode", const("r"))
            return self.open_(st, x, mode)
        if name in ("read_text", "read_bytes"):
            res = []
            for s, h in self.open_(st, x, const("r")):
                if isinstance(h, Raise):
                    res.append((s, h))
                    continue
                s = s.fork()
                res.append((s, self.read_text(s, h, s.heap[h.addr])))
            return res
        if name in ("write_text", "write_bytes"):
            res = []
            for s, h in self.open_(st, x, const("w")):
                if isinstance(h, Raise):
                    res.append((s, h))
                    continue
                s = s.fork()
                self.write_text(s, h, s.heap[h.addr], args[0] if args else kw.get("data"))
                res.append((s, sym("written", typ="int")))
            return res
        if name in ("rename", "replace"):
            q = self.pathof(st, args[0])

            def mv(s):
                s = s.fork()
                c = self.content(s, x)
                s.effect("rename", x, q, c, ip.where())
                s.files[q] = c
                s.files[x] = ("absent",)
                return [(s, q)]

            return self.seq(self.exists_guard(st, x), mv)
        if name in ("resolve", "absolute", "expanduser"):
            return [(st, sym(name, x, typ="path"))]
        if name in ("with_name", "with_stem", "with_suffix"):
            if x.op == "join" and name == "with_name":
                return [(st, sym("join", x.args[0], args[0], typ="path"))]
            if x.op == "join" and name == "with_suffix":
                c = x.args[1]
                parts = list(c.args[0]) if isinstance(c, Sym) and c.op == "fstr" else [c]
                last = parts[-1]
                if isinstance(last, Const) and "." in last.v:
                    parts[-1] = const(last.v[: last.v.rindex(".")])
                    return [(st, sym("join", x.args[0], fstr(parts + [args[0]]), typ="path"))]
            return [(st, sym("pathop", name, x, args[0], typ="path"))]
        if name == "relative_to":
            return [(st, sym("pathop", name, x, self.freeze(st, args[0]), typ="path")), ip.raise_(st.fork(), "ValueError", cause=(x,))]
        if name in ("is_relative_to", "is_absolute", "match", "samefile", "is_symlink"):
            return [(st, sym("path" + name, x, *[self.freeze(st, a) for a in args], typ="bool"))]
        if name == "as_posix":
            return [(st, sym("pathstr", x, typ="str"))]
        if name == "stat":
            return [(st, sym("stat", x, typ="inst"))]
        if name == "chmod":
            return [(st, NONE)]
        return [(st, ip.unk("path method " + name, x))]

    # ------------------------------------------------------------------ files
    def m_file(self, st, x, o, name, args, kw):
        ip = self.ip
        st = st.fork()
        if o.closed and name not in ("close",):
            return [ip.raise_(st, "ValueError", "I/O operation on closed file")]
        if name == "read":
            return [(st, self.read_text(st, x, o))]
        if name in ("readlines", "readline"):
            t = self.read_text(st, x, o)
            if name == "readline":
                return [(st, sym("firstline", t, typ="str"))]
            return [(st, ip.cont(st, "list", (("base", sym("lines", t, typ="list")),)))]
        if name == "write":
            if not self.write_text(st, x, o, args[0]):
                return [ip.raise_(st, "OSError", "not writable")]
            return [(st, sym("written", typ="int"))]
        if name == "writelines":
            for s, t in self.s_join(st, const(""), args, kw, None):
                if isinstance(t, Raise):
                    return [(s, t)]
                if not self.write_text(st, x, st.heap[x.addr], t):
                    return [ip.raise_(st, "OSError", "not writable")]
            return [(st, NONE)]
        if name == "seek":
            self.seek(st, x, o, args[0], args[1] if len(args) > 1 else None)
            return [(st, sym("pos", typ="int"))]
        if name == "truncate":
            if o.mode[0] == "r" and "+" not in o.mode:
                return [ip.raise_(st, "OSError", "not writable")]
            self.truncate(st, x, o, args[0] if args else None)
            return [(st, sym("pos", typ="int"))]
        if name == "tell":
            return [(st, const(0) if o.pos == ("start",) else sym("tell", o.path, repr(o.pos), typ="int"))]
        if name in ("flush", "isatty", "fileno"):
            return [(st, NONE)]
        if name == "close":
            st.heap[x.addr] = FH(o.path, o.mode, o.pos, True)
            return [(st, NONE)]
        if name in ("__enter__",):
            return [(st, x)]
        if name in ("__exit__",):
            st.heap[x.addr] = FH(o.path, o.mode, o.pos, True)
            return [(st, NONE)]
        if name == "readable":
            return [(st, const(o.mode[0] == "r" or "+" in o.mode))]
        if name == "writable":
            return [(st, const(o.mode[0] != "r" or "+" in o.mode))]
        return [(st, ip.unk("file method " + name))]

    # ------------------------------------------------------------------ dates
    def m_date(self, st, x, name, args, kw):
        typ = "float" if name == "timestamp" else "str" if name in ("isoformat", "strftime", "ctime") else "any"
        if name in ("replace", "astimezone"):
            return [(st, x)]
        return [(st, sym("datemeth", name, x, *[self.freeze(st, a) for a in args], typ=typ))]

    # ---------------------------------------------------------------- objects
    def m_inst(self, st, x, o, name, args, kw):
        ip = self.ip
        if o.cls.kind == "exc":
            if name == "with_traceback":
                return [(st, x)]
            if name == "add_note":
                return [(st, NONE)]
        if o.cls.kind == "model" and name in ("dict", "copy", "json"):
            return self.m_model(st, x, name, args, kw)
        if o.cls.kind == "namedtuple":
            if name == "_asdict":
                return [(st, ip.cont(st, "dict", [("one", const(k), v) for k, v in o.fields.items()]))]
            if name == "_replace":
                return [(st, ip.alloc(st, Inst(o.cls, {**o.fields, **kw}, o.extra)))]
        if name == "__str__":
            return [(st, self.to_str(st, x))]
        if name == "__eq__":
            return self.eq(st, x, args[0])
        return [(st, ip.unk("method " + name, self.freeze(st, x)))]

    def m_model(self, st, x, name, args, kw, plain=False):
        ip = self.ip
        if name == "dict":
            return ip.pyd.to_dict(st, x, kw)
        if name == "json":
            res = []
            for s, d in ip.pyd.to_dict(st, x, {k: v for k, v in kw.items() if k in ("exclude_none", "include", "exclude", "exclude_unset", "exclude_defaults", "by_alias")}):
                res.extend([(s, d)] if isinstance(d, Raise) else self.dumps(s, d, {}))
            return res
        # copy
        if isinstance(x, Ref):
            o = st.heap[x.addr]
            deep = kw.get("deep") == TRUE
            fields = dict(o.fields)
            upd = kw.get("update")
            st = st.fork()
            if deep:
                memo = {}
                fields = {k: self.deep(st, v, memo) for k, v in fields.items()}
            if upd is not None and upd != NONE:
                k, segs = self.view(st, upd)
                if segs is not None and all(s[0] in ("one", "kid") and isinstance(s[1], Const) for s in segs):
                    for s in segs:
                        fields[s[1].v] = s[2]
                else:
                    ip.unk("model.copy(update=...)")
            return [(st, ip.alloc(st, Inst(o.cls, fields, o.extra)))]
        return [(st, x)]

    def m_class(self, st, c, name, args, kw):
        ip = self.ip
        if name in ("parse_obj",):
            k, segs = self.view(st, args[0])
            if k == "dict" and segs is not None and all(s[0] in ("one", "kid") and isinstance(s[1], Const) for s in segs):
                return ip.pyd.construct(st, c, [], {s[1].v: s[2] for s in segs})
            return ip.pyd.construct(st, c, [], {"**": args[0]})
        if name == "construct":
            return [(st, ip.alloc(st, Inst(c, dict(kw))))]
        return [(st, ip.unk("class method " + name))]
