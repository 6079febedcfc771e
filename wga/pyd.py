"""Classes: exceptions, enums, data models, plain ones."""
import ast

from .interp import BUILTIN_EXC, NEXT, Raise, fstr
from .state import *
from .terms import *

SIMPLE = {
    "str": ("str",), "int": ("int",), "float": ("float",), "bool": ("bool",), "bytes": ("str",),
    "object": ("any",), "typing.Any": ("any",), "pathlib.Path": ("path",), "pathlib.PurePath": ("path",),
    "list": ("list", None), "dict": ("dict", None, None), "set": ("set", None), "tuple": ("tuple", None),
    "frozenset": ("set", None), "typing.List": ("list", None), "typing.Dict": ("dict", None, None),
    "typing.Set": ("set", None), "typing.Tuple": ("tuple", None), "typing.Sequence": ("list", None),
    "typing.Iterable": ("any",), "typing.Mapping": ("dict", None, None), "NoneType": ("none",),
    "pydantic.StrictStr": ("str",), "pydantic.StrictInt": ("int",), "pydantic.PositiveInt": ("int",),
    "pydantic.NonNegativeInt": ("int",), "datetime.datetime": ("date",), "types.NoneType": ("none",),
    "re.Pattern": ("any",), "typing.Callable": ("any",), "typing.Pattern": ("any",),
}


class Pyd:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ annotations
    def ann(self, st, node, fid):
        """The type an annotation stands for."""
        ip = self.ip
        if node is None:
            return ("any",)
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ("none",)
            if isinstance(node.value, str):
                try:
                    return self.ann(st, ast.parse(node.value, mode="eval").body, fid)
                except SyntaxError:
                    return ("any",)
            return ("any",)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.union([self.ann(st, node.left, fid), self.ann(st, node.right, fid)])
        if isinstance(node, ast.Subscript):
            base = self.name(st, node.value, fid)
            sl = node.slice
            items = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            n = base.name if isinstance(base, LibV) else None
            if n == "typing.Optional":
                return self.union([self.ann(st, items[0], fid), ("none",)])
            if n == "typing.Union":
                return self.union([self.ann(st, i, fid) for i in items])
            if n == "typing.Literal":
                return ("lit", tuple(const(i.value) for i in items if isinstance(i, ast.Constant)))
            if n in ("typing.Annotated", "typing.Final", "typing.ClassVar"):
                if n == "typing.ClassVar":
                    return ("classvar",)
                return self.ann(st, items[0], fid)
            t = SIMPLE.get(n)
            if t is not None and t[0] in ("list", "set"):
                return (t[0], self.ann(st, items[0], fid))
            if t is not None and t[0] == "dict" and len(items) == 2:
                return ("dict", self.ann(st, items[0], fid), self.ann(st, items[1], fid))
            if t is not None and t[0] == "tuple":
                return ("tuple", None)
            if n == "collections.defaultdict":
                return ("dict", None, None)
            return ("any",)
        v = self.name(st, node, fid)
        return self.typ_of_value(v)

    def typ_of_value(self, v):
        if isinstance(v, ClassV):
            if v.kind in ("model", "enum"):
                return (v.kind, v)
            return ("inst", v)
        if isinstance(v, LibV):
            return SIMPLE.get(v.name, ("any",))
        if isinstance(v, Const) and v.v is None:
            return ("none",)
        if isinstance(v, Partial) and isinstance(v.fn, LibV) and v.fn.name == "pydantic.constr":
            return ("constr", v.kwargs)
        if isinstance(v, Tup) or isinstance(v, Sym):
            return ("any",)
        return ("any",)

    def name(self, st, node, fid):
        try:
            if isinstance(node, ast.Name):
                return self.ip.lookup(st, fid, node.id)
            outs = self.ip.ev(node, st.fork(), fid)
            if len(outs) == 1 and not isinstance(outs[0][1], Raise):
                return outs[0][1]
        except Exception:
            pass
        return None

    def union(self, ts):
        flat = []
        for t in ts:
            for x in t[1] if t[0] == "union" else (t,):
                if x not in flat:
                    flat.append(x)
        if ("any",) in flat:
            return ("any",)
        if len(flat) == 1:
            return flat[0]
        return ("union", tuple(flat))

    def nullable(self, t):
        return t[0] in ("any", "none") or t[0] == "union" and any(self.nullable(x) for x in t[1])

    # --------------------------------------------------------------- classes
    def build_class(self, st, c, node, frame, kws, decos, fid):
        ip = self.ip
        c.attrs = dict(frame)
        kinds = [b.kind for b in c.mro()[1:] if b.kind]
        c.kind = kinds[0] if kinds else None
        for d in decos:
            if isinstance(d, LibV) and d.name in ("dataclasses.dataclass", "pydantic.dataclasses.dataclass") or isinstance(d, Partial) and isinstance(d.fn, LibV) and d.fn.name == "dataclasses.dataclass":
                c.kind = "dataclass"
        for k, v in kws.items():
            if k != "metaclass":
                c.config[k] = v
        for n, v in frame.items():
            for f in self.funcs_of(v):
                if f.cls is None:
                    f.cls = c
                    ip.lib.by_qual[f.qual] = f
        cfg = frame.get("Config")
        if isinstance(cfg, ClassV):
            for m in reversed(cfg.mro()):
                c.config.update(m.attrs)
        if c.kind == "enum":
            return self.build_enum(st, c, frame)
        if c.kind in ("model", "dataclass", "namedtuple"):
            for b in reversed(c.mro()[1:]):
                for k, f in b.fields.items():
                    c.fields[k] = f
                c.validators = [x for x in b.validators if x not in c.validators] + c.validators
            anns = {}
            for b in node.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    anns[b.target.id] = b.annotation
            for name, a in anns.items():
                if name.startswith("_") and c.kind == "model":
                    continue
                t = self.ann(st, a, fid)
                if t[0] == "classvar":
                    continue
                c.fields[name] = self.field(name, t, frame.get(name))
            if c.kind == "model":
                for name, v in frame.items():
                    if name in anns or name.startswith("_") or name == "Config":
                        continue
                    if isinstance(v, (Func, ClassV, RegexV)) or isinstance(v, Partial) and isinstance(v.fn, LibV) and v.fn.name in (
                            "property", "staticmethod", "classmethod", "functools.cached_property"):
                        continue
                    if isinstance(v, Partial) and isinstance(v.fn, LibV) and v.fn.name in ("pydantic.root_validator", "pydantic.validator"):
                        fn = v.args[0]
                        c.validators = [x for x in c.validators if x[1] is not fn and getattr(x[1], "name", 0) != getattr(fn, "name", 1)] + [
                            (v.fn.name, fn, v.args[1:], dict(v.kwargs))
                        ]
                        c.attrs[name] = Partial(lib("classmethod"), (fn,), ())
                        continue
                    if isinstance(v, (Const, Tup, Ref, EnumV)):
                        old = c.fields.get(name)
                        if old is not None:
                            c.fields[name] = {**old, "default": v, "required": False}
                        else:
                            k = ip.lib.kind(st, v)
                            c.fields[name] = self.field(name, SIMPLE.get(k, ("any",)), v)
            for name in c.fields:
                if c.kind == "model":
                    c.attrs.pop(name, None)

    def funcs_of(self, v):
        if isinstance(v, Func):
            return [v]
        if isinstance(v, Partial):
            return [f for a in v.args for f in self.funcs_of(a)]
        return []

    def build_enum(self, st, c, frame):
        last = 0
        for n, v in list(frame.items()):
            if n.startswith("__") or n.startswith("_") or isinstance(v, (Func, Partial, ClassV)):
                continue
            if isinstance(v, Sym) and v.op == "enumauto":
                strs = any(b.name in ("StrEnum", "enum.StrEnum") for b in c.mro())
                v = const(n.lower()) if strs else const(last + 1)
            if isinstance(v, Const) and isinstance(v.v, int):
                last = v.v
            same = [m for m in c.members.values() if m.value == v]
            c.members[n] = same[0] if same else EnumV(c, n, v)
            c.attrs.pop(n, None)

    def field(self, name, t, default):
        f = {"name": name, "type": t, "default": None, "factory": None, "required": True, "regex": None, "alias": None, "checks": {}}
        if isinstance(default, Partial) and isinstance(default.fn, LibV) and default.fn.name == "pydantic.Field":
            kw = dict(default.kwargs)
            d = kw.get("default", default.args[0] if default.args else None)
            if d is not None and not (isinstance(d, Const) and d.v is Ellipsis):
                f["default"] = d
                f["required"] = False
            if "default_factory" in kw:
                f["factory"] = kw["default_factory"]
                f["required"] = False
            if "regex" in kw:
                f["regex"] = kw["regex"]
            if "alias" in kw and isinstance(kw["alias"], Const):
                f["alias"] = kw["alias"].v
            f["checks"] = {k: v for k, v in kw.items() if k in ("gt", "ge", "lt", "le", "min_length", "max_length", "min_items", "max_items")}
            if kw.get("const") == TRUE:
                f["checks"]["const"] = d
        elif default is not None and not (isinstance(default, Const) and default.v is Ellipsis):
            f["default"] = default
            f["required"] = False
        if f["required"] and self.nullable(t):
            f["required"] = False
            f["default"] = NONE
        if t[0] == "constr":
            kw = dict(t[1])
            f["type"] = ("str",)
            if "regex" in kw:
                f["regex"] = kw["regex"]
            f["checks"] = {k: v for k, v in kw.items() if k in ("min_length", "max_length")}
        return f

    def config(self, c, name):
        for k in c.mro():
            if name in k.config:
                v = k.config[name]
                return bool(v.v) if isinstance(v, Const) else True
        return False

    # ----------------------------------------------------------- construction
    def construct(self, st, c, args, kw):
        ip = self.ip
        if c.kind == "enum" and c.members:
            return self.enum_of(st, c, args[0] if args else NONE)
        if c.kind == "exc":
            st = st.fork()
            r = ip.alloc(st, Inst(c, {"args": Tup(a for a in args if not isinstance(a, (Ref, Phi)))}))
            init = c.lookup("__init__")
            if isinstance(init, Func):
                return [(s, v if isinstance(v, Raise) else r) for s, v in ip.call(st, Bound(r, init), args, kw)]
            return [(st, r)]
        if c.kind == "model":
            st = st.fork()
            r = ip.alloc(st, Inst(c, {}))
            init = c.lookup("__init__")
            if isinstance(init, Func):
                return [(s, v if isinstance(v, Raise) else r) for s, v in ip.call(st, Bound(r, init), args, kw)]
            if args:
                return [ip.raise_(st, "TypeError", "__init__() takes exactly 1 positional argument")]
            return [(s, v if isinstance(v, Raise) else r) for s, v in self.init_model(st, r, c, kw)]
        if c.kind in ("dataclass", "namedtuple"):
            return self.init_fields(st.fork(), c, args, kw)
        if c.mod == "lib" and not c.attrs:
            return [(st, ip.unk("instance of " + c.name, *args))]
        st = st.fork()
        r = ip.alloc(st, Inst(c, {}))
        init = c.lookup("__init__")
        new = c.lookup("__new__")
        if new is not None:
            return [(st, ip.unk("__new__"))]
        if isinstance(init, Func):
            return [(s, v if isinstance(v, Raise) else r) for s, v in ip.call(st, Bound(r, init), args, kw)]
        return [(st, r)]

    def enum_of(self, st, c, v):
        ip = self.ip
        if isinstance(v, EnumV) and v.cls is c:
            return [(st, v)]
        if isinstance(v, Phi):
            res = []
            for s, w in ip.resolve(st, v):
                res.extend(self.enum_of(s, c, w))
            return res
        if isinstance(v, Const):
            for m in c.members.values():
                if isinstance(m.value, Const) and m.value.v == v.v:
                    return [(st, m)]
            return [ip.raise_(st, "ValueError", cause=(v,))]
        res, pend = [], [st]
        for m in dict.fromkeys(c.members.values()):
            nxt = []
            for s in pend:
                for s2, r in ip.lib.eq(s, v, m.value):
                    for s3, b in ip.branch(s2, r):
                        if b is True:
                            res.append((s3, m))
                        else:
                            nxt.append(s3)
            pend = nxt
        return res + [ip.raise_(s, "ValueError", cause=(v,)) for s in pend]

    def init_fields(self, st, c, args, kw):
        """dataclass / namedtuple"""
        ip = self.ip
        fields = {}
        names = list(c.fields)
        if len(args) > len(names):
            return [ip.raise_(st, "TypeError")]
        given = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names:
                return [ip.raise_(st, "TypeError", k)]
            given[k] = v
        outs = [(st, {})]
        for n in names:
            f = c.fields[n]
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                elif n in given:
                    nxt.append((s, {**acc, n: given[n]}))
                elif f.get("factory") is not None:
                    for s2, v in ip.call(s, f["factory"], [], {}):
                        nxt.append((s2, v if isinstance(v, Raise) else {**acc, n: v}))
                elif f.get("default") is not None and (not f.get("required") or True) and not (f.get("type") and f["default"] is NONE and self.nullable(f["type"]) and "explicit" in f):
                    nxt.append((s, {**acc, n: f["default"]}))
                else:
                    nxt.append(ip.raise_(s, "TypeError", f"missing {n}"))
            outs = nxt
        res = []
        post = c.lookup("__post_init__")
        for s, acc in outs:
            if isinstance(acc, Raise):
                res.append((s, acc))
                continue
            s = s.fork()
            r = ip.alloc(s, Inst(c, acc))
            if isinstance(post, Func):
                res.extend((s2, v if isinstance(v, Raise) else r) for s2, v in ip.call(s, Bound(r, post), [], {}))
            else:
                res.append((s, r))
        return res

    def invalid(self, st, cause):
        return self.ip.raise_(st, "ValidationError", cause=cause)

    def convert_exc(self, s, r):
        """What a validator raises, as the caller of the model sees it."""
        ip = self.ip
        cls = ip.exc_class(s, r)
        if isinstance(cls, ClassV) and any(cls.is_sub(BUILTIN_EXC[n]) for n in ("ValueError", "TypeError", "AssertionError")):
            return self.invalid(s, r.cause)
        return (s, r)

    def init_model(self, st, r, c, kw):
        """Validate the input and set the fields -> [(st, NONE | Raise)]"""
        ip = self.ip
        kw = dict(kw)
        if "**" in kw:
            x = kw.pop("**")
            fx = ip.lib.freeze(st, x)
            for n, f in c.fields.items():
                if n not in kw:
                    kw[n] = sym("at", fx, const(n), typ=self.styp(f["type"]))
        given = const(tuple(n for n, f in c.fields.items() if n in kw or f.get("alias") in kw))
        outs = [(st, kw)]
        # before: on the whole input
        for kind, fn, vargs, vkw in c.validators:
            if kind == "pydantic.root_validator" and vkw.get("pre") == TRUE:
                nxt = []
                for s, acc in outs:
                    if isinstance(acc, Raise):
                        nxt.append((s, acc))
                        continue
                    d = ip.cont(s, "dict", [("one", const(k), v) for k, v in acc.items()])
                    for s2, v in ip.call(s, fn, [c, d], {}):
                        nxt.append(self.convert_exc(s2, v) if isinstance(v, Raise) else (s2, self.fields_from(s2, v, acc)))
                outs = nxt
        vals = []
        for s, acc in outs:
            if isinstance(acc, Raise):
                vals.append((s, acc))
            else:
                vals.extend(self.fields_of(s, c, acc))
        # after: on the validated values
        for kind, fn, vargs, vkw in c.validators:
            if kind == "pydantic.root_validator" and vkw.get("pre") != TRUE:
                nxt = []
                for s, acc in vals:
                    if isinstance(acc, Raise):
                        nxt.append((s, acc))
                        continue
                    s = s.fork()
                    d = ip.cont(s, "dict", [("one", const(k), v) for k, v in acc.items()])
                    for s2, v in ip.call(s, fn, [c, d], {}):
                        nxt.append(self.convert_exc(s2, v) if isinstance(v, Raise) else (s2, self.fields_from(s2, v, acc)))
                vals = nxt
        res = []
        for s, acc in vals:
            if isinstance(acc, Raise):
                res.append((s, acc))
                continue
            s = s.fork()
            o = s.heap[r.addr]
            s.heap[r.addr] = Inst(o.cls, {**o.fields, **acc}, given)
            res.append((s, NONE))
        return res

    def fields_from(self, st, v, old):
        k, segs = self.ip.lib.view(st, v)
        if k == "dict" and segs is not None and all(s[0] in ("one", "kid", "upd") and isinstance(s[1], Const) for s in segs):
            return {s[1].v: s[2] for s in segs}
        if v == NONE:
            return dict(old)
        u = self.ip.unk("root validator result", v)
        return {n: sym("at", u, const(n)) for n in old}

    def fields_of(self, st, c, kw):
        ip = self.ip
        for k in kw:
            if k not in c.fields and not any(f["alias"] == k for f in c.fields.values()):
                ex = None
                for b in c.mro():
                    if "extra" in b.config:
                        ex = b.config["extra"]
                        break
                if ex is not None and ("forbid" in repr(ex)):
                    return [self.invalid(st, ())]
        outs = [(st, {})]
        for n, f in c.fields.items():
            key = f["alias"] if f["alias"] and f["alias"] in kw else n
            vs = [x for x in c.validators if x[0] == "pydantic.validator" and any(isinstance(a, Const) and a.v in (n, "*") for a in x[2])]
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                if key in kw:
                    v = kw[key]
                    for s1, v1 in self.run_validators(s, c, f, v, [x for x in vs if x[3].get("pre") == TRUE], acc):
                        if isinstance(v1, Raise):
                            nxt.append((s1, v1))
                            continue
                        mark = ip.naddr
                        got = self.coerce(s1, f, v1)
                        good = [x for x in got if not isinstance(x[1], Raise)]
                        if len(good) > 1 and ip.merge:
                            got = ip.merge_outcomes(good, s1, mark) + [x for x in got if isinstance(x[1], Raise)]
                        for s2, w in got:
                            if isinstance(w, Raise):
                                nxt.append((s2, w))
                                continue
                            for s3, w3 in self.run_validators(s2, c, f, w, [x for x in vs if x[3].get("pre") != TRUE], acc):
                                nxt.append((s3, w3 if isinstance(w3, Raise) else {**acc, n: w3}))
                elif f["required"]:
                    nxt.append(self.invalid(s, (const(n),)))
                else:
                    for s2, v in self.default(s, f):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                            continue
                        for s3, w3 in self.run_validators(s2, c, f, v, [x for x in vs if x[3].get("always") == TRUE], acc):
                            nxt.append((s3, w3 if isinstance(w3, Raise) else {**acc, n: w3}))
            outs = nxt
        return outs

    def run_validators(self, st, c, f, v, vs, values):
        ip = self.ip
        outs = [(st, v)]
        for kind, fn, vargs, vkw in vs:
            nxt = []
            for s, x in outs:
                if isinstance(x, Raise):
                    nxt.append((s, x))
                    continue
                names = [a.arg for a in fn.node.args.args] if isinstance(fn, Func) else []
                extra = {}
                if "values" in names:
                    s = s.fork()
                    extra["values"] = ip.cont(s, "dict", [("one", const(k), w) for k, w in values.items()])
                if "field" in names:
                    extra["field"] = ip.unk("validator field")
                if vkw.get("each_item") == TRUE:
                    got = ip.lib.collect(s, x, lambda t, e: [
                        (u, w if isinstance(w, Raise) else [w]) for u, w in ip.call(t, fn, [c, e], dict(extra))
                    ], ("each", c.name, f["name"]), "list")
                else:
                    got = ip.call(s, fn, [c, x], extra)
                for s2, w in got:
                    nxt.append(self.convert_exc(s2, w) if isinstance(w, Raise) else (s2, w))
            outs = nxt
        return outs

    def default(self, st, f):
        ip = self.ip
        if f["factory"] is not None:
            return ip.call(st, f["factory"], [], {})
        d = f["default"]
        if d is None:
            d = NONE
        if isinstance(d, Ref):
            st = st.fork()
            return [(st, ip.lib.deep(st, d))]
        return [(st, d)]

    # --------------------------------------------------------------- coercion
    def coerce(self, st, f, v):
        """The value a field gets -> [(st, value | Raise)]"""
        ip = self.ip
        res = []
        for s, w in ip.resolve(st, v):
            if w == NONE and self.nullable(f["type"]):
                res.append((s, w))
                continue
            for s2, x in self.co(s, f["type"], w, (f["name"],)):
                if isinstance(x, Raise):
                    res.append((s2, x))
                    continue
                outs = [(s2, x)]
                if f["regex"] is not None:
                    outs = self.check_regex(s2, f, x)
                for k, lim in f["checks"].items():
                    nxt = []
                    for s3, y in outs:
                        nxt.extend([(s3, y)] if isinstance(y, Raise) else self.check(s3, k, lim, y))
                    outs = nxt
                res.extend(outs)
        return res

    def check_regex(self, st, f, v):
        ip = self.ip
        R = ip.lib.regex_of(f["regex"])
        if R is None:
            return [(st, v)]
        res = []
        for s, m in ip.lib.re_call(st, "match", R, [v], {}, None):
            if isinstance(m, Raise):
                res.append((s, m))
                continue
            for s2, b in ip.branch(s, m):
                res.append((s2, v) if b is True else self.invalid(s2, (v, R)))
        return res

    def check(self, st, k, lim, v):
        ip = self.ip
        if k == "const":
            outs = ip.lib.eq(st, v, lim)
        elif k in ("min_length", "max_length", "min_items", "max_items"):
            outs = []
            for s, n in ip.lib.length(st, v):
                outs.extend([(s, n)] if isinstance(n, Raise) else ip.lib.compare(s, "ge" if k.startswith("min") else "le", n, lim))
        else:
            outs = ip.lib.compare(st, k, v, lim)
        res = []
        for s, r in outs:
            if isinstance(r, Raise):
                res.append((s, r))
                continue
            for s2, b in ip.branch(s, r):
                res.append((s2, v) if b is True else self.invalid(s2, (v,)))
        return res

    def need(self, st, t, v, out=None):
        """A value whose kind is not known: it may not fit."""
        ip = self.ip
        if isinstance(v, Sym) and v.op == "unk":
            return [(st, v)]
        a = sym("coerces", t, v, typ="bool")
        d = decide(st, a)
        if d is True:
            return [(st, out if out is not None else v)]
        if d is False:
            return [self.invalid(st, (v,))]
        s1, s2 = st.fork(), st.fork()
        s1.facts[a] = True
        s2.facts[a] = False
        return [(s1, out if out is not None else v), self.invalid(s2, (v,))]

    def co(self, st, t, v, path):
        ip = self.ip
        if isinstance(v, Phi):
            res = []
            for s, w in ip.resolve(st, v):
                res.extend(self.co(s, t, w, path))
            return res
        k = t[0]
        if k == "any":
            return [(st, v)]
        if k == "none":
            if v == NONE:
                return [(st, v)]
            if isinstance(v, Sym):
                res = []
                for s, b in ip.lib.split(st, isnone(v)):
                    res.append((s, NONE) if b else self.invalid(s, (v,)))
                return res
            return [self.invalid(st, (v,))]
        if k == "union":
            return self.co_union(st, t, v, path)
        if v == NONE:
            return [self.invalid(st, ("none",))]
        if k in ("str", "int", "float", "bool", "path", "date"):
            return self.co_simple(st, k, v)
        if k == "lit":
            res, pend = [], [st]
            for c in t[1]:
                nxt = []
                for s in pend:
                    for s2, r in ip.lib.eq(s, v, c):
                        for s3, b in ip.branch(s2, r):
                            if b is True:
                                res.append((s3, c))
                            else:
                                nxt.append(s3)
                pend = nxt
            return res + [self.invalid(s, (v,)) for s in pend]
        if k == "enum":
            if isinstance(v, Sym) and v.op == "enumitem" and v.args[0] is t[1]:
                return [(st, v)]
            return [self.convert_exc(s, w) if isinstance(w, Raise) else (s, w) for s, w in self.enum_of(st, t[1], v)]
        if k == "model":
            return self.co_model(st, t[1], v)
        if k == "inst":
            if isinstance(v, Ref):
                o = st.heap.get(v.addr)
                if isinstance(o, Inst) and o.cls.is_sub(t[1]):
                    return [(st, v)]
                return [self.invalid(st, ())]
            return self.need(st, t[1].name, v)
        if k in ("list", "set", "tuple"):
            return self.co_list(st, t, v, path)
        if k == "dict":
            return self.co_dict(st, t, v, path)
        return [(st, v)]

    def co_union(self, st, t, v, path):
        ip = self.ip
        alts = [x for x in t[1] if x[0] != "none"]
        none = len(alts) < len(t[1])
        outs = [(st, None)]
        res = []
        if none:
            if v == NONE:
                return [(st, NONE)]
            if isinstance(v, Sym) and v.typ in ("ostr", "any", "none") and v.op not in ("unk",):
                if v.typ == "any" and not alts:
                    return [(st, v)]
                d = decide(st, isnone(v))
                if d is True:
                    return [(st, NONE)]
                if v.typ == "ostr" and alts and alts[0] == ("str",):
                    return [(st, v)]
                if d is None and quick(st.facts, isnone(v)) is None and v.typ == "any":
                    s = assume(st, isnone(v), True)
                    if s is not None:
                        res.append((s, NONE))
                    st = assume(st, isnone(v), False)
                    if st is None:
                        return res
        if len(alts) == 1:
            return res + self.co(st, alts[0], v, path)
        # the first alternative that takes the value
        bad = None
        for x in alts:
            got = self.co(st, x, v, path)
            good = [(s, w) for s, w in got if not isinstance(w, Raise)]
            if good and len(good) == len(got):
                return res + got
            if good:
                return res + [(st, v)]
            bad = got
        return res + (bad or [self.invalid(st, (v,))])

    def co_simple(self, st, k, v):
        ip = self.ip
        if isinstance(v, EnumV):
            if isinstance(v.value, Const) and isinstance(v.value.v, str) and k == "str" and any(b.name == "str" for b in v.cls.mro()):
                return [(st, v)]
            return [self.invalid(st, ())]
        if isinstance(v, Const):
            x = v.v
            try:
                if k == "str":
                    return [(st, const(str(x) if not isinstance(x, str) else x))]
                if k == "int":
                    return [(st, const(int(x)))]
                if k == "float":
                    return [(st, const(float(x)))]
                if k == "bool":
                    if isinstance(x, bool):
                        return [(st, v)]
                    if x in (0, 1):
                        return [(st, const(bool(x)))]
                    if isinstance(x, str) and x.lower() in ("true", "false", "1", "0", "on", "off", "t", "f", "y", "n", "yes", "no"):
                        return [(st, const(x.lower() in ("true", "1", "on", "t", "y", "yes")))]
                    raise ValueError
                if k == "path":
                    if isinstance(x, str):
                        from .lib import mk_path

                        return [(st, mk_path(v))]
                    raise ValueError
                return [(st, v)]
            except (ValueError, TypeError, OverflowError):
                return [self.invalid(st, (v,))]
        if isinstance(v, Sym):
            if v.typ == k or k == "int" and v.typ == "num":
                return [(st, v)]
            if v.op == "unk":
                return [(st, v)]
            if v.typ == "ostr":
                # a text, if it is not None
                return ip.lib.seq(
                    ip.lib.guard(st, isnone(v), False, "ValidationError", ("none",)),
                    lambda s: [(s, v)] if k == "str" else self.need(s, k, v, sym(k, v, typ=k)),
                )
            if v.typ in ("list", "dict", "set", "tuple", "match", "fh"):
                return [self.invalid(st, (v,))]
            if k == "str":
                if v.typ in ("int", "float", "num", "bool"):
                    return [(st, sym("str", v, typ="str"))]
                if v.typ == "path":
                    return [self.invalid(st, (v,))]
                return self.need(st, k, v)
            if k in ("int", "float"):
                if v.typ in ("int", "float", "bool", "num"):
                    return [(st, sym(k, v, typ=k))]
                if v.typ == "str":
                    a = sym("is" + k, v, typ="bool")
                    return ip.lib.seq(ip.lib.guard(st, a, True, "ValidationError", (v,)), lambda s: [(s, sym(k, v, typ=k))])
                return self.need(st, k, v)
            if k == "path":
                from .lib import mk_path

                if v.typ == "str":
                    return [(st, mk_path(v))]
                return self.need(st, k, v)
            if k == "bool":
                return self.need(st, k, v)
            return self.need(st, k, v)
        return [self.invalid(st, ())]

    def co_model(self, st, c, v):
        ip = self.ip
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst):
                if o.cls.is_sub(c):
                    st = st.fork()
                    return [(st, ip.alloc(st, Inst(o.cls, dict(o.fields), o.extra)))]
                return [self.invalid(st, ())]
        if isinstance(v, Sym) and isinstance(ip.specs.get(v), ClassV) and ip.specs[v].is_sub(c):
            return [(st, v)]
        k, segs = ip.lib.view(st, v)
        if k == "dict" and segs is not None:
            if all(s[0] in ("one", "kid", "upd") and isinstance(s[1], Const) for s in segs):
                return self.construct(st, c, [], {s[1].v: s[2] for s in segs})
            if all(s[0] in ("one", "kid", "upd", "alt") for s in segs):
                cur = [(st, {})]
                for sg in segs:
                    nxt = []
                    for s, acc in cur:
                        if sg[0] != "alt":
                            if isinstance(sg[1], Const):
                                acc = {**acc, sg[1].v: sg[2]}
                            nxt.append((s, acc))
                            continue
                        for f, x in sg[1]:
                            s2 = assume_all(s, f)
                            if s2 is not None:
                                a2 = dict(acc)
                                for y in x:
                                    if y[0] == "one" and isinstance(y[1], Const):
                                        a2[y[1].v] = y[2]
                                nxt.append((s2.fork() if s2 is s else s2, a2))
                    cur = nxt
                res = []
                for s, acc in cur:
                    res.extend(self.construct(s, c, [], acc))
                return res
            return self.construct(st, c, [], {"**": v})
        if isinstance(v, Sym) and v.typ in ("any", "dict"):
            x = sym("model", c, v, typ="inst")
            ip.specs[x] = c
            return self.need(st, c.name, v, x)
        return [self.invalid(st, ())]

    def fits(self, st, t, v):
        """Does the value surely come through unchanged?"""
        if t is None or t[0] == "any":
            return True
        if isinstance(v, Phi):
            return False
        k = t[0]
        if k in ("str", "int", "float", "bool", "path"):
            return isinstance(v, Const) and type(v.v).__name__ == k or isinstance(v, Sym) and v.typ == k
        if k == "union":
            return any(self.fits(st, x, v) for x in t[1]) or v == NONE and ("none",) in t[1]
        return False

    def segs_fit(self, st, kind, segs, kt, vt):
        for s in segs:
            if s[0] in ("one", "kid", "upd"):
                if kind == "dict":
                    if not (self.fits(st, kt, s[1]) and (s[2] is None or self.fits(st, vt, s[2]))):
                        return False
                elif not self.fits(st, vt, s[1] if kind == "set" else s[2]):
                    return False
            elif s[0] == "base":
                L = self.ip.lib
                if kind == "dict":
                    if not (self.fits(st, kt, sym("key", s[1], typ=L.key_typ(s[1]))) and self.fits(st, vt, L.val_of(s[1]))):
                        return False
                elif not self.fits(st, vt, L.elem_of(s[1], kind)):
                    return False
            elif s[0] in ("star", "alt"):
                for f, x in s[2] if s[0] == "star" else s[1]:
                    if not self.segs_fit(st, kind, x, kt, vt):
                        return False
            elif s[0] == "perm":
                if not self.segs_fit(st, kind, s[2], kt, vt):
                    return False
            elif s[0] == "del":
                continue
            elif not ((kt is None or kt[0] == "any") and (vt is None or vt[0] == "any")):
                return False
        return True

    def co_list(self, st, t, v, path):
        ip = self.ip
        if isinstance(v, (Const,)) or isinstance(v, Sym) and v.typ in ("str", "int", "float", "bool", "path", "dict", "match"):
            return [self.invalid(st, (v,) if isinstance(v, Sym) else ())]
        k, segs = ip.lib.iter_view(st, v)
        if segs is None or k == "dict":
            return [self.invalid(st, ())]
        if isinstance(v, Sym) and v.typ in ("any", "ostr"):
            src = sym("aslist", v, typ="list")
            return [(s, w if isinstance(w, Raise) else ip.cont(s, t[0], (("base", v),))) for s, w in self.need(st, t[0], v)]
        if t[1] is None and isinstance(v, Ref) and st.heap[v.addr].kind == t[0]:
            return [(st, v)]
        conv = ip.lib._conv(t[0], k, segs)
        if self.segs_fit(st, t[0], conv, None, t[1]):
            st = st.fork()
            return [(st, ip.cont(st, t[0], conv))]
        st = st.fork()
        it = ip.cont(st, "list", ip.lib._conv("list", k, segs))
        return ip.lib.collect(st, it, lambda s, e: [
            (s2, w if isinstance(w, Raise) else [w]) for s2, w in self.co(s, t[1], e, path)
        ], ("coerce",) + path, t[0])

    def co_dict(self, st, t, v, path):
        ip = self.ip
        k, segs = ip.lib.view(st, v)
        if isinstance(v, Sym) and v.typ in ("any", "ostr"):
            return [(s, w if isinstance(w, Raise) else ip.cont(s, "dict", (("base", v),))) for s, w in self.need(st, "dict", v)]
        if segs is None or k != "dict":
            return [self.invalid(st, (v,) if isinstance(v, Sym) else ())]
        if t[1] is None and isinstance(v, Ref):
            return [(st, v)]
        if self.segs_fit(st, "dict", segs, t[1], t[2]):
            st = st.fork()
            return [(st, ip.cont(st, "dict", segs))]
        st = st.fork()
        acc = ip.cont(st, "dict", ())
        # an item at a time
        items = ip.cont(st, "list", tuple(ip.lib.map_segs("dict", segs, lambda a, b: ("one", None, Tup((a, b))))))

        def one(s, e):
            if not isinstance(e, Tup):
                return [(s, NEXT)]
            res = []
            for s2, a in self.co(s, t[1], e.items[0], path):
                if isinstance(a, Raise):
                    res.append((s2, a))
                    continue
                for s3, b in self.co(s2, t[2], e.items[1], path):
                    if isinstance(b, Raise):
                        res.append((s3, b))
                        continue
                    s3 = s3.fork()
                    ip.lib.put(s3, acc, ip.lib.freeze(s3, a), b)
                    res.append((s3, NEXT))
            return res

        return [(s, sig if isinstance(sig, Raise) else acc) for s, sig in ip.iterate(st, items, one, ("coerce",) + path)]

    # --------------------------------------------------------------- symbolic
    def styp(self, t):
        if t[0] in ("str", "int", "float", "bool", "path", "list", "dict", "set", "tuple", "date"):
            return t[0]
        if t[0] in ("model", "inst"):
            return "inst"
        if t[0] == "union":
            xs = [x for x in t[1] if x[0] != "none"]
            if len(xs) == 1 and xs[0][0] == "str":
                return "ostr"
            return "any"
        return "any"

    def describe(self, x, t):
        """Record what is known of a symbolic value of a type."""
        ip = self.ip
        if t[0] == "union":
            xs = [y for y in t[1] if y[0] != "none"]
            if len(xs) == 1:
                t = xs[0]
        if t[0] in ("model", "inst"):
            ip.specs[x] = t[1]
        elif t[0] in ("list", "set") and t[1] is not None:
            ip.lib.etype[x] = self.etype(t[1])
        elif t[0] == "dict" and t[1] is not None:
            e = self.etype(t[2])
            ip.lib.etype[x] = (self.styp(t[1]), e[0], e[2], e[3])

    def etype(self, t):
        spec = t[1] if t[0] in ("model", "inst") else None
        nested = None
        if t[0] in ("list", "set") and t[1] is not None:
            nested = self.etype(t[1])
        if t[0] == "dict" and t[1] is not None:
            e = self.etype(t[2])
            nested = (self.styp(t[1]), e[0], e[2], e[3])
        return (self.styp(t), None, spec, nested)

    def symbolic(self, name, c):
        """An instance of a class about which nothing else is known."""
        x = sym("arg", name, typ="inst")
        self.ip.specs[x] = c
        return x

    def sym_field(self, x, c, name):
        t = c.fields[name]["type"]
        v = sym("attr", x, const(name), typ=self.styp(t))
        self.describe(v, t)
        return v

    # ---------------------------------------------------------------- .dict()
    def names_of(self, st, v):
        if v is None or v == NONE:
            return None
        k, segs = self.ip.lib.view(st, v)
        if segs is None:
            return None
        out = set()
        for s in segs:
            x = s[1] if k in ("set", "dict") else s[2]
            if isinstance(x, Const):
                out.add(x.v)
        return out

    def to_dict(self, st, v, kw):
        """model.dict(...) -> [(st, dict | Raise)]"""
        st = st.fork()
        return [(st, self.dictify(st, v, kw, True))]

    def dictify(self, st, v, kw, top=False):
        ip = self.ip
        if isinstance(v, Phi):
            return Phi((f, self.dictify(st, x, kw)) for f, x in v.alts)
        fields = given = None
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Inst) and o.cls.kind in ("model", "dataclass", "namedtuple"):
                fields = o.fields
                if isinstance(o.extra, Const) and isinstance(o.extra.v, tuple):
                    given = o.extra.v
                c = o.cls
            elif isinstance(o, Cont):
                return ip.cont(st, o.kind, self.dict_segs(st, o.kind, o.segs, kw), o.extra)
            else:
                return v
        elif isinstance(v, Sym) and isinstance(ip.specs.get(v), ClassV) and ip.specs[v].kind == "model":
            c = ip.specs[v]
            fields = {n: self.sym_field(v, c, n) for n in c.fields}
        elif isinstance(v, Tup):
            return Tup(self.dictify(st, x, kw) for x in v.items)
        elif isinstance(v, Doc) and v.kind in ("list", "set", "dict", "tuple"):
            return v
        if fields is None:
            return v
        inc = self.names_of(st, kw.get("include")) if top else None
        exc = self.names_of(st, kw.get("exclude")) if top else None
        no_none = kw.get("exclude_none") == TRUE
        unset = kw.get("exclude_unset") == TRUE
        defaults = kw.get("exclude_defaults") == TRUE
        if unset and given is None:
            return ip.unk("dict(exclude_unset)", *fields.values())
        alias = kw.get("by_alias") == TRUE
        segs = []
        for n, x in fields.items():
            if n.startswith("__") or inc is not None and n not in inc or exc is not None and n in exc:
                continue
            key = const(c.fields[n]["alias"]) if alias and n in c.fields and c.fields[n].get("alias") else const(n)
            if unset and n not in given:
                continue
            d = (c.fields[n].get("default") if c.fields[n].get("default") is not None else NONE) if n in c.fields else None
            if defaults and d is not None and n in c.fields and (not c.fields[n].get("required") or c.fields[n].get("factory") is not None):
                if x == d:
                    continue
                if d != NONE and not isinstance(x, Const):
                    return ip.unk("dict(exclude_defaults)", *fields.values())
            if no_none or defaults and d == NONE:
                if x == NONE:
                    continue
                if isinstance(x, Phi):
                    alts = []
                    for f, y in x.alts:
                        alts.append((f, () if y == NONE else (("one", key, self.dictify(st, y, kw)),)))
                    segs.append(("alt", tuple(alts)))
                    continue
                if isinstance(x, Sym):
                    d = decide(st, isnone(x))
                    if d is True:
                        continue
                    if d is None and x.typ in ("ostr", "any", "none"):
                        segs.append(("alt", (
                            (frozenset([(isnone(x), False)]), (("one", key, self.dictify(st, x, kw)),)),
                            (frozenset([(isnone(x), True)]), ()),
                        )))
                        continue
            segs.append(("one", key, self.dictify(st, x, kw)))
        return ip.cont(st, "dict", segs)

    def dict_segs(self, st, kind, segs, kw):
        out = []
        for s in segs:
            if s[0] in ("one", "kid", "upd"):
                if kind == "set":
                    out.append(s)
                else:
                    out.append((s[0], s[1], self.dictify(st, s[2], kw) if s[2] is not None else None))
            elif s[0] == "star":
                out.append(("star", s[1], tuple((f, self.dict_segs(st, kind, x, kw)) for f, x in s[2])) + s[3:])
            elif s[0] == "alt":
                out.append(("alt", tuple((f, self.dict_segs(st, kind, x, kw)) for f, x in s[1])))
            elif s[0] == "perm":
                out.append(("perm", s[1], self.dict_segs(st, kind, s[2], kw)))
            elif s[0] == "base" and isinstance(s[1], Sym):
                # elements that are models
                e = self.ip.lib.elem_of(s[1], kind) if kind != "dict" else self.ip.lib.val_of(s[1])
                if isinstance(self.ip.specs.get(e), ClassV) and self.ip.specs[e].kind == "model":
                    d = self.dictify(st, e, kw)
                    seg = ("one", None, d) if kind != "dict" else ("one", sym("key", s[1], typ=self.ip.lib.key_typ(s[1])), d)
                    out.append(("star", s[1], ((frozenset(), (seg,)),), False))
                else:
                    out.append(s)
            else:
                out.append(s)
        return tuple(out)
