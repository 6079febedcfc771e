"""Abstract values.

Everything that the analysed program computes is represented by where it came
from: constants, symbols built from the inputs (`Sym`), references to abstract
heap objects (`Ref`), snapshots of containers (`Doc`) and choices that depend
on facts (`Phi`).  Containers are logs of what was put into them; the elements
of an unknown collection are represented once, by the `elem` symbol of that
collection, whatever their number.
"""


class Val:
    __slots__ = ()


class Const(Val):
    __slots__ = ("v",)
    _tab = {}

    def __repr__(self):
        return repr(self.v)


def const(v):
    k = (type(v), v)
    r = Const._tab.get(k)
    if r is None:
        r = Const()
        r.v = v
        Const._tab[k] = r
    return r


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


class Sym(Val):
    __slots__ = ("op", "args", "typ", "id", "_info", "_rep")
    _tab = {}
    _n = 0

    def __repr__(self):
        if self._rep is None:
            self._rep = show(self)
        return self._rep


def sym(op, *args, typ="any"):
    k = (op, args)
    r = Sym._tab.get(k)
    if r is None:
        r = Sym()
        r.op, r.args, r.typ = op, args, typ
        Sym._n += 1
        r.id = Sym._n
        r._info = r._rep = None
        Sym._tab[k] = r
    return r


class Ref(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("Ref", self.addr))

    def __repr__(self):
        return f"&{self.addr}"


class Tup(Val):
    """Equal ones are the same object, as for symbols, snapshots and choices."""

    __slots__ = ("items", "_info", "_rep")
    _tab = {}

    def __new__(cls, items):
        items = tuple(items)
        r = Tup._tab.get(items)
        if r is None:
            r = object.__new__(cls)
            r.items = items
            r._info = r._rep = None
            Tup._tab[items] = r
        return r

    def __repr__(self):
        if self._rep is None:
            self._rep = "(" + ", ".join(map(repr, self.items)) + ")"
        return self._rep


class Doc(Val):
    """An immutable snapshot of a container."""

    __slots__ = ("kind", "segs", "_info", "_rep")
    _tab = {}

    def __new__(cls, kind, segs):
        segs = tuple(segs)
        r = Doc._tab.get((kind, segs))
        if r is None:
            r = object.__new__(cls)
            r.kind, r.segs = kind, segs
            r._info = r._rep = None
            Doc._tab[(kind, segs)] = r
        return r

    def __repr__(self):
        if self._rep is None:
            self._rep = f"{self.kind}{list(self.segs)!r}"
        return self._rep


class Distinct(tuple):
    """Mark of an iteration that takes elements with the same key once (keys of a set or dictionary)."""

    __slots__ = ()

    def __bool__(self):
        return False


def distinct_mark(seg, kind):
    """What the star segment of a set or dictionary becomes when it is iterated over."""
    old = seg[3] if len(seg) > 3 else False
    if kind not in ("set", "dict") or old:
        return old
    keys = []

    def collect(segs):
        for s in segs:
            if s[0] in ("one", "upd", "kid"):
                keys.append(s[1])
            elif s[0] in ("star", "alt"):
                for _, x in s[2] if s[0] == "star" else s[1]:
                    collect(x)
            elif s[0] == "perm":
                collect(s[2])

    collect((seg,))
    src = seg[1]
    if isinstance(src, Sym) and src.typ in ("set", "dict") and all(isinstance(k, Sym) and k.op in ("elem", "key") and k.args[0] is src for k in keys):
        return old
    if not keys:
        return old
    return Distinct(dict.fromkeys((tuple(old) if isinstance(old, Distinct) else ()) + tuple(keys)))


class Phi(Val):
    """One of several values, each under its own facts."""

    __slots__ = ("alts", "_info", "_rep")
    _tab = {}

    def __new__(cls, alts):
        alts = tuple(alts)  # ((frozenset(facts), value), ...)
        r = Phi._tab.get(alts)
        if r is None:
            r = object.__new__(cls)
            r.alts = alts
            r._info = r._rep = None
            Phi._tab[alts] = r
        return r

    def __repr__(self):
        if self._rep is None:
            self._rep = "phi(" + " | ".join(repr(v) for _, v in self.alts) + ")"
        return self._rep


class Func(Val):
    __slots__ = ("node", "mod", "fid", "name", "cls", "defaults", "kwdefaults", "deco", "qual", "isgen")

    def __init__(self, node, mod, fid, name, cls, defaults, kwdefaults, qual, isgen):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls
        self.defaults, self.kwdefaults, self.qual, self.isgen = defaults, kwdefaults, qual, isgen
        self.deco = ()

    def __repr__(self):
        return f"<def {self.qual}>"


class ClassV(Val):
    __slots__ = ("name", "mod", "bases", "attrs", "kind", "fields", "fid", "validators", "node", "members", "config")

    def __init__(self, name, mod, bases):
        self.name, self.mod, self.bases = name, mod, bases
        self.attrs = {}
        self.kind = None  # 'exc' 'model' 'enum' 'dataclass' 'namedtuple' None
        self.fields = {}
        self.validators = []
        self.members = {}
        self.fid = None
        self.node = None
        self.config = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n]
        return None

    def is_sub(self, other):
        return any(c is other for c in self.mro())

    def __repr__(self):
        return f"<class {self.name}>"


class LibV(Val):
    """A name of a library or a builtin."""

    __slots__ = ("name",)
    _tab = {}

    def __repr__(self):
        return f"<{self.name}>"


def lib(name):
    r = LibV._tab.get(name)
    if r is None:
        r = LibV()
        r.name = name
        LibV._tab[name] = r
    return r


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("ModV", self.name))


class Bound(Val):
    """A method (of the repository's classes, or a builtin one by name)."""

    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self_ == self.self_ and o.fn == self.fn

    def __hash__(self):
        return hash(("Bound", self.self_, self.fn))

    def __repr__(self):
        return f"<{self.self_!r}.{self.fn!r}>"


class RegexV(Val):
    __slots__ = ("pattern", "flags")
    _tab = {}

    def __repr__(self):
        p = self.pattern
        return f"re({p if len(p) < 60 else p[:57] + '...'!r})"


def regex(pattern, flags):
    k = (pattern, int(flags))
    r = RegexV._tab.get(k)
    if r is None:
        r = RegexV()
        r.pattern, r.flags = pattern, int(flags)
        RegexV._tab[k] = r
    return r


class Partial(Val):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(kwargs)


class EnumV(Val):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


# ------------------------------------------------------------------ integers
def add_int(v, k):
    """v + k for an integer term and a number."""
    if isinstance(v, Const) and isinstance(v.v, int):
        return const(v.v + k)
    if k == 0:
        return v
    if isinstance(v, Sym) and v.op == "plus":
        return add_int(v.args[0], v.args[1] + k)
    return sym("plus", v, k, typ="int")


def base_off(v):
    if isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
        return None, v.v
    if isinstance(v, Sym) and v.op == "plus":
        return v.args
    return v, 0


# ---------------------------------------------------------------- traversal
def children(x):
    if isinstance(x, Sym):
        return x.args
    if isinstance(x, tuple) or isinstance(x, frozenset):
        return x
    if isinstance(x, Tup):
        return x.items
    if isinstance(x, Doc):
        return x.segs
    if isinstance(x, Phi):
        return x.alts
    if isinstance(x, Bound):
        return (x.self_,)
    if isinstance(x, Partial):
        return (x.args, x.kwargs)
    return ()


def walk(x):
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, (Sym, Doc, Tup, Phi)):
            k = id(y)
            if k in seen:
                continue
            seen.add(k)
        yield y
        stack.extend(children(y))


_NOINFO = (frozenset(), frozenset(), frozenset())


def info(x):
    """(symbols, heap addresses, loop markers) inside a value, cached."""
    if isinstance(x, (Sym, Doc, Tup, Phi)):
        r = x._info
        if r is None:
            d, f, m = _collect(children(x))
            if isinstance(x, Sym):
                d.add(x)
            r = x._info = (frozenset(d), frozenset(f), frozenset(m))
        return r
    if isinstance(x, Ref):
        return (frozenset(), frozenset((x.addr,)), frozenset())
    if isinstance(x, (Const, str, int, bool, LibV, ClassV, Func, ModV, RegexV, EnumV)) or x is None:
        return _NOINFO
    if isinstance(x, (tuple, frozenset)) and x or isinstance(x, (Bound, Partial)):
        d, f, m = _collect(children(x))
        if isinstance(x, tuple) and x[0] == "prev":
            m.add(x)
        return (d, f, m)
    return _NOINFO


def _collect(xs):
    d, f, m = set(), set(), set()
    for c in xs:
        i = info(c)
        if i is not _NOINFO:
            d |= i[0]
            f |= i[1]
            m |= i[2]
    return d, f, m


def deps(x):
    """All symbols inside a value."""
    return info(x)[0]


def mentions(x, syms):
    return not deps(x).isdisjoint(syms)


def has_op(x, ops):
    for y in walk(x):
        if isinstance(y, Sym) and y.op in ops:
            return True
        if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in ops:
            return True
    return False


def tainted(x):
    """Is there anything in the value the analysis could not follow?"""
    return has_op(x, ("unk",))


class Subst:
    """Replacement of symbols (and of `prev` markers of container logs)."""

    def __init__(self, m, prevs=None, refs=None):
        self.m = m
        self.keys = set(m)
        self.prevs = prevs or {}
        self.refs = refs or {}
        self.addrs = {r.addr for r in self.refs}
        self.memo = {}

    def __call__(self, x):
        if isinstance(x, (Const, LibV, ClassV, Func, ModV, RegexV, EnumV)) or x is None or isinstance(x, (str, int, bool)):
            return x
        if isinstance(x, Ref):
            return self.refs.get(x, x) if self.refs else x
        if isinstance(x, (Sym, Doc, Tup, Phi)):
            if x in self.m:
                return self.m[x]
            r = self.memo.get(x)
            if r is not None:
                return r
            i = info(x)
            if (
                i[0].isdisjoint(self.keys)
                and (not self.refs or i[1].isdisjoint(self.addrs))
                and (not self.prevs or i[2].isdisjoint(self.prevs.keys()))
            ):
                return x
        if isinstance(x, Sym):
            r = None
            if r is None:
                args = tuple(self(a) for a in x.args)
                if args == x.args:
                    r = x
                elif x.op == "plus":
                    r = add_int(args[0], args[1])
                else:
                    r = sym(x.op, *args, typ=x.typ)
                self.memo[x] = r
            return r
        if isinstance(x, tuple):
            if x and x[0] == "prev" and x in self.prevs:
                return ("SPLICE", self.prevs[x])
            out = []
            ch = False
            for a in x:
                b = self(a)
                if isinstance(b, tuple) and len(b) == 2 and b[0] == "SPLICE":
                    out.extend(b[1])
                    ch = True
                    continue
                if b is not a:
                    ch = True
                out.append(b)
            return tuple(out) if ch else x
        if isinstance(x, frozenset):
            y = frozenset(self(a) for a in x)
            return x if y == x else y
        if isinstance(x, Tup):
            r = self.memo[x] = Tup([self(a) for a in x.items])
            return r
        if isinstance(x, Doc):
            r = self.memo[x] = Doc(x.kind, self(x.segs))
            return r
        if isinstance(x, Phi):
            r = self.memo[x] = Phi(self(x.alts))
            return r
        if isinstance(x, Bound):
            return Bound(self(x.self_), x.fn)
        return x


# ------------------------------------------------------------------- printing
def show(x, depth=6):
    if depth <= 0:
        return "…"
    if isinstance(x, Sym):
        o, a = x.op, x.args
        if o == "plus":
            return f"{show(a[0], depth - 1)}+{a[1]}"
        if o == "arg":
            return str(a[0])
        if o == "elem":
            return f"each of {show(a[0], depth - 1)}"
        if o == "group":
            return f"{show(a[0], depth - 1)}[{a[1]!r}]"
        if o == "attr":
            return f"{show(a[0], depth - 1)}.{a[1]}"
        if o == "head":
            return f"{a[-1]}#{a[0]}"
        if o == "fstr":
            return "f'" + "".join(p.v if isinstance(p, Const) and isinstance(p.v, str) else "{" + show(p, depth - 1) + "}" for p in a[0]) + "'"
        return f"{o}({', '.join(show(b, depth - 1) for b in a)})"
    if isinstance(x, tuple):
        return "(" + ", ".join(show(b, depth - 1) for b in x) + ")"
    return repr(x)
