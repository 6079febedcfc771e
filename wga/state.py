"""Abstract states: variables, heap, files, effects so far and known facts."""
from . import rx, strlang
from .terms import *

NONNONE = {
    "str", "int", "float", "bool", "path", "match", "list", "dict", "set", "tuple",
    "regex", "fh", "num", "date", "func", "class", "inst", "bytes", "iter",
}


class Inst:
    __slots__ = ("cls", "fields", "extra")

    def __init__(self, cls, fields, extra=None):
        self.cls, self.fields, self.extra = cls, fields, extra

    def with_(self, name, v):
        f = dict(self.fields)
        f[name] = v
        e = self.extra
        if isinstance(e, Const) and isinstance(e.v, tuple) and name not in e.v:  # the fields of a model that were given
            e = const(e.v + (name,))
        return Inst(self.cls, f, e)

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls is self.cls and o.fields == self.fields and o.extra == self.extra

    def __ne__(self, o):
        return not self == o


class Cont:
    __slots__ = ("kind", "segs", "extra")

    def __init__(self, kind, segs, extra=None):
        self.kind, self.segs, self.extra = kind, tuple(segs), extra

    def __eq__(self, o):
        return isinstance(o, Cont) and o.kind == self.kind and o.segs == self.segs and o.extra == self.extra

    def __ne__(self, o):
        return not self == o


class FH:
    __slots__ = ("path", "mode", "pos", "closed")

    def __init__(self, path, mode, pos, closed=False):
        self.path, self.mode, self.pos, self.closed = path, mode, pos, closed

    def __eq__(self, o):
        return isinstance(o, FH) and (self.path, self.mode, self.pos, self.closed) == (o.path, o.mode, o.pos, o.closed)

    def __ne__(self, o):
        return not self == o


class State:
    __slots__ = ("frames", "heap", "facts", "dnfs", "files", "effects", "pending", "notes")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.dnfs = ()
        self.files = {}
        self.effects = ()
        self.pending = None
        self.notes = ()

    def fork(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.dnfs = self.dnfs
        s.files = dict(self.files)
        s.effects = self.effects
        s.pending = self.pending
        s.notes = self.notes
        return s

    # variables
    def set(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def effect(self, *e):
        self.effects = self.effects + (e,)


# ------------------------------------------------------------------ facts
def match_regex(m):
    """The regex a match symbol comes from, and the text it was matched on."""
    while isinstance(m, Sym):
        if m.op in ("elem", "at", "wit"):
            m = m.args[0]
            continue
        if m.op in ("finditer", "search", "match", "fullmatch", "findall"):
            return m.args[0], m.args[1]
        return None, None
    return None, None


_PAT = {}


def pat(r):
    if r not in _PAT:
        try:
            _PAT[r] = rx.pattern(r.pattern, r.flags)
            _PAT[r].rules()
        except Exception:
            _PAT[r] = None
    return _PAT[r]


def reachable(heap, roots):
    """The heap addresses reachable from some values."""
    seen = set()
    work = []
    for r in roots:
        work.extend(info(r)[1])
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        o = heap.get(a)
        if isinstance(o, Cont):
            work.extend(info(o.segs)[1])
            if o.extra is not None:
                work.extend(info(o.extra)[1])
        elif isinstance(o, Inst):
            for v in o.fields.values():
                work.extend(info(v)[1])
            if o.extra is not None:
                work.extend(info(o.extra)[1])
        elif isinstance(o, FH):
            work.extend(info(o.path)[1])
            work.extend(info(o.pos)[1])
    return seen


def isnone(v):
    return sym("isnone", v, typ="bool")


def truthy(v):
    while isinstance(v, Sym) and v.op in ("lower", "upper", "casefold") and len(v.args) == 1 and isinstance(v.args[0], Sym):
        v = v.args[0]
    return sym("truth", v, typ="bool")


def quick(facts, atom):
    """Truth of an atom from the facts, without case distinctions."""
    r = facts.get(atom)
    if r is not None:
        return r
    op = atom.op
    if op == "isnone":
        return _q_isnone(facts, atom.args[0])
    if op == "truth":
        return _q_truth(facts, atom.args[0])
    if op == "eq":
        return _q_eq(facts, *atom.args)
    if op == "lt":
        return _q_lt(facts, *atom.args)
    if op == "is":
        a, b = atom.args
        if a is b or a == b:
            return True
        return None
    if op == "isinst":
        return None
    if op in strlang.TEXTOPS:
        return strlang.decide_atom(facts, atom)
    return None


def _q_isnone(facts, x):
    if isinstance(x, Const):
        return x.v is None
    if not isinstance(x, Sym):
        return False
    if x.typ == "none":
        return True
    if x.typ in NONNONE:
        return False
    if x.op in ("key", "atkey") and isinstance(x.args[0], Sym) and x.args[0].op in ("arg", "json", "jsonof"):
        return False    # the keys of the dicts given, and of those read, are text
    t = facts.get(truthy(x))
    if t:
        return False
    if x.op in ("search", "match", "fullmatch"):
        t = quick(facts, sym("truth", x, typ="bool"))
        return None if t is None else not t
    if x.op == "group":
        return _q_group_none(facts, x)
    return None


_GATOMS = {}


def _q_group_none(facts, x):
    m, key = x.args
    R, _ = match_regex(m)
    p = pat(R) if R is not None else None
    if p is None:
        return None
    always, pairs, clauses = p.rules()
    if key in always:
        return False

    def lit(g):
        at = _GATOMS.get((m, g))
        if at is None:
            gs = sym("group", m, g, typ="ostr")
            at = _GATOMS[(m, g)] = (isnone(gs), truthy(gs))
        v = facts.get(at[0])
        if v is not None:
            return not v
        t = facts.get(at[1])
        if t:
            return True
        if g in always:
            return True
        if t is False and p.min_width(g) > 0:
            return False
        return None

    for pol in (True, False):
        for h, hp in pairs.get((key, pol), ()):
            v = lit(h)
            if v is not None and v != hp:
                return pol  # key is not `pol`: matched = not pol -> isnone = pol
    for cl in clauses:
        mine = None
        ok = True
        for g, gp in cl:
            if g == key:
                mine = gp
                continue
            v = _lit_closed(facts, m, g, pairs, always, lit)
            if v is None or v == gp:
                ok = False
                break
        if mine is not None and ok:
            return not mine
    return None


def _lit_closed(facts, m, g, pairs, always, lit):
    v = lit(g)
    if v is not None:
        return v
    for pol in (True, False):
        for h, hp in pairs.get((g, pol), ()):
            w = lit(h)
            if w is not None and w != hp:
                return not pol
    return None


def _q_truth(facts, x):
    if isinstance(x, Const):
        return bool(x.v)
    if not isinstance(x, Sym):
        return None
    if x.typ in ("match", "path", "inst", "func", "regex", "fh", "date"):
        return True
    if x.typ == "none":
        return False
    if x.op in ("search", "match", "fullmatch", "finditer"):
        return strlang.decide_atom(facts, sym("truth", x, typ="bool"))
    if x.op == "resplit" or x.op == "split" and len(x.args) > 1 and isinstance(x.args[1], Const) and x.args[1].v is not None:
        return True
    n = quick(facts, isnone(x))
    if n:
        return False
    if x.op == "group" and n is False:
        R, _ = match_regex(x.args[0])
        p = pat(R) if R is not None else None
        if p is not None and p.min_width(x.args[1]) > 0:
            return True
    return strlang.decide_truth(facts, x)


def _q_eq(facts, a, b):
    if a is b:
        return True
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    if isinstance(a, (EnumV, ClassV, Func, LibV)) and isinstance(b, (EnumV, ClassV, Func, LibV, Const)):
        return a is b
    if isinstance(b, (EnumV, ClassV, Func, LibV)) and isinstance(a, Const):
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        r = True
        for x, y in zip(a.items, b.items):
            q = quick(facts, eq_atom(x, y)) if not isinstance(eq_atom(x, y), bool) else eq_atom(x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    ba, oa = base_off(a)
    bb, ob = base_off(b)
    if ba is not None and ba == bb and isinstance(oa, int) and isinstance(ob, int):
        return oa == ob
    if isinstance(a, Sym) and isinstance(b, Sym) and a.op == "str" and b.op == "str":
        x, y = a.args[0], b.args[0]
        if getattr(x, "typ", None) == "int" and getattr(y, "typ", None) == "int":
            e = eq_atom(x, y)
            return e if isinstance(e, bool) else quick(facts, e)
    if isinstance(b, Const) and isinstance(a, Sym):
        if b.v is None:
            return quick(facts, isnone(a))
        if isinstance(b.v, str):
            if b.v == "":
                t = quick(facts, truthy(a))
                if t:
                    return False
            else:
                if facts.get(truthy(a)) is False:
                    return False
            if a.typ in ("int", "float", "bool", "path"):
                return False
        for f, pol in facts.items():
            if f.op == "eq" and pol and f.args[0] is a and isinstance(f.args[1], Const):
                return f.args[1].v == b.v
        return strlang.decide_atom(facts, sym("eq", a, b, typ="bool"))
    return None


def _q_lt(facts, a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return a.v < b.v
        except TypeError:
            return None
    ba, oa = base_off(a)
    bb, ob = base_off(b)
    if ba is not None and ba == bb and isinstance(oa, int) and isinstance(ob, int):
        return oa < ob
    if isinstance(b, Const) and isinstance(a, Sym) and a.op in ("len", "count") and isinstance(b.v, int) and b.v <= 0:
        return False
    # the same comparison with another constant
    if isinstance(a, Const) or isinstance(b, Const):
        var, k = (b, a) if isinstance(a, Const) else (a, b)
        if not isinstance(k.v, (int, float)):
            return None
        lo, hi = None, None  # inclusive integer bounds when typ int
        isint = getattr(var, "typ", None) == "int"
        if not isint:
            return None
        if isinstance(var, Sym) and var.op in ("len", "count"):
            lo = 0
        for f, pol in facts.items():
            if f.op == "lt":
                x, y = f.args
                if x is var and isinstance(y, Const) and isinstance(y.v, int):
                    if pol:
                        hi = y.v - 1 if hi is None else min(hi, y.v - 1)
                    else:
                        lo = y.v if lo is None else max(lo, y.v)
                elif y is var and isinstance(x, Const) and isinstance(x.v, int):
                    if pol:
                        lo = x.v + 1 if lo is None else max(lo, x.v + 1)
                    else:
                        hi = x.v if hi is None else min(hi, x.v)
            elif f.op == "eq" and pol and f.args[0] is var and isinstance(f.args[1], Const) and isinstance(f.args[1].v, int):
                lo = hi = f.args[1].v
            elif f.op == "truth" and f.args[0] is var and not pol:
                lo = hi = 0
        if var is a:  # var < k
            if hi is not None and hi < k.v:
                return True
            if lo is not None and lo >= k.v:
                return False
        else:  # k < var
            if lo is not None and lo > k.v:
                return True
            if hi is not None and hi <= k.v:
                return False
    return None


def okey(v):
    if isinstance(v, Sym):
        return (0, v.id)
    return (1, repr(v))


def eq_atom(a, b):
    """-> True/False, or the atom a == b."""
    if isinstance(a, Const) and not isinstance(b, Const):
        a, b = b, a
    if isinstance(a, Sym) and isinstance(b, Sym) and a.id > b.id:
        a, b = b, a
    if isinstance(b, Const) and b.v is None:
        if isinstance(a, Const):
            return a.v is None
        return isnone(a)
    return sym("eq", a, b, typ="bool")


def consistent_on(facts, disj, tp):
    """Like consistent, for the conditions that have to do with these topics."""
    for a, p in disj:
        if topics(a).isdisjoint(tp):
            continue
        v = quick(facts, a)
        if v is not None and v != p:
            return False
    return True


def consistent(facts, disj):
    for a, p in disj:
        v = quick(facts, a)
        if v is not None and v != p:
            return False
    return True


_TOPICS = {}
_DTOPICS = {}


def topics(atom):
    """What a condition is about: conditions with no topic in common are
    taken to be independent."""
    r = _TOPICS.get(atom)
    if r is None:
        s = {atom}
        for x in atom.args:
            while isinstance(x, Sym):
                s.add(x)
                if x.op in ("group", "strip", "lstrip", "rstrip", "lower", "upper", "casefold", "search", "match", "fullmatch", "len", "plus", "item", "opMod", "ccount", "count"):
                    if x.op in ("search", "match", "fullmatch"):
                        x = x.args[1]
                    else:
                        x = x.args[0]
                    continue
                break
        r = _TOPICS[atom] = frozenset(s)
    return r


def dtopics(d):
    r = _DTOPICS.get(d)
    if r is None:
        r = _DTOPICS[d] = frozenset(t for disj in d for a, _ in disj for t in topics(a))
    return r


def decide(st, atom):
    r = quick(st.facts, atom)
    if r is not None:
        return r
    if st.dnfs:
        tp = set(topics(atom))
        # the conditions that can matter, directly or through one another
        live = []
        rest = list(st.dnfs)
        more = True
        while more:
            more = False
            for d in list(rest):
                dt = dtopics(d)
                if not dt.isdisjoint(tp):
                    live.append(d)
                    rest.remove(d)
                    if len(live) < 6:
                        tp |= dt
                        more = True
        if live:
            can = [False, False]
            for pol in (True, False):
                f = dict(st.facts)
                f[atom] = pol
                if all(any(consistent_on(f, x, tp) for x in d) for d in live):
                    can[pol] = True
            if can[True] and not can[False]:
                return True
            if can[False] and not can[True]:
                return False
    return None


def assume(st, atom, pol):
    """A state in which the atom has that truth value, or None."""
    r = decide(st, atom)
    if r is not None:
        return st if r == pol else None
    s = st.fork()
    return _add(s, [(atom, pol)])


def _add(s, todo):
    todo = list(todo)
    while todo:
        a, p = todo.pop()
        v = quick(s.facts, a)
        if v is not None:
            if v != p:
                return None
            if a in s.facts:
                continue
        s.facts[a] = p
        if a.op == "eq" and p and isinstance(a.args[1], Const) and isinstance(a.args[0], Sym):
            # a value equal to a constant
            pass
        if a.op == "forall" and p:
            pass
        new = []
        tp = topics(a)
        for d in s.dnfs:
            if dtopics(d).isdisjoint(tp):
                new.append(d)
                continue
            live = [x for x in d if consistent(s.facts, x)]
            if not live:
                return None
            if len(live) == 1:
                todo.extend(live[0])
                continue
            new.append(d if len(live) == len(d) else tuple(live))
        s.dnfs = tuple(new)
    return s


def assume_all(st, lits):
    s = st
    own = False
    for a, p in sorted(lits, key=lambda x: x[0].id):
        r = decide(s, a)
        if r is not None:
            if r != p:
                return None
            continue
        if not own:
            s = s.fork()
            own = True
        s = _add(s, [(a, p)])
        if s is None:
            return None
    return s if own else s


def add_dnf(st, dnf):
    """Add a disjunction of fact sets to a state (in place); None: impossible."""
    live = []
    for x in dnf:
        if consistent(st.facts, x):
            rest = frozenset((a, p) for a, p in x if quick(st.facts, a) is None)
            if not rest:
                return st  # already satisfied
            live.append(rest)
    if not live:
        return None
    live = list(dict.fromkeys(live))
    common = frozenset.intersection(*live)
    if common and len(live) > 1:
        st = _add(st, common)
        if st is None:
            return None
        return add_dnf(st, [x - common for x in live])
    # absorb
    live = [x for x in live if not any(y < x for y in live)]
    if len(live) == 1:
        return _add(st, live[0])
    if len(live) == 2 and len(live[0]) == 1 and len(live[1]) == 1:
        (a, p), = live[0]
        (b, q), = live[1]
        if a is b and p != q:
            return st
    st.dnfs = st.dnfs + (tuple(live),)
    return st
