"""Abstract interpretation of the repository's source.

Every function is evaluated on abstract values for all inputs at once: a
branch whose condition is not decided by the known facts is followed both
ways, a loop is summarised by a fixed point over one representative element of
the collection it runs over (and, for its running values, one representative
iteration), and what is left at a join is the facts the paths agree on plus the
disjunction of those they do not.  Nothing of the repository is executed.
"""
import ast
import builtins

from . import source
from .state import *
from .state import _add, _q_isnone, _q_truth
from .terms import *

LIMIT = 6000


class Budget(Exception):
    pass


class Raise:
    """cause: what made an operation fail; why: the conditions an explicit raise is under."""

    __slots__ = ("exc", "site", "cause", "why")

    def __init__(self, exc, site, cause=(), why=()):
        self.exc, self.site, self.cause, self.why = exc, site, tuple(cause), tuple(why)


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NEXT, BREAK, CONT = "next", "break", "continue"

BUILTIN_EXC = {}


def builtin_exc(name):
    c = BUILTIN_EXC.get(name)
    if c is None:
        py = getattr(builtins, name)
        bases = [builtin_exc(b.__name__) for b in py.__bases__ if issubclass(b, BaseException)]
        c = ClassV(name, "builtins", bases)
        c.kind = "exc"
        BUILTIN_EXC[name] = c
    return c


for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        builtin_exc(_n)


def _mkexc(name, base):
    c = ClassV(name, "lib", [builtin_exc(base)])
    c.kind = "exc"
    BUILTIN_EXC[name] = c


_mkexc("JSONDecodeError", "ValueError")
_mkexc("ValidationError", "ValueError")
_mkexc("re.error", "Exception")


class Interp:
    def __init__(self, src=None):
        self.src = src or source.Source()
        self.naddr = 0
        self.nfid = 0
        self.finfo = {}
        self.modfid = {}
        self.hooks = {}
        self.loopinfo = {}
        self.contfrom = {}
        self.loopids = {}
        self.ctx = ()
        self.memo = {}
        self.impure = set()
        self.depth = 0
        self.nuniq = 0
        self.unknowns = []
        self.specs = {}
        self.phase = "import"
        self.gmark = 0
        self.import_effects = {}
        self.stack = []
        self.site = ("?", 0, "?")
        self.loading = []
        self.yieldhook = []
        self.calls_seen = set()
        self.funcs_seen = {}
        self.branches = 0
        self.loops = 0
        self.merge = True
        self.most_rests = 48
        self.json_roles = {}
        self.exc_attr = {}
        self.budget = None
        self.steps = 0
        self.cached_fns = set()
        self.gnames = {}
        self.glob_mut = {}
        self.ctl = [([], {}, True)]
        self.regex_used = set()
        from . import lib as L
        from . import pyd

        self.lib = L.Lib(self)
        self.pyd = pyd.Pyd(self)
        self.base = State()

    # ----------------------------------------------------------- plumbing
    def alloc(self, st, obj):
        self.naddr += 1
        st.heap[self.naddr] = obj
        return Ref(self.naddr)

    def new_list(self, st, vals=(), kind="list"):
        return self.alloc(st, Cont(kind, [("one", None, v) for v in vals]))

    def cont(self, st, kind, segs, extra=None):
        return self.alloc(st, Cont(kind, segs, extra))

    def unk(self, why, *parts, typ="any"):
        flat = tuple(p for p in parts if isinstance(p, Val))
        self.unknowns.append((why, self.site))
        return sym("unk", why, self.site, flat, typ=typ)

    def uniq(self):
        self.nuniq += 1
        return self.nuniq

    def exc(self, st, cls, args=(), extra=None):
        if isinstance(cls, str):
            cls = BUILTIN_EXC[cls]
        return self.alloc(st, Inst(cls, {"args": Tup(args)}, extra))

    def raise_(self, st, cls, *args, cause=()):
        return (st, Raise(self.exc(st, cls, tuple(const(a) if isinstance(a, str) else a for a in args)), self.where(), cause))

    def where(self):
        return (self.site, tuple(self.stack))

    def calls_id(self):
        """Which call this is: the call sites it is under."""
        return tuple(x[2] for x in self.stack if len(x) > 2) + (self.site,)

    @staticmethod
    def bind(outs, f):
        res = []
        for st, v in outs:
            if isinstance(v, Raise):
                res.append((st, v))
            else:
                res.extend(f(st, v))
        if len(res) > LIMIT:
            raise Budget("too many paths")
        return res

    def evs(self, nodes, st, fid):
        """Evaluate several expressions in order -> [(st, [values])] (or Raise)."""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s, fid):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            outs = nxt
        return outs

    # -------------------------------------------------------------- modules
    def load_all(self):
        for n in sorted(self.src.files):
            self.load(n)
        self.gmark = self.naddr
        self.phase = "run"
        return self

    def load(self, name):
        """Run a module's top level (as an import) in the base state."""
        if name in self.modfid:
            return self.modfid[name]
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.src.files and parent not in self.loading:
                self.load(parent)
            if name in self.modfid:
                return self.modfid[name]
        rel, tree = self.src.files[name]
        fid = self.newframe(None, None)
        self.finfo[fid] = (None, fid, None, name)
        self.modfid[name] = fid
        st = self.base
        st.frames[fid] = {
            "__name__": const(name),
            "__file__": sym("file", name, typ="str"),
        }
        self.loading.append(name)
        before = st.effects
        saved = (self.site, self.stack)
        self.stack = [("import", name)]
        try:
            outs = self.block(tree.body, st, fid)
        finally:
            self.site, self.stack = saved
            self.loading.pop()
        ok = [(s, g) for s, g in outs if g == NEXT]
        pick = ok[0][0] if ok else outs[0][0]
        if len(outs) != 1 or not ok:
            self.import_effects.setdefault("!", []).append((name, [g for _, g in outs]))
        # the base state lives on in the outcome
        if pick is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(pick, a))
        self.import_effects[name] = tuple(e for s, _ in outs for e in s.effects[len(before):])
        return fid

    def newframe(self, parent, mod):
        self.nfid += 1
        self.finfo[self.nfid] = (parent, mod, None, None)
        return self.nfid

    def module_value(self, name):
        return ModV(name)

    def modname(self, fid):
        return self.finfo[self.finfo[fid][1]][3]

    def relfile(self, modname):
        return self.src.files[modname][0] if modname in self.src.files else modname

    # ---------------------------------------------------------------- names
    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                v = fr[name]
                if v is not None:
                    return v
            f = self.finfo[f][0]
        mod = self.finfo[fid][1]
        if mod is not None:
            fr = st.frames.get(mod)
            if fr is not None and name in fr:
                return fr[name]
        return self.lib.builtin(name)

    def assign_name(self, st, fid, name, v):
        fi = self.finfo[fid]
        g = fi[2]
        if g and name in g:
            target = g[name]
            if target == "global":
                fid = fi[1]
                if self.phase == "run":
                    st.effect("global_write", (fid, name), v, self.where())
                    self.glob_mut.setdefault(("v", fid, name), self.where())
            else:
                f = fi[0]
                while f is not None and name not in st.frames.get(f, {}):
                    f = self.finfo[f][0]
                if f is not None:
                    fid = f
        st.set(fid, name, v)

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fid):
        outs = [(st, NEXT)]
        for s in stmts:
            nxt = []
            for t, sig in outs:
                if sig == NEXT and sig.__class__ is str:
                    nxt.extend(self.stmt(s, t, fid))
                else:
                    nxt.append((t, sig))
            outs = nxt
            if len(outs) > 120:
                bad = [x for x in outs if isinstance(x[1], Raise)]
                if len(bad) > 60:
                    outs = [x for x in outs if not isinstance(x[1], Raise)] + self.join_raises(bad)
            if len(outs) > LIMIT:
                raise Budget("too many paths")
        return outs

    def stmt(self, n, st, fid):
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            raise Budget("too many steps")
        mod = self.finfo[fid][1]
        self.site = (self.relfile(self.finfo[mod][3]) if mod else "?", n.lineno, self.stack[-1][1] if self.stack else "")
        m = getattr(self, "s_" + n.__class__.__name__, None)
        if m is None:
            self.unk("statement " + n.__class__.__name__)
            return [(st, NEXT)]
        return m(n, st, fid)

    def _x(self, outs, f):
        """Continue statements after expression outcomes; Raise becomes a signal."""
        res = []
        for st, v in outs:
            if isinstance(v, Raise):
                res.append((st, v))
            else:
                res.extend(f(st, v))
        return res

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [(st, NEXT)]
        outs = self.ev(n.value, st, fid)
        res = []
        good = []
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                good.append((s, NONE))
        if len(good) > 1 and self.merge and isinstance(n.value, ast.Call):
            good = self.merge_outcomes(good, st)
        return [(s, NEXT) for s, _ in good] + res

    def s_Pass(self, n, st, fid):
        return [(st, NEXT)]

    def s_Break(self, n, st, fid):
        return [(st, BREAK)]

    def s_Continue(self, n, st, fid):
        return [(st, CONT)]

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [(st, Ret(NONE))]
        return self._x(self.ev(n.value, st, fid), lambda s, v: [(s, Ret(v))])

    def s_Global(self, n, st, fid):
        return self._scope(n, st, fid, "global")

    def s_Nonlocal(self, n, st, fid):
        return self._scope(n, st, fid, "nonlocal")

    def _scope(self, n, st, fid, how):
        p, m, g, name = self.finfo[fid]
        g = dict(g or {})
        for x in n.names:
            g[x] = how
        self.finfo[fid] = (p, m, g, name)
        return [(st, NEXT)]

    def s_Assign(self, n, st, fid):
        outs = self.ev(n.value, st, fid)

        def go(s, v):
            res = [(s, NEXT)]
            for t in n.targets:
                nxt = []
                for s2, sig in res:
                    nxt.extend(self.assign(t, v, s2, fid) if sig == NEXT else [(s2, sig)])
                res = nxt
            return res

        return self._x(outs, go)

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [(st, NEXT)]
        return self._x(self.ev(n.value, st, fid), lambda s, v: self.assign(n.target, v, s, fid))

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(_as_load(n.target), n)

        def go(s, vs):
            old, v = vs
            # in-place on containers
            outs = []
            for s2, o in self.resolve(s, old):
                r = self.lib.inplace(s2, n.op, o, v)
                if r is None:
                    r = self.lib.binop(s2, n.op, o, v)
                outs.extend(r)
            return self._x(outs, lambda s3, w: self.assign(n.target, w, s3, fid))

        return self._x(self.evs([load, n.value], st, fid), go)

    def assign(self, t, v, st, fid):
        """-> [(st, sig)]"""
        if isinstance(t, ast.Name):
            self.assign_name(st, fid, t.id, v)
            return [(st, NEXT)]
        if isinstance(t, (ast.Tuple, ast.List)):
            res = []
            for s, x in self.resolve(st, v):
                if isinstance(x, Raise):
                    res.append((s, x))
                    continue
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                parts = self.lib.unpack(s, x, len(t.elts), star[0] if star else None)
                for s2, items in parts:
                    if isinstance(items, Raise):
                        res.append((s2, items))
                        continue
                    cur = [(s2, NEXT)]
                    for e, it in zip(t.elts, items):
                        e = e.value if isinstance(e, ast.Starred) else e
                        nxt = []
                        for s3, sig in cur:
                            nxt.extend(self.assign(e, it, s3, fid) if sig == NEXT else [(s3, sig)])
                        cur = nxt
                    res.extend(cur)
            return res
        if isinstance(t, ast.Attribute):
            def go(s, o):
                res = []
                for s2, x in self.resolve(s, o):
                    r = self.lib.setattr(s2, x, t.attr, v)
                    res.extend((s3, w if isinstance(w, Raise) else NEXT) for s3, w in r)
                return res

            return self._x(self.ev(t.value, st, fid), go)
        if isinstance(t, ast.Subscript):
            def go(s, vs):
                res = []
                for s2, x in self.resolve(s, vs[0]):
                    r = self.lib.setitem(s2, x, vs[1], v)
                    res.extend((s3, w if isinstance(w, Raise) else NEXT) for s3, w in r)
                return res

            return self._x(self.evs([t.value, t.slice], st, fid), go)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid)
        self.unk("assignment target")
        return [(st, NEXT)]

    def s_Delete(self, n, st, fid):
        outs = [(st, NEXT)]
        for t in n.targets:
            nxt = []
            for s, sig in outs:
                if sig != NEXT:
                    nxt.append((s, sig))
                    continue
                if isinstance(t, ast.Subscript):
                    def go(s2, vs):
                        res = []
                        for s3, x in self.resolve(s2, vs[0]):
                            r = self.lib.delitem(s3, x, vs[1])
                            res.extend((s4, w if isinstance(w, Raise) else NEXT) for s4, w in r)
                        return res

                    nxt.extend(self._x(self.evs([t.value, t.slice], s, fid), go))
                elif isinstance(t, ast.Name):
                    f = dict(s.frames[fid])
                    f.pop(t.id, None)
                    s.frames[fid] = f
                    nxt.append((s, NEXT))
                else:
                    self.unk("del")
                    nxt.append((s, NEXT))
            outs = nxt
        return outs

    def s_If(self, n, st, fid):
        def go(s, v):
            res = []
            for s2, b in self.branch(s, v):
                if isinstance(b, Raise):
                    res.append((s2, b))
                else:
                    self.ctl[-1][0].append(self.under(s2, st0, v))
                    try:
                        res.extend(self.block(n.body if b else n.orelse, s2, fid))
                    finally:
                        self.ctl[-1][0].pop()
            return res

        st0 = st.fork()
        return self.rejoin(self._x(self.ev_cond(n.test, st, fid), go), st)

    def rejoin(self, outs, st):
        """Paths that go on in the same state (but for the conditions on the way)."""
        if not self.merge:
            return outs
        good = [x for x in outs if isinstance(x[1], str) and x[1] == NEXT]
        if len(good) < 2:
            return outs
        m = self.merge_outcomes([(s, NONE) for s, _ in good], st)
        if len(m) == len(good):
            return outs
        return [(s, NEXT) for s, _ in m] + [x for x in outs if not (isinstance(x[1], str) and x[1] == NEXT)]

    def s_Assert(self, n, st, fid):
        def go(s, v):
            res = []
            for s2, b in self.branch(s, v):
                if isinstance(b, Raise):
                    res.append((s2, b))
                elif b:
                    res.append((s2, NEXT))
                else:
                    res.append(self.raise_(s2, "AssertionError"))
            return res

        return self._x(self.ev_cond(n.test, st, fid), go)

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            cur = st.frames[fid].get("__exc__") or self._outer_exc(st, fid)
            if cur is None:
                return [self.raise_(st, "RuntimeError")]
            return [(st, cur)]

        def go(s, v):
            res = []
            for s2, x in self.resolve(s, v):
                if isinstance(x, Raise):
                    res.append((s2, x))
                    continue
                if isinstance(x, ClassV):
                    for s3, y in self.call(s2, x, [], {}):
                        res.append((s3, y if isinstance(y, Raise) else Raise(y, self.where(), (), self.conditions(s3, fid))))
                elif isinstance(x, Ref):
                    cur = s2.frames[fid].get("__exc__")
                    if cur is not None and cur.exc == x:
                        res.append((s2, cur))
                    else:
                        why = self.conditions(s2, fid)
                        if cur is not None:
                            why = tuple(cur.cause) + tuple(cur.why) + why
                        res.append((s2, Raise(x, self.where(), tuple(s2.notes), why)))
                else:
                    res.append((s2, Raise(self.exc(s2, "Exception", (), "any"), self.where())))
            return res

        return self._x(self.ev(n.exc, st, fid), go)

    def conditions(self, st, fid=None):
        """What is decided by the conditions around the place that is reached."""
        for own, entry, barrier in reversed(self.ctl):
            if own:
                return tuple(dict.fromkeys(x for t in own for x in t))
            new = tuple(a for a, p in st.facts.items() if entry.get(a) != p)
            if new:
                return new
            if barrier:
                break
        return ()

    def under(self, st, st0, v):
        """The conditions that hold on this branch of a test and did not before it."""
        t = [a for a, p in st.facts.items() if st0.facts.get(a) != p]
        if isinstance(v, (Sym, Phi)):
            t.append(v)
        return tuple(t)

    def _outer_exc(self, st, fid):
        f = self.finfo[fid][0]
        while f is not None:
            c = st.frames.get(f, {}).get("__exc__")
            if c is not None:
                return c
            f = self.finfo[f][0]
        return None

    def exc_class(self, st, r):
        o = st.heap.get(r.exc.addr) if isinstance(r.exc, Ref) else None
        return o.cls if isinstance(o, Inst) else None

    def match_handler(self, st, r, types):
        """-> True / False / None (may or may not match)."""
        o = st.heap.get(r.exc.addr) if isinstance(r.exc, Ref) else None
        cls = o.cls if isinstance(o, Inst) else None
        anyexc = isinstance(o, Inst) and o.extra == "any"
        maybe = False
        for t in types:
            if not isinstance(t, ClassV):
                if isinstance(t, LibV):
                    maybe = True
                continue
            if cls is not None and cls.is_sub(t):
                return True
            if anyexc and t.is_sub(cls):
                maybe = True
        return None if maybe else False

    def s_Try(self, n, st, fid):
        outs = self.block(n.body, st, fid)
        res = []
        for s, sig in outs:
            if sig == NEXT and isinstance(sig, str):
                res.extend(self.block(n.orelse, s, fid) if n.orelse else [(s, NEXT)])
                continue
            if not isinstance(sig, Raise):
                res.append((s, sig))
                continue
            pend = [(s, sig)]
            for h in n.handlers:
                nxt = []
                for s2, r in pend:
                    if h.type is None:
                        tys = [(s2, [builtin_exc("BaseException")])]
                    else:
                        tys = []
                        for s3, tv in self.ev(h.type, s2, fid):
                            if isinstance(tv, Raise):
                                res.append((s3, tv))
                                continue
                            tys.append((s3, list(tv.items) if isinstance(tv, Tup) else [tv]))
                    for s3, ts in tys:
                        ts = [self.lib.as_exc_class(t) for t in ts]
                        mt = self.match_handler(s3, r, ts)
                        if mt is None:
                            nxt.append((s3.fork(), r))
                        elif mt is False:
                            nxt.append((s3, r))
                            continue
                        s4 = s3
                        f = dict(s4.frames[fid])
                        old = f.get("__exc__")
                        f["__exc__"] = r
                        if h.name:
                            f[h.name] = r.exc
                        s4.frames[fid] = f
                        for s5, g in self.block(h.body, s4, fid):
                            f = dict(s5.frames.get(fid, {}))
                            f["__exc__"] = old
                            if h.name:
                                f.pop(h.name, None)
                            if fid in s5.frames:
                                s5.frames[fid] = f
                            res.append((s5, g))
                pend = nxt
            res.extend(pend)
        if n.finalbody:
            fin = []
            for s, sig in res:
                for s2, g in self.block(n.finalbody, s, fid):
                    fin.append((s2, sig if g == NEXT and isinstance(g, str) else g))
            res = fin
        return res

    s_TryStar = s_Try

    def s_With(self, n, st, fid):
        return self._with(n.items, n.body, st, fid)

    def _with(self, items, body, st, fid):
        if not items:
            return self.block(body, st, fid)
        it, rest = items[0], items[1:]

        def inner(s, v):
            """enter with value v, run the rest -> [(st, sig)]"""
            if it.optional_vars is not None:
                pre = self.assign(it.optional_vars, v, s, fid)
            else:
                pre = [(s, NEXT)]
            res = []
            for s2, sig in pre:
                res.extend(self._with(rest, body, s2, fid) if sig == NEXT else [(s2, sig)])
            return res

        def go(s, cm):
            res = []
            for s2, x in self.resolve(s, cm):
                res.extend(self.lib.with_(s2, x, inner))
            return res

        return self._x(self.ev(it.context_expr, st, fid), go)

    def s_Import(self, n, st, fid):
        for a in n.names:
            nm = self.src.alias(a.name)
            if nm is not None:
                self.load(nm) if self.phase == "import" else None
                self._sync(st)
                top = a.name if a.asname else a.name.split(".")[0]
                v = ModV(nm if a.asname else top)
            elif self.src.is_namespace(a.name):
                v = ModV(a.name)
            else:
                v = lib(a.name if a.asname else a.name.split(".")[0])
            self.assign_name(st, fid, a.asname or a.name.split(".")[0], v)
        return [(st, NEXT)]

    def _sync(self, st):
        """Modules loaded meanwhile become visible."""
        if st is self.base:
            return
        for f in self.modfid.values():
            if f not in st.frames and f in self.base.frames:
                st.frames[f] = self.base.frames[f]
        for a, o in self.base.heap.items():
            if a not in st.heap:
                st.heap[a] = o

    def s_ImportFrom(self, n, st, fid):
        name = n.module or ""
        if n.level:
            me = self.finfo[self.finfo[fid][1]][3]
            pk = me if me in self.src.packages else me.rsplit(".", 1)[0] if "." in me else ""
            for _ in range(n.level - 1):
                pk = pk.rsplit(".", 1)[0] if "." in pk else ""
            name = (pk + "." + name).strip(".") if name else pk
        real = self.src.alias(name)
        for a in n.names:
            if a.name == "*":
                if real:
                    mf = self.load(real) if self.phase == "import" else self.modfid[real]
                    for k, v in list(st.frames[mf].items()):
                        if not k.startswith("_"):
                            self.assign_name(st, fid, k, v)
                continue
            v = None
            if real is not None:
                mf = self.modfid.get(real)
                if mf is None:
                    mf = self.load(real)
                self._sync(st)
                v = st.frames[mf].get(a.name)
                if v is None:
                    sub = self.src.alias(real + "." + a.name)
                    if sub is not None:
                        self.load(sub) if sub not in self.modfid else None
                        self._sync(st)
                        v = ModV(sub)
            elif self.src.is_namespace(name) or self.src.is_namespace("wiggle_shell." + name):
                sub = self.src.alias(name + "." + a.name)
                if sub is not None:
                    self.load(sub) if sub not in self.modfid else None
                    self._sync(st)
                    v = ModV(sub)
            else:
                v = self.lib.from_import(name, a.name)
            if v is None:
                v = self.unk(f"import {name}.{a.name}")
            self.assign_name(st, fid, a.asname or a.name, v)
        return [(st, NEXT)]

    def s_FunctionDef(self, n, st, fid):
        outs = self.evs(list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None] + list(n.decorator_list), st, fid)

        def go(s, vs):
            nd = len(n.args.defaults)
            dv = vs[:nd]
            kw = {}
            i = nd
            for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
                if d is not None:
                    kw[a.arg] = vs[i]
                    i += 1
            decos = vs[i:]
            fn = self.make_func(n, s, fid, dv, kw)
            v = fn
            for d in reversed(decos):
                v = self.lib.decorate(s, d, v, n)
            self.assign_name(s, fid, n.name, v)
            return [(s, NEXT)]

        return self._x(outs, go)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, n, st, fid, dv, kw, name=None):
        modfid = self.finfo[fid][1]
        modn = self.finfo[modfid][3]
        nm = name or n.name
        isgen = not isinstance(n, ast.Lambda) and _is_gen(n)
        cls = st.frames[fid].get("__classbody__")
        qual = f"{modn}.{cls.v + '.' if cls else ''}{nm}"
        return Func(n, modn, fid, nm, None, tuple(dv), tuple(kw.items()), qual, isgen)

    def s_ClassDef(self, n, st, fid):
        outs = self.evs(list(n.bases) + [k.value for k in n.keywords] + list(n.decorator_list), st, fid)

        def go(s, vs):
            nb = len(n.bases)
            bases = vs[:nb]
            kws = {k.arg: v for k, v in zip(n.keywords, vs[nb:])}
            decos = vs[nb + len(n.keywords):]
            modn = self.finfo[self.finfo[fid][1]][3]
            c = ClassV(n.name, modn, [self.lib.as_class(b) for b in bases])
            c.node = n
            cf = self.newframe(fid, self.finfo[fid][1])
            c.fid = cf
            s.frames[cf] = {"__classbody__": const(n.name)}
            res = []
            for s2, sig in self.block_class(n.body, s, cf):
                if sig != NEXT:
                    res.append((s2, sig))
                    continue
                fr = dict(s2.frames[cf])
                fr.pop("__classbody__", None)
                self.pyd.build_class(s2, c, n, fr, kws, decos, fid)
                # methods see the module, not the class body
                s2.frames[cf] = {}
                v = c
                for d in reversed(decos):
                    v = self.lib.decorate(s2, d, v, n)
                self.assign_name(s2, fid, n.name, v)
                res.append((s2, NEXT))
            return res

        return self._x(outs, go)

    def block_class(self, body, st, cf):
        ann = []
        outs = [(st, NEXT)]
        for b in body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                ann.append(b)
        outs = self.block(body, st, cf)
        return outs

    def s_Match(self, n, st, fid):
        def go(s, subj):
            res = []
            for s0, v in self.resolve(s, subj):
                pend = [s0]
                s0 = s0.fork()
                for c in n.cases:
                    nxt = []
                    for s2 in pend:
                        for s3, ok in self.pattern(c.pattern, v, s2, fid):
                            if isinstance(ok, Raise):
                                res.append((s3, ok))
                                continue
                            if not ok:
                                nxt.append(s3)
                                continue
                            if c.guard is not None:
                                for s4, g in self.ev_cond(c.guard, s3, fid):
                                    if isinstance(g, Raise):
                                        res.append((s4, g))
                                        continue
                                    for s5, b in self.branch(s4, g):
                                        if b:
                                            res.extend(self.block(c.body, s5, fid))
                                        else:
                                            nxt.append(s5)
                            else:
                                self.ctl[-1][0].append(self.under(s3, s0, v))
                                try:
                                    res.extend(self.block(c.body, s3, fid))
                                finally:
                                    self.ctl[-1][0].pop()
                    pend = nxt
                res.extend((s2, NEXT) for s2 in pend)
            return res

        return self._x(self.ev(n.subject, st, fid), go)

    def pattern(self, p, v, st, fid):
        if isinstance(p, ast.MatchValue):
            def go(s, w):
                return [(s2, b) for s2, r in self.lib.compare(s, "eq", v, w) for s2, b in self.branch(s2, r)]

            return self._x(self.ev(p.value, st, fid), go)
        if isinstance(p, ast.MatchSingleton):
            res = []
            for s2, r in self.lib.compare(st, "is", v, const(p.value)):
                res.extend(self.branch(s2, r))
            return res
        if isinstance(p, ast.MatchOr):
            res = []
            pend = [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for s2, b in self.pattern(q, v, s, fid):
                        if b:
                            res.append((s2, b))
                        else:
                            nxt.append(s2)
                pend = nxt
            return res + [(s, False) for s in pend]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.assign_name(st, fid, p.name, v)
                return [(st, True)]
            res = []
            for s, b in self.pattern(p.pattern, v, st, fid):
                if b is True and p.name:
                    self.assign_name(s, fid, p.name, v)
                res.append((s, b))
            return res
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            def go(s, c):
                res = []
                for s2, r in self.lib.isinstance_(s, v, c):
                    res.extend(self.branch(s2, r))
                return res

            return self._x(self.ev(p.cls, st, fid), go)
        if isinstance(p, ast.MatchSequence) and isinstance(v, Tup) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if len(v.items) != len(p.patterns):
                return [(st, False)]
            pend = [(st, True)]
            for q, x in zip(p.patterns, v.items):
                nxt = []
                for s, b in pend:
                    nxt.extend(self.pattern(q, x, s, fid) if b is True else [(s, b)])
                pend = nxt
            return pend
        a = truthy(self.unk("match pattern", v))
        return [(s, b) for b in (True, False) for s in [assume(st, a, b)] if s is not None]

    # ---------------------------------------------------------------- loops
    def s_For(self, n, st, fid):
        def go(s, it):
            def one(s2, v):
                res = []
                for s3, sig in self.assign(n.target, v, s2, fid):
                    res.extend(self.block(n.body, s3, fid) if sig == NEXT else [(s3, sig)])
                return res

            res = []
            for s2, x in self.resolve(s, it):
                outs = self.iterate(s2, x, one, (n.lineno, n.col_offset, self.finfo[fid][1]))
                for s3, sig in outs:
                    if sig == NEXT and isinstance(sig, str) and n.orelse:
                        res.extend(self.block(n.orelse, s3, fid))
                    elif sig == BREAK and isinstance(sig, str):
                        res.append((s3, NEXT))
                    else:
                        res.append((s3, sig))
            return res

        return self._x(self.ev(n.iter, st, fid), go)

    def s_While(self, n, st, fid):
        d = _while_to_for(n)
        if d is not None:
            init, loop = d
            v = st.frames[fid].get(init)
            if v == const(0):
                outs = self.s_For(loop, st, fid)
                return outs
        key = (n.lineno, n.col_offset, self.finfo[fid][1], "while")
        always = isinstance(n.test, ast.Constant) and bool(n.test.value)
        src = sym("iter", key, tuple(self.ctx), self.uniq(), typ="iter")

        def one(s, v):
            res = []
            if always:
                conds = [(s, True)]
            else:
                conds = []
                for s2, c in self.ev_cond(n.test, s, fid):
                    if isinstance(c, Raise):
                        res.append((s2, c))
                    else:
                        conds.extend(self.branch(s2, c))
            for s2, b in conds:
                if isinstance(b, Raise):
                    res.append((s2, b))
                elif b:
                    res.extend(self.block(n.body, s2, fid))
                else:
                    res.append((s2, "exit"))
            return res

        outs = self.summarise(st, src, [(frozenset(), sym("elem", src))], one, key, infinite=True)
        res = []
        for s, sig in outs:
            if sig == "exit" and isinstance(sig, str):
                res.extend(self.block(n.orelse, s, fid) if n.orelse else [(s, NEXT)])
            elif sig == BREAK and isinstance(sig, str):
                res.append((s, NEXT))
            else:
                res.append((s, sig))
        return res

    def iterate(self, st, it, one, key, mode=None):
        """Run `one` for each element; -> [(st, sig)], sig next/break/Ret/Raise."""
        kind, segs = self.lib.iter_view(st, it)
        if segs is None:
            return [self.raise_(st, "TypeError", cause=(it,) if isinstance(it, Sym) else ())]
        return self.iter_segs(st, kind, segs, one, key)

    def iter_segs(self, st, kind, segs, one, key):
        outs = [(st, NEXT)]
        for i, seg in enumerate(segs):
            nxt = []
            for s, sig in outs:
                if sig == NEXT and isinstance(sig, str):
                    nxt.extend(self.iter_seg(s, kind, seg, one, key + (i,)))
                else:
                    nxt.append((s, sig))
            good = [(s, NONE) for s, g in nxt if g == NEXT and isinstance(g, str)]
            if len(good) > 1 and self.merge:
                bad = [(s, g) for s, g in nxt if not (g == NEXT and isinstance(g, str))]
                good = self.merge_outcomes(good, st)
                nxt = [(s, NEXT) for s, _ in good] + bad
            outs = nxt
            if len(outs) > LIMIT:
                raise Budget("too many paths in a loop")
        return outs

    def iter_seg(self, st, kind, seg, one, key):
        k = seg[0]
        if k == "one":
            v = seg[1] if kind in ("set", "dict") else seg[2]
            return _cont(one(st, v))
        if k == "kid":
            return _cont(one(st, seg[1]))
        if k == "alt":
            res = []
            for facts, sub in seg[1]:
                s = assume_all(st, facts)
                if s is None:
                    continue
                if s is st:
                    s = st.fork()
                res.extend(self.iter_segs(s, kind, sub, one, key))
            return res
        if k == "perm":
            return self.iter_segs(st, kind, seg[2], one, key)
        if k == "base":
            src = seg[1]
            e = self.lib.elem_of(src, kind)
            return self.summarise(st, src, [(frozenset(), e)], lambda s, v: one(s, v), key)
        if k == "star":
            src, cases = seg[1], seg[2]

            def run(s, sub):
                return self.iter_segs(s, kind, sub, one, key)

            return self.summarise(st, src, list(cases), run, key, partial=distinct_mark(seg, kind))
        if k == "upd":  # an update of an entry that may be there already: no new element
            return [(st, NEXT)]
        if k == "del":
            return [(st, NEXT)]
        u = self.unk("iteration over " + k, sym("seg", k))
        return self.summarise(st, sym("unkseq", u), [(frozenset(), u)], lambda s, v: one(s, v), key)

    # ------------------------------------------------ summaries of loops
    def diff(self, head, out, mark):
        ch = set()
        for fid, fr in head.frames.items():
            o = out.frames.get(fid)
            if o is fr or o is None:
                continue
            for name, v in o.items():
                if name == "__exc__":
                    continue
                if name not in fr or (fr[name] is not v and fr[name] != v):
                    ch.add(("v", fid, name))
        for addr, ob in head.heap.items():
            o = out.heap.get(addr)
            if o is ob or o is None:
                continue
            if isinstance(ob, Inst):
                if isinstance(o, Inst):
                    for f, v in o.fields.items():
                        if f not in ob.fields or ob.fields[f] != v:
                            ch.add(("f", addr, f))
            elif o != ob:
                ch.add(("o", addr))
        for p, c in out.files.items():
            if head.files.get(p) != c:
                ch.add(("file", p))
        return ch

    def summarise(self, st0, src, alts, run, key, partial=False, infinite=False):
        """Fixed point of one representative iteration."""
        self.loops += 1
        isempty = quick(st0.facts, truthy(src))
        if isempty is False and not infinite:
            return [(st0, NEXT)]
        if isinstance(src, Sym) and not infinite:
            isempty = decide(st0, truthy(src))
            if isempty is False:
                return [(st0, NEXT)]
        mark = self.naddr
        elem = sym("elem", src)
        # what is known of every element
        foralls = [a.args[1] for a, p in st0.facts.items() if p and a.op == "forall" and a.args[0] is src]
        changed = set()
        outs = None
        lid = None
        for rnd in range(8):
            inits = []
            for c in sorted(changed, key=repr):
                inits.append((c, self.cell_init(st0, c)))
            lkey = (key, src, tuple(sorted(map(repr, inits))), len(self.stack))
            lid = self.loopids.setdefault(lkey, len(self.loopids) + 1)
            head, heads = self.make_head(st0, changed, lid)
            hfacts = dict(head.facts)
            outs = []
            ok = True
            self.ctx = self.ctx + (src,)
            try:
                for facts, item in alts:
                    s = head.fork()
                    if not infinite and isinstance(src, Sym):
                        t = truthy(src)
                        if quick(s.facts, t) is None:
                            s = _add(s, [(t, True)])
                            if s is None:
                                continue
                    s = assume_all(s, facts)
                    if s is None:
                        continue
                    if s is head:
                        s = head.fork()
                    for dnf in foralls:
                        s = add_dnf(s.fork(), dnf)
                        if s is None:
                            break
                    if s is None:
                        continue
                    for s2, sig in run(s, item):
                        outs.append((s2, sig))
                    if len(outs) > LIMIT:
                        raise Budget("too many paths in a loop body")
            finally:
                self.ctx = self.ctx[:-1]
            new = set()
            if not rnd:
                early = self.read_early(st0, outs, src, mark)
                if early:
                    res = []
                    for s in early:
                        res.extend(self.summarise(s, src, alts, run, key, partial, infinite))
                    return res
            for s, sig in outs:
                if isinstance(sig, str) and sig in (NEXT, CONT):
                    new |= {c for c in self.diff(head, s, mark) if c[0] != "file" or not self.made_in(c[1], src)}
            if new <= changed:
                break
            changed |= new
        else:
            self.unk("loop without a fixed point")
        outs = self.relabel(outs, mark, st0)
        normal = [(s, g) for s, g in outs if isinstance(g, str) and g in (NEXT, CONT)]
        others = [(s, g) for s, g in outs if not (isinstance(g, str) and g in (NEXT, CONT))]
        has_break = bool(others) and any(not isinstance(g, Raise) for _, g in others)

        # conditions that do not depend on the element or on the iteration
        local = {elem, src}
        hsyms = set(heads.values())

        def delta(s):
            return {a: p for a, p in s.facts.items() if hfacts.get(a) is None and a is not truthy(src)}

        if not infinite and len(normal) > 1:
            inv = {}
            for s, _ in normal:
                for a, p in delta(s).items():
                    if not self.is_local(a, src, lid):
                        inv.setdefault(a, set()).add(p)
            both = [a for a, ps in inv.items() if len(ps) == 2]
            if both and len(both) <= 3:
                a = sorted(both, key=lambda x: x.id)[0]
                res = []
                for pol in (True, False):
                    s = assume(st0, a, pol)
                    if s is not None:
                        res.extend(self.summarise(s, src, alts, run, key, partial, infinite))
                return res

        cases = []
        for s, _ in normal:
            d = delta(s)
            cases.append((frozenset(d.items()), s))
        results = []
        # --- completion
        if not infinite:
            if normal or isempty is not True:
                results.extend(self.complete(st0, src, lid, head, heads, changed, cases, mark, partial, isempty, infinite))
        # --- leaving in the middle
        for s, sig in [x for x in others if not isinstance(x[1], Raise)] + self.join_raises([x for x in others if isinstance(x[1], Raise)], 1):
            results.append(self.leave(st0, src, lid, head, heads, changed, cases, s, sig, mark, infinite))
        if len(results) > LIMIT:
            raise Budget("too many paths")
        return results

    def read_early(self, st0, outs, src, mark):
        """An object that every iteration takes out of the same place is taken out before the loop, as what is done to
        it is followed only when it is the same object in each of them."""
        for s, sig in outs:
            if not (isinstance(sig, str) and sig in (NEXT, CONT)):
                continue
            for a, o in s.heap.items():
                o0 = st0.heap.get(a)
                if o is o0 or not isinstance(o, Cont) or not isinstance(o0, Cont):
                    continue
                for g in o.segs:
                    if g[0] != "kid" or g in o0.segs or not isinstance(g[2], Ref) or g[2].addr <= mark or self.is_local(g[1], src, None):
                        continue
                    if self.lib.freeze(s, g[2]) == self.lib.freeze(st0, self.first_read(st0, a, g[1])):
                        # only read
                        continue
                    res = [t for t, _ in self.lib.dict_get(st0.fork(), Ref(a), o0.segs, g[1], lambda t: [(t, None)])]
                    if any(t.heap[a].segs != o0.segs for t in res):
                        return res
        return None

    def first_read(self, st, a, key):
        for t, v in self.lib.dict_get(st.fork(), Ref(a), st.heap[a].segs, key, lambda t: []):
            if v is not None and isinstance(v, Ref):
                return self.lib.freeze(t, v)
        return NONE

    def relabel(self, outs, mark, before):
        """Objects made by different paths get different addresses (unless they are equal)."""
        if len(outs) < 2:
            return outs
        taken = {}
        table = {}
        res = []
        n0 = len(before.effects)
        for s, sig in outs:
            roots = [s.effects[n0:], tuple(s.files.values())]
            for p in (sig, s.pending):
                if isinstance(p, Raise):
                    roots.append(p.exc)
                elif isinstance(p, Ret):
                    roots.append(p.v)
            live = self._newer(s, before, mark, roots)
            dead = [a for a in s.heap if a > mark and a not in live]
            if dead:
                s = s.fork()
                for a in dead:
                    del s.heap[a]
            refs = {}
            for a in sorted(live):
                o = s.heap.get(a)
                if o is None:
                    continue
                k = (a, type(o).__name__, getattr(o, "extra", None), getattr(o, "pos", None), getattr(o, "closed", None), self.lib.freeze(s, Ref(a)))
                b = table.get(k)
                if b is None:
                    b = a
                    if a in taken:
                        self.naddr += 1
                        b = self.naddr
                    table[k] = b
                    taken[b] = True
                if b != a:
                    refs[Ref(a)] = Ref(b)
            if refs:
                s, sig = self.renamed(s, sig, refs, mark)
            res.append((s, sig))
        return res

    def renamed(self, s, sig, refs, mark):
        sub = Subst({}, {}, refs)
        out = s.fork()
        for fid, fr in list(out.frames.items()):
            new = {}
            ch = False
            for k, v in fr.items():
                w = v
                if isinstance(v, Raise):
                    x = sub(v.exc)
                    w = v if x is v.exc else Raise(x, v.site, v.cause, v.why)
                elif v is not None:
                    w = sub(v)
                ch = ch or w is not v
                new[k] = w
            if ch:
                out.frames[fid] = new
        for a, o in list(s.heap.items()):
            if isinstance(o, Cont):
                g, e = sub(o.segs), sub(o.extra) if o.extra is not None else None
                p = o if g is o.segs and e is o.extra else Cont(o.kind, g, e)
            elif isinstance(o, Inst):
                fs = {k: sub(x) if x is not None else None for k, x in o.fields.items()}
                p = o if all(fs[k] is o.fields[k] for k in fs) else Inst(o.cls, fs, o.extra)
            else:
                p = o
            r = refs.get(Ref(a))
            if r is not None:
                del out.heap[a]
                out.heap[r.addr] = p
            elif p is not o:
                out.heap[a] = p
        # an address that was given away and taken again
        for r in refs.values():
            if r.addr not in out.heap:
                raise AssertionError("lost object")
        if isinstance(sig, Ret):
            sig = Ret(sub(sig.v))
        elif isinstance(sig, Raise):
            sig = Raise(sub(sig.exc), sig.site, _subs(sub, sig.cause), _subs(sub, sig.why))
        p = out.pending
        if isinstance(p, Ret):
            out.pending = Ret(sub(p.v))
        elif isinstance(p, Raise):
            out.pending = Raise(sub(p.exc), p.site, _subs(sub, p.cause), _subs(sub, p.why))
        if any(not isinstance(e, str) for e in out.effects):
            out.effects = sub(tuple(out.effects))
        out.files = {k: sub(v) for k, v in out.files.items()}
        return out, sig

    def made_in(self, p, src):
        """Is this path another one in every iteration over src?"""
        for y in deps(p):
            if y.op in ("elem", "key", "val", "idx") and y.args and y.args[0] is src:
                return True
            if y.op in ("input", "uniq", "now") and src in y.args[-1:] + tuple(x for a in y.args if isinstance(a, tuple) for x in a):
                return True
        return False

    def is_local(self, a, src, lid):
        for y in deps(a):
            if y.op in ("elem", "key", "val", "idx") and y.args and y.args[0] is src:
                return True
            if y.op in ("head", "now", "input", "uniq", "filehead", "mid", "out") :
                return True
            if y.op == "iter":
                return True
        return False

    def cell_init(self, st, c):
        if c[0] == "v":
            v = st.frames[c[1]].get(c[2])
            return self.brief(st, v)
        if c[0] == "o":
            o = st.heap.get(c[1])
            return o.segs if isinstance(o, Cont) else (o.path, o.pos) if isinstance(o, FH) else None
        if c[0] == "f":
            return self.brief(st, st.heap[c[1]].fields.get(c[2]))
        if c[0] == "file":
            return st.files.get(c[1])

    def brief(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return o.segs
        return v

    def make_head(self, st0, changed, lid):
        st = st0.fork()
        heads = {}

        def hv(cell, v):
            tag = cell[2] if len(cell) > 2 else cell[1]
            if v is None:
                return None
            if isinstance(v, Doc):
                v = self.cont(st, v.kind, v.segs)
            if isinstance(v, Ref):
                o = st.heap.get(v.addr)
                if isinstance(o, Cont):
                    h = sym("head", lid, cell, str(tag), typ=o.kind)
                    heads[cell] = h
                    return self.cont(st, o.kind, (("prev", lid, cell),), o.extra)
            typ = "any"
            if isinstance(v, Const):
                typ = type(v.v).__name__ if isinstance(v.v, (int, str, float)) and v.v is not None else "any"
            elif isinstance(v, Sym):
                typ = v.typ
            h = sym("head", lid, cell, str(tag), typ=typ)
            heads[cell] = h
            return h

        for c in sorted(changed, key=repr):
            if c[0] == "v":
                v = st.frames[c[1]].get(c[2])
                h = hv(c, v)
                if h is not None:
                    st.set(c[1], c[2], h)
            elif c[0] == "o":
                o = st.heap.get(c[1])
                if isinstance(o, Cont):
                    heads[c] = sym("head", lid, c, "content", typ=o.kind)
                    st.heap[c[1]] = Cont(o.kind, (("prev", lid, c),), o.extra)
                elif isinstance(o, FH):
                    st.heap[c[1]] = FH(o.path, o.mode, ("unk",), o.closed)
            elif c[0] == "f":
                o = st.heap[c[1]]
                h = hv(c, o.fields.get(c[2]))
                if h is not None:
                    st.heap[c[1]] = o.with_(c[2], h)
            elif c[0] == "file":
                h = sym("filehead", lid, c[1], typ="content")
                heads[c] = h
                st.files[c[1]] = ("clean", h)
                self.lib.inherit_role(h, c[1])
        return st, heads

    def cell_value(self, st, c):
        if c[0] == "v":
            return st.frames.get(c[1], {}).get(c[2])
        if c[0] == "o":
            return st.heap.get(c[1])
        if c[0] == "f":
            return st.heap[c[1]].fields.get(c[2])
        return st.files.get(c[1])

    def cont_of(self, st, v):
        if isinstance(v, Cont):
            return v
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return o
        if isinstance(v, Doc):
            return Cont(v.kind, v.segs)
        return None

    def final_cells(self, st0, src, lid, heads, changed, cases, partial):
        """Value of every changed cell after the iterations -> {cell: ('segs', kind, segs) | ('val', v) | ('flag', ...)}"""
        out = {}
        for c in changed:
            init = self.cell_value(st0, c)
            prev = ("prev", lid, c)
            vals = [(f, self.cell_value(s, c), s) for f, s in cases]
            ic = self.cont_of(st0, init)
            if c[0] == "file":
                info = tuple((f, v) for f, v, _ in vals)
                self.loopinfo[(lid, c)] = (src, init, info)
                h = sym("fileout", lid, c[1], typ="content")
                self.lib.inherit_role(h, c[1])
                out[c] = ("val", ("clean", h))
                continue
            if ic is not None:
                conts = [(f, self.cont_of(s, v)) for f, v, s in vals]
                if all(k is not None and k.segs and k.segs[0] == prev for _, k in conts):
                    star = tuple((f, k.segs[1:]) for f, k in conts)
                    if len({d for _, d in star}) > 1 and all(
                            len(d) == 1 and d[0][0] == "one" and (d[0][2] in (TRUE, FALSE) or isinstance(d[0][2], Sym) and quick(s.facts, truthy(d[0][2])) is not None)
                            for (_, d), (_, _, s) in zip(star, vals) if d) and any(d and d[0][2] in (TRUE, FALSE) for _, d in star):
                        # truth values to be asked for later on
                        star = tuple((g, d) for (f, d), (_, _, s) in zip(star, vals) for g in _spread(f, [x for x in s.dnfs if x not in st0.dnfs], {}))
                    segs = ic.segs
                    self.contfrom[(lid, c)] = segs
                    if any(d for _, d in star):
                        segs = segs + (("star", src, _merge_cases(star), partial),)
                    out[c] = ("segs", ic.kind, segs, ic.extra)
                    continue
                if c[0] == "o":
                    if conts and all(k is not None and not _mentions_prev(k.segs, prev) for _, k in conts):
                        # emptied or replaced in every iteration: the last one counts
                        u = sym("out", lid, c, "content", typ=ic.kind)
                        self.loopinfo[(lid, c)] = (src, init, tuple((f, Doc(k.kind, k.segs)) for f, k in conts))
                        out[c] = ("segs", ic.kind, (("base", u),), ic.extra)
                        continue
                    u = self.unk("loop over a container", sym("cell", repr(c)), typ=ic.kind)
                    out[c] = ("segs", ic.kind, (("base", u),), ic.extra)
                    continue
            if c[0] == "o":
                fh = [v for _, v, _ in vals if v is not None]
                out[c] = ("obj", fh[0] if fh else init)
                continue
            h = heads.get(c)
            plain = [(f, v) for f, v, _ in vals]
            typ = "any"
            if isinstance(h, Sym):
                typ = h.typ
            if h is not None and all(v is h or isinstance(v, Const) for _, v in plain):
                consts = {v for _, v in plain if v is not h}
                if len(consts) == 1 and not isinstance(next(iter(consts)).v, (int, float)) or len(consts) == 1 and isinstance(next(iter(consts)).v, bool):
                    out[c] = ("flag", next(iter(consts)), frozenset(f for f, v in plain if v is h), frozenset(f for f, v in plain if v is not h))
                    continue
            if not partial and h is not None and init == const(0) and isinstance(src, Sym) and src.typ == "str":
                # a number of characters
                cc = None
                steps = [(f, v, base_off(v)) for f, v in plain]
                if all(b is h and o in (0, 1) for _, _, (b, o) in steps) and any(o for _, _, (b, o) in steps):
                    cc = self.lib.charcount((("star", src, tuple((f, (("one", None, const(1)),) if o else ()) for f, _, (b, o) in steps), False),))
                if cc is not None:
                    out[c] = ("val", cc)
                    continue
            self.loopinfo[(lid, c)] = (src, init, tuple(plain))
            kinds = {v.typ if isinstance(v, Sym) else type(v.v).__name__ if isinstance(v, Const) and v.v is not None else "any" for _, v in plain}
            if init is not None:
                kinds.add(init.typ if isinstance(init, Sym) else type(init.v).__name__ if isinstance(init, Const) and init.v is not None else "any")
            if len(kinds) == 1:
                typ = kinds.pop()
            tag = c[2]
            out[c] = ("val", sym("out", lid, c, str(tag), typ=typ))
        return out

    def set_cell(self, st, c, v):
        if c[0] == "v":
            if v[0] == "segs":
                st.set(c[1], c[2], self.cont(st, v[1], v[2], v[3]))
            else:
                st.set(c[1], c[2], v[1])
        elif c[0] == "o":
            if v[0] == "segs":
                st.heap[c[1]] = Cont(v[1], v[2], v[3])
            else:
                st.heap[c[1]] = v[1]
        elif c[0] == "f":
            w = self.cont(st, v[1], v[2], v[3]) if v[0] == "segs" else v[1]
            st.heap[c[1]] = st.heap[c[1]].with_(c[2], w)
        elif c[0] == "file":
            st.files[c[1]] = v[1]

    def complete(self, st0, src, lid, head, heads, changed, cases, mark, partial, isempty, infinite):
        st = st0.fork()
        for _, s in cases:
            for a, o in s.heap.items():
                if a > mark and a not in st.heap:
                    st.heap[a] = o
        if not cases:
            if isinstance(src, Sym):
                s = _add(st, [(truthy(src), False)])
                return [(s, NEXT)] if s is not None else []
            return [(st, NEXT)]
        final = self.final_cells(st0, src, lid, heads, changed, cases, partial)
        # effects
        n0 = len(head.effects)
        eff = tuple((f, s.effects[n0:]) for f, s in cases)
        if any(e for _, e in eff):
            st.effects = st0.effects + (("loop", src, _merge_cases(eff), partial),)
        for c, v in final.items():
            if v[0] != "flag":
                self.set_cell(st, c, v)
        dnf = self.case_dnf(cases)
        flags = [(c, v) for c, v in final.items() if v[0] == "flag"]
        outs = [(st, None)]
        results = []
        if not flags:
            if not partial:
                self.add_forall(st, src, dnf)
                for d in folded([(f, [d for d in s.dnfs if d not in head.dnfs]) for f, s in cases]):
                    self.add_forall(st, src, d)
            return [(st, NEXT)]
        # split on whether the flag was ever set; the cells of one loop together
        sets = {}
        for c, v in flags:
            sets.setdefault((v[2], v[3]), []).append((c, v))
        combos = [st]
        states = [(st, None)]
        for (unset, setc), cs in sets.items():
            nxt = []
            for s, lim in states:
                # never set
                s1 = s.fork()
                for c, v in cs:
                    self.set_cell(s1, c, ("val", self.cell_value(st0, c)))
                lim1 = unset if lim is None else lim & unset
                if lim1 or isempty is not True:
                    nxt.append((s1, lim1))
                s2 = s.fork()
                for c, v in cs:
                    self.set_cell(s2, c, ("val", v[1]))
                ex = sym("exists", src, frozenset(setc), typ="bool")
                s2.facts[ex] = True
                s2.facts[truthy(src)] = True
                nxt.append((s2, lim))
            states = nxt
        for s, lim in states:
            d = dnf
            if lim is not None:
                keep = [f for f, _ in cases if f in lim]
                d = self.case_dnf([(f, x) for f, x in cases if f in lim])
                if not keep:
                    s.facts[truthy(src)] = False
                    results.append((s, NEXT))
                    continue
            if not partial:
                self.add_forall(s, src, d)
                for d in folded([(f, [d for d in x.dnfs if d not in head.dnfs]) for f, x in cases if lim is None or f in lim]):
                    self.add_forall(s, src, d)
            results.append((s, NEXT))
        return results

    def case_dnf(self, cases):
        fs = []
        for f, s in cases:
            fs.append(f)
        fs = list(dict.fromkeys(fs))
        fs = [x for x in fs if not any(y < x for y in fs)]
        return _simplify(fs)

    def add_forall(self, st, src, dnf):
        if not isinstance(src, Sym):
            return
        dnf = tuple(x for x in dnf)
        if any(not x for x in dnf) or not dnf or len(dnf) > 48:
            return
        st.facts[sym("forall", src, dnf, typ="bool")] = True

    def leave(self, st0, src, lid, head, heads, changed, cases, s, sig, mark, infinite):
        """The state after leaving the loop from within an iteration."""
        n = self.uniq()
        elem = sym("elem", src)
        m = {}
        if not infinite:
            for op in ("elem", "key", "val", "idx"):
                for k, v in list(Sym._tab.items()) if False else ():
                    pass
            m[elem] = sym("wit", src, n, typ=elem.typ)
            for op in ("key", "val", "idx"):
                e = Sym._tab.get((op, (src,)))
                if e is not None:
                    m[e] = sym("wit" + op, src, n, typ=e.typ)
        prevs = {}
        final = self.final_cells(st0, src, lid, heads, changed, cases, "before")
        for c, h in heads.items():
            v = final.get(c)
            if v is None:
                continue
            if v[0] == "segs":
                prevs[("prev", lid, c)] = v[2]
                m[h] = sym("mid", lid, c, "content", typ=h.typ)
            elif v[0] == "flag":
                m[h] = sym("mid", lid, c, str(c[2]), typ=h.typ)
            elif v[0] == "val":
                if c[0] == "file":
                    m[h] = sym("fileout", lid, c[1], typ="content")
                    self.lib.inherit_role(m[h], c[1])
                else:
                    m[h] = sym("mid", lid, c, str(c[2]), typ=h.typ)
        sub = Subst(m, prevs)
        out = s.fork()
        for fid in list(out.frames):
            fr = out.frames[fid]
            if fid in head.frames and fr is head.frames[fid] and fr is st0.frames.get(fid):
                continue
            out.frames[fid] = {k: (v if k == "__exc__" else sub(v) if v is not None else v) for k, v in fr.items()}
        roots = [v for f, fr in out.frames.items() for k, v in fr.items() if v is not None]
        roots += [x for a, o in out.heap.items() if a <= mark for x in ([Ref(a)] if o is not st0.heap.get(a) else ())]
        if isinstance(sig, Ret):
            roots.append(sig.v)
        elif isinstance(sig, Raise):
            roots.append(sig.exc)
        roots = [v.exc if isinstance(v, Raise) else v for v in roots]
        roots += [out.pending.exc if isinstance(out.pending, Raise) else out.pending.v if isinstance(out.pending, Ret) else NONE, out.effects[len(st0.effects):], tuple(out.files.values())]
        live = reachable(out.heap, roots)
        for a, o in list(out.heap.items()):
            if a <= mark and o is st0.heap.get(a):
                continue
            if a > mark and a not in live:
                del out.heap[a]
                continue
            if isinstance(o, Cont):
                out.heap[a] = Cont(o.kind, sub(o.segs), o.extra)
            elif isinstance(o, Inst):
                out.heap[a] = Inst(o.cls, {k: sub(v) for k, v in o.fields.items()}, o.extra)
            elif isinstance(o, FH):
                out.heap[a] = FH(sub(o.path), o.mode, sub(o.pos) if isinstance(o.pos, tuple) else o.pos, o.closed)
        out.files = {p: (sub(c) if c != st0.files.get(p) else c) for p, c in out.files.items()}
        facts = dict(st0.facts)
        for a, p in s.facts.items():
            if a not in st0.facts:
                b = sub(a)
                facts[b] = p
        out.facts = facts
        out.dnfs = tuple(st0.dnfs) + tuple(sub(d) for d in s.dnfs if d not in st0.dnfs)
        # effects: those of earlier iterations, then those of this one
        n0 = len(head.effects)
        pre = tuple((f, x.effects[n0:]) for f, x in cases)
        mid = (("loop", src, _merge_cases(pre), "before"),) if any(e for _, e in pre) else ()
        out.effects = st0.effects + mid + sub(s.effects[n0:])
        for _, x in cases:
            for a, o in x.heap.items():
                if a > mark and a not in out.heap:
                    out.heap[a] = o
        if isinstance(sig, Ret):
            sig = Ret(sub(sig.v))
        return (out, sig)

    # ---------------------------------------------------------- expressions
    def ev(self, n, st, fid):
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m is None:
            return [(st, self.unk("expression " + n.__class__.__name__))]
        return m(n, st, fid)

    def e_Constant(self, n, st, fid):
        return [(st, const(n.value))]

    def e_Name(self, n, st, fid):
        v = self.lookup(st, fid, n.id)
        if v is None:
            return [self.raise_(st, "NameError", n.id)]
        return [(st, v)]

    def e_NamedExpr(self, n, st, fid):
        def go(s, v):
            f = fid
            while self.finfo[f][3] == "comp":
                f = self.finfo[f][0]
            self.assign_name(s, f, n.target.id, v)
            return [(s, v)]

        return self.bind(self.ev(n.value, st, fid), go)

    def e_Attribute(self, n, st, fid):
        def go(s, o):
            res = []
            for s2, x in self.resolve(s, o):
                self.site = (self.site[0], n.lineno, self.site[2])
                res.extend(self.lib.getattr(s2, x, n.attr))
            return res

        return self.bind(self.ev(n.value, st, fid), go)

    def e_Subscript(self, n, st, fid):
        if isinstance(n.slice, ast.Slice):
            parts = [x for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            nodes = [n.value] + [p for p in parts if p is not None]

            def go(s, vs):
                it = iter(vs[1:])
                a, b, c = [next(it) if p is not None else NONE for p in parts]
                res = []
                for s2, x in self.resolve(s, vs[0]):
                    res.extend(self.lib.getslice(s2, x, a, b, c))
                return res

            return self.bind(self.evs(nodes, st, fid), go)

        def go(s, vs):
            res = []
            for s2, x in self.resolve(s, vs[0]):
                for s3, k in self.resolve(s2, vs[1]):
                    self.site = (self.site[0], n.lineno, self.site[2])
                    res.extend(self.lib.getitem(s3, x, k))
            return res

        return self.bind(self.evs([n.value, n.slice], st, fid), go)

    def e_Slice(self, n, st, fid):
        return [(st, self.unk("slice object"))]

    def e_Call(self, n, st, fid):
        nodes = [n.func]
        shape = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                shape.append("*")
                nodes.append(a.value)
            else:
                shape.append("")
                nodes.append(a)
        for k in n.keywords:
            shape.append(k.arg if k.arg else "**")
            nodes.append(k.value)
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return [(st, self.lib.super_(st, fid))]

        def go(s, vs):
            outs = [(s, [], {})]
            for sh, v in zip(shape, vs[1:]):
                nxt = []
                for s2, ar, kw in outs:
                    if isinstance(ar, Raise):
                        nxt.append((s2, ar, kw))
                    elif sh == "":
                        nxt.append((s2, ar + [v], kw))
                    elif sh == "*":
                        for s3, items in self.lib.spread(s2, v):
                            nxt.append((s3, items if isinstance(items, Raise) else ar + items, kw))
                    elif sh == "**":
                        for s3, d in self.lib.spread_kw(s2, v):
                            if isinstance(d, Raise):
                                nxt.append((s3, d, kw))
                            else:
                                nxt.append((s3, ar, {**kw, **d}))
                    else:
                        nxt.append((s2, ar, {**kw, sh: v}))
                outs = nxt
            res = []
            for s2, ar, kw in outs:
                if isinstance(ar, Raise):
                    res.append((s2, ar))
                    continue
                for s3, f in self.resolve(s2, vs[0]):
                    self.site = (self.site[0], n.lineno, self.site[2])
                    res.extend(self.call(s3, f, ar, kw, n))
            return res

        return self.bind(self.evs(nodes, st, fid), go)

    def e_BinOp(self, n, st, fid):
        def go(s, vs):
            res = []
            for s2, a in self.resolve(s, vs[0]):
                for s3, b in self.resolve(s2, vs[1]):
                    res.extend(self.lib.binop(s3, n.op, a, b))
            return res

        return self.bind(self.evs([n.left, n.right], st, fid), go)

    def e_UnaryOp(self, n, st, fid):
        def go(s, v):
            if isinstance(n.op, ast.Not):
                return [(s2, b if isinstance(b, Raise) else const(not b)) for s2, b in self.branch(s, v)]
            res = []
            for s2, x in self.resolve(s, v):
                if isinstance(x, Const) and isinstance(x.v, (int, float)):
                    f = {ast.USub: lambda y: -y, ast.UAdd: lambda y: +y, ast.Invert: lambda y: ~y}[type(n.op)]
                    res.append((s2, const(f(x.v))))
                else:
                    res.append((s2, sym("unary", type(n.op).__name__, x, typ=getattr(x, "typ", "any"))))
            return res

        return self.bind(self.ev(n.operand, st, fid), go)

    def e_BoolOp(self, n, st, fid):
        isand = isinstance(n.op, ast.And)

        def rec(i, s):
            outs = self.ev(n.values[i], s, fid)
            if i == len(n.values) - 1:
                return outs

            def go(s2, v):
                res = []
                for s3, w in self.resolve(s2, v):
                    if isinstance(w, Raise):
                        res.append((s3, w))
                        continue
                    for s4, b in self.branch(s3, w):
                        if isinstance(b, Raise):
                            res.append((s4, b))
                        elif b == isand:
                            res.extend(rec(i + 1, s4))
                        else:
                            # the value itself, known to be false (true)
                            res.append((s4, self.known(w, b)))
                return res

            return self.bind(outs, go)

        return rec(0, st)

    def known(self, v, b):
        if isinstance(v, Sym) and v.typ == "bool":
            return TRUE if b else FALSE
        return v

    def ev_cond(self, n, st, fid):
        return self.ev(n, st, fid)

    def e_Compare(self, n, st, fid):
        def rec(i, s, left):
            def go(s2, right):
                res = []
                for s3, a in self.resolve(s2, left):
                    for s4, b in self.resolve(s3, right):
                        for s5, r in self.lib.compare(s4, _CMP[type(n.ops[i])], a, b):
                            if isinstance(r, Raise) or i == len(n.ops) - 1:
                                res.append((s5, r))
                            else:
                                for s6, t in self.branch(s5, r):
                                    if isinstance(t, Raise) or not t:
                                        res.append((s6, t if isinstance(t, Raise) else FALSE))
                                    else:
                                        res.extend(rec(i + 1, s6, right))
                return res

            return self.bind(self.ev(n.comparators[i], s, fid), go)

        return self.bind(self.ev(n.left, st, fid), lambda s, v: rec(0, s, v))

    def e_IfExp(self, n, st, fid):
        def go(s, v):
            res = []
            for s2, b in self.branch(s, v):
                if isinstance(b, Raise):
                    res.append((s2, b))
                else:
                    res.extend(self.ev(n.body if b else n.orelse, s2, fid))
            return res

        return self.bind(self.ev_cond(n.test, st, fid), go)

    def e_JoinedStr(self, n, st, fid):
        nodes = [p.value if isinstance(p, ast.FormattedValue) else p for p in n.values]
        fmts = [p for p in n.values]

        def go(s, vs):
            parts = []
            for p, v in zip(fmts, vs):
                if isinstance(p, ast.FormattedValue):
                    spec = p.format_spec
                    spec = "" if spec is None else spec.values[0].value if isinstance(spec, ast.JoinedStr) and len(spec.values) == 1 and isinstance(spec.values[0], ast.Constant) else None
                    if p.conversion == ord("r") and isinstance(v, Const):
                        v = const(repr(v.v))
                    elif p.conversion in (ord("r"), ord("a")) or spec is None or spec and (p.conversion == ord("s") or not self.lib.plain_spec(s, v, spec)):
                        v = sym("format", v, p.conversion, ast.dump(p.format_spec) if p.format_spec else "", typ="str")
                    parts.append(self.lib.to_str(s, v))
                else:
                    parts.append(v)
            return [(s, fstr(parts))]

        return self.bind(self.evs(nodes, st, fid), go)

    def e_FormattedValue(self, n, st, fid):
        return self.bind(self.ev(n.value, st, fid), lambda s, v: [(s, self.lib.to_str(s, v))])

    def e_Tuple(self, n, st, fid):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._spread_elts(n, st, fid, lambda s, segs: [(s, self.cont(s, "tuple", segs))])
        return self.bind(self.evs(n.elts, st, fid), lambda s, vs: [(s, Tup(vs))])

    def _spread_elts(self, n, st, fid, mk):
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]

        def go(s, vs):
            outs = [(s, [])]
            for e, v in zip(n.elts, vs):
                nxt = []
                for s1, segs in outs:
                    if isinstance(segs, Raise):
                        nxt.append((s1, segs))
                    elif not isinstance(e, ast.Starred):
                        nxt.append((s1, segs + [("one", None, v)]))
                    else:
                        for s2, x in self.resolve(s1, v):
                            k, sg = self.lib.iter_view(s2, x)
                            nxt.append(self.raise_(s2, "TypeError") if sg is None else (s2, segs + list(self.lib.as_list_segs(k, sg))))
                outs = nxt
            res = []
            for s1, segs in outs:
                res.extend([(s1, segs)] if isinstance(segs, Raise) else mk(s1, segs))
            return res

        return self.bind(self.evs(nodes, st, fid), go)

    def e_List(self, n, st, fid):
        return self._spread_elts(n, st, fid, lambda s, segs: [(s, self.cont(s, "list", segs))])

    def e_Set(self, n, st, fid):
        return self._spread_elts(
            n, st, fid, lambda s, segs: [(s, self.cont(s, "set", self.lib.list_to_set(segs)))]
        )

    def e_Dict(self, n, st, fid):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)

        def go(s, vs):
            it = iter(vs)
            outs = [(s, [])]
            for k, _ in zip(n.keys, n.values):
                if k is not None:
                    kk, vv = next(it), next(it)
                    outs = [(s2, sg + [("one", kk, vv)]) for s2, sg in outs]
                else:
                    vv = next(it)
                    nxt = []
                    for s2, sg in outs:
                        for s3, x in self.resolve(s2, vv):
                            kind, segs = self.lib.view(s3, x)
                            if segs is None:
                                segs = (("base", x if isinstance(x, Sym) else self.unk("dict spread", x)),)
                            nxt.append((s3, sg + list(segs)))
                    outs = nxt
            return [(s2, self.cont(s2, "dict", sg)) for s2, sg in outs]

        return self.bind(self.evs(nodes, st, fid), go)

    def e_Lambda(self, n, st, fid):
        return self.bind(
            self.evs(list(n.args.defaults), st, fid),
            lambda s, vs: [(s, self.make_func(n, s, fid, vs, {}, "<lambda>"))],
        )

    def e_ListComp(self, n, st, fid):
        return self.comp(n, st, fid, "list")

    def e_SetComp(self, n, st, fid):
        return self.comp(n, st, fid, "set")

    def e_DictComp(self, n, st, fid):
        return self.comp(n, st, fid, "dict")

    def e_GeneratorExp(self, n, st, fid):
        return self.comp(n, st, fid, "iter")

    def comp(self, n, st, fid, kind):
        cf = self.newframe(fid, self.finfo[fid][1])
        p, m, g, _ = self.finfo[cf]
        self.finfo[cf] = (p, m, g, "comp")
        st.frames[cf] = {}
        acc = self.cont(st, kind, ())

        def item(s):
            if kind == "dict":
                outs = self.evs([n.key, n.value], s, cf)
            else:
                outs = self.evs([n.elt], s, cf)
            res = []
            for s2, vs in outs:
                if isinstance(vs, Raise):
                    res.append((s2, vs))
                    continue
                seg = ("one", vs[0], vs[1]) if kind == "dict" else ("one", vs[0], None) if kind == "set" else ("one", None, vs[0])
                o = s2.heap[acc.addr]
                segs = o.segs
                if kind != "iter" and seg[1] is not None:
                    for i, y in enumerate(segs):
                        if y[0] == "one" and y[1] is not None and (y[1] is seg[1] or quick(s2.facts, eq_atom(y[1], seg[1])) is True if not isinstance(eq_atom(y[1], seg[1]), bool) else eq_atom(y[1], seg[1])):
                            segs = segs[:i] + (("one", y[1], seg[2]),) + segs[i + 1:]
                            seg = None
                            break
                s2.heap[acc.addr] = Cont(o.kind, segs + ((seg,) if seg is not None else ()), o.extra)
                res.append((s2, NEXT))
            return res

        def gens(i, s):
            if i == len(n.generators):
                return item(s)
            g = n.generators[i]
            outs = self.ev(g.iter, s, fid if i == 0 else cf)

            def one(s2, v):
                cur = self.assign(g.target, v, s2, cf)
                for c in g.ifs:
                    nxt = []
                    for s3, sig in cur:
                        if sig != NEXT:
                            nxt.append((s3, sig))
                            continue
                        for s4, b in self.ev_cond(c, s3, cf):
                            if isinstance(b, Raise):
                                nxt.append((s4, b))
                                continue
                            for s5, t in self.branch(s4, b):
                                nxt.append((s5, NEXT if t is True else t if isinstance(t, Raise) else CONT))
                    cur = nxt
                res = []
                for s3, sig in cur:
                    if sig == NEXT and isinstance(sig, str):
                        res.extend(gens(i + 1, s3))
                    else:
                        res.append((s3, sig))
                return res

            res = []
            for s2, it in outs:
                if isinstance(it, Raise):
                    res.append((s2, it))
                    continue
                for s3, x in self.resolve(s2, it):
                    key = (n.lineno, n.col_offset, self.finfo[fid][1], i)
                    res.extend(self.iter_collect(s3, x, one, key, acc))
            return res

        res = []
        for s, sig in gens(0, st):
            s.frames.pop(cf, None)
            if isinstance(sig, Raise):
                res.append((s, sig))
            else:
                res.append((s, acc))
        return res

    def iter_collect(self, st, it, one, key, acc):
        """As iterate, but conditional items of a known list stay conditional."""
        kind, segs = self.lib.iter_view(st, it)
        if segs is None:
            return [self.raise_(st, "TypeError")]
        outs = [(st, NEXT)]
        for i, seg in enumerate(segs):
            nxt = []
            for s, sig in outs:
                if not (sig == NEXT and isinstance(sig, str)):
                    nxt.append((s, sig))
                    continue
                if seg[0] not in ("one", "alt", "kid"):
                    nxt.extend(self.iter_seg(s, kind, seg, one, key + (i,)))
                    continue
                before = s.heap[acc.addr]
                base = s.fork()
                r = self.iter_seg(s, kind, seg, one, key + (i,))
                if len(r) > 1:
                    r = self.relabel(r, max(base.heap), base)
                good = [x for x, g in r if isinstance(g, str) and g == NEXT]
                nxt.extend((x, g) for x, g in r if not (isinstance(g, str) and g == NEXT))
                if len(good) <= 1:
                    nxt.extend((x, NEXT) for x in good)
                    continue
                n0 = len(before.segs)
                deltas = [x.heap[acc.addr].segs[n0:] for x in good]
                plain = []
                for x in good:
                    y = x.fork()
                    y.heap[acc.addr] = before
                    plain.append((y, NONE))
                merged = self.merge_outcomes(plain, base, no_dnf=True)
                if len(merged) != 1:
                    nxt.extend((x, NEXT) for x in good)
                    continue
                ms = merged[0][0]
                if all(d == deltas[0] for d in deltas):
                    seg2 = deltas[0]
                else:
                    cases = tuple(
                        (frozenset((a, p) for a, p in x.facts.items() if a not in base.facts), d)
                        for x, d in zip(good, deltas)
                    )
                    seg2 = (("alt", _merge_cases(cases)),)
                ms.heap[acc.addr] = Cont(before.kind, before.segs + tuple(seg2), before.extra)
                for x in good:
                    for a, o in x.heap.items():
                        if a not in ms.heap:
                            ms.heap[a] = o
                nxt.append((ms, NEXT))
            outs = nxt
        return outs

    def e_Yield(self, n, st, fid):
        outs = self.ev(n.value, st, fid) if n.value is not None else [(st, NONE)]

        def go(s, v):
            return self.yieldhook[-1](s, v, fid)

        return self.bind(outs, go)

    def e_YieldFrom(self, n, st, fid):
        def go(s, it):
            hook = self.yieldhook[-1]

            def one(s2, v):
                return [(s3, w if isinstance(w, Raise) else NEXT) for s3, w in hook(s2, v, fid)]

            res = []
            for s2, x in self.resolve(s, it):
                for s3, sig in self.iterate(s2, x, one, (n.lineno, n.col_offset, "yf")):
                    res.append((s3, sig if isinstance(sig, Raise) else NONE))
            return res

        return self.bind(self.ev(n.value, st, fid), go)

    def e_Await(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def e_Starred(self, n, st, fid):
        return self.ev(n.value, st, fid)

    # -------------------------------------------------------- branch, resolve
    def resolve(self, st, v):
        """Choose the alternative of a Phi -> [(st, value)]"""
        if not isinstance(v, Phi):
            return [(st, v)]
        res = []
        for facts, w in v.alts:
            s = assume_all(st, facts)
            if s is None:
                continue
            if s is st:
                s = st.fork()
            res.extend(self.resolve(s, w))
        return res

    def branch(self, st, v):
        """-> [(st, True/False)]"""
        self.branches += 1
        if isinstance(v, Raise):
            return [(st, v)]
        if isinstance(v, Phi):
            # group by truth value where that needs no choice
            res = []
            for s, w in self.resolve(st, v):
                res.extend(self.branch(s, w))
            return res
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Sym):
            if v.op == "not":
                return [(s, b if isinstance(b, Raise) else not b) for s, b in self.branch(st, v.args[0])]
            if v.typ == "bool" and v.op in ATOMS:
                a = v
            elif v.op in ("ccount", "count", "opMod") and v.typ == "int":
                return [(s, b if isinstance(b, Raise) else not b) for s, r in self.lib.eq(st, v, const(0)) for s, b in self.branch(s, r)]
            elif v.typ in ("list", "dict", "set", "iter") or True:
                if v.typ in self.lib.ALWAYS_TRUE:
                    return [(st, True)]
                sp = self.specs.get(v)
                if isinstance(sp, ClassV) and not (sp.lookup("__len__") or sp.lookup("__bool__")):
                    n = decide(st, isnone(v)) if v.typ in ("any",) else False
                    if v.typ == "inst":
                        return [(st, True)]
                a = truthy(v)
            d = decide(st, a)
            if d is not None:
                return [(st, d)]
            res = []
            for b in (True, False):
                s = assume(st, a, b)
                if s is not None:
                    res.append((s, b))
            return res
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, (Doc,)):
            return self.lib.cont_truth(st, v.kind, v.segs)
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, Cont):
                return self.lib.cont_truth(st, o.kind, o.segs)
            if isinstance(o, Inst):
                for nm in ("__bool__", "__len__"):
                    f = o.cls.lookup(nm) if isinstance(o.cls, ClassV) else None
                    if f is not None:
                        res = []
                        for s, r in self.call(st, Bound(v, f), [], {}):
                            res.extend(self.branch(s, r) if not isinstance(r, Raise) else [(s, r)])
                        return res
            return [(st, True)]
        return [(st, True)]

    # ----------------------------------------------------------------- calls
    def call(self, st, f, args, kw, node=None):
        """-> [(st, value or Raise)]"""
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(st, f.fn, [f.self_] + list(args), kw)
            if isinstance(f.fn, str):
                return self.lib.method(st, f.self_, f.fn, list(args), kw, node)
            return self.call(st, f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, ClassV):
            return self.pyd.construct(st, f, list(args), kw)
        if isinstance(f, LibV):
            return self.lib.call(st, f.name, list(args), kw, node)
        if isinstance(f, Partial):
            return self.call(st, f.fn, list(f.args) + list(args), {**dict(f.kwargs), **kw}, node)
        if isinstance(f, Ref):
            o = st.heap.get(f.addr)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                m = o.cls.lookup("__call__")
                if m is not None:
                    return self.call(st, Bound(f, m), args, kw, node)
        if isinstance(f, Const):
            return [self.raise_(st, "TypeError")]
        return [(st, self.unk("call", f, *args))]

    def call_func(self, st, fn, args, kw):
        h = self.hooks.get(fn.qual)
        if h is not None:
            r = h(self, st, fn, args, kw)
            if r is not None:
                return r
        if fn in self.cached_fns:
            return self.call_cached(st, fn, args, kw)
        if self.memoable(fn, args, kw):
            r = self.call_memo(st, fn, args, kw)
            if r is not None:
                return r
        return self.call_plain(st, fn, args, kw)

    def call_cached(self, st, fn, args, kw):
        n0 = len(st.effects)
        mark = self.naddr
        outs = self.call_plain(st, fn, args, kw)
        res = []
        for s, v in outs:
            if not isinstance(v, Raise) and self.phase == "run":
                impure = [e for e in s.effects[n0:] if e[0] in ("read", "open", "write", "now", "input", "listdir")]
                if impure or has_op(v, ("now", "content")):
                    s.effect("cached", fn.qual, tuple(impure), self.where())
                    v = self.stale(s, v, fn)
                elif isinstance(v, Ref) and v.addr > mark:
                    # shared from now on
                    s.effect("shared", fn.qual, v, self.where())
            res.append((s, v))
        return res

    def stale(self, st, v, fn):
        """The result of an earlier call with the same arguments may be returned."""
        fv = self.lib.freeze(st, v)
        return sym("stale", fn.qual, fv, typ=self.lib.kind(st, v))

    def call_plain(self, st, fn, args, kw, barrier=False):
        if self.depth > 60 or sum(1 for x in self.stack if x[1] == fn.qual) > 4:
            return [(st, self.unk("deep recursion", *args))]
        n = fn.node
        a = n.args
        frame = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                return [self.raise_(st, "TypeError", f"{fn.name}() takes {len(pos)} arguments")]
            frame[a.vararg.arg] = Tup(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            frame[a.vararg.arg] = Tup(())
        for name, v in zip(pos, args):
            frame[name] = v
        nd = len(fn.defaults)
        for i, name in enumerate(pos):
            if name in frame:
                if name in kw and name not in [x.arg for x in a.posonlyargs]:
                    return [self.raise_(st, "TypeError", f"multiple values for {name}")]
                continue
            if name in kw:
                frame[name] = kw.pop(name)
            elif i >= len(pos) - nd:
                frame[name] = fn.defaults[i - (len(pos) - nd)]
            else:
                return [self.raise_(st, "TypeError", f"missing argument {name}")]
        kwd = dict(fn.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg in kw:
                frame[x.arg] = kw.pop(x.arg)
            elif x.arg in kwd:
                frame[x.arg] = kwd[x.arg]
            else:
                return [self.raise_(st, "TypeError", f"missing argument {x.arg}")]
        if a.kwarg is not None:
            frame[a.kwarg.arg] = self.cont(st, "dict", [("one", const(k), v) for k, v in kw.items()])
        elif kw:
            return [self.raise_(st, "TypeError", f"unexpected argument {sorted(kw)[0]}")]
        fid = self.newframe(fn.fid, self.modfid[fn.mod])
        # methods do not see the class body
        pf = self.finfo[fn.fid]
        st.frames[fid] = frame
        self.depth += 1
        saved = self.site
        relf = self.relfile(fn.mod)
        self.stack.append((relf, fn.qual, saved))
        self.ctl.append(([], dict(st.facts), barrier))
        self.funcs_seen[fn.qual] = (relf, getattr(n, "lineno", 0))
        mark = self.naddr
        before = st.fork()
        try:
            if isinstance(n, ast.Lambda):
                outs = [(s, v if isinstance(v, Raise) else Ret(v)) for s, v in self.ev(n.body, st, fid)]
            elif fn.isgen:
                outs = self.run_gen(n, st, fid)
            else:
                outs = self.block(n.body, st, fid)
        finally:
            self.stack.pop()
            self.ctl.pop()
            self.depth -= 1
            self.site = saved
        keep = _captures(n)
        res = []
        bad = []
        for s, sig in outs:
            if not keep:
                s.frames.pop(fid, None)
            if isinstance(sig, Raise):
                bad.append((s, sig))
            elif isinstance(sig, Ret):
                res.append((s, sig.v))
            else:
                res.append((s, NONE))
        if self.merge and self.depth > 0 and len(res) > 1:
            before.frames.pop(fid, None)
            res = self.merge_outcomes(res, before, mark)
        return res + self.join_raises(bad)

    def join_raises(self, bad, most=3):
        """Failures of the same kind at the same place are joined."""
        if len(bad) <= (most if self.merge else 200):
            return bad
        groups = {}
        for s, r in bad:
            k = (self.exc_class(s, r), r.site, s.effects, tuple(sorted(s.files.items(), key=repr)))
            groups.setdefault(k, []).append((s, r))
        res = []
        for g in groups.values():
            if len(g) <= most:
                res.extend(g)
                continue
            res.extend(g[: most - 1])
            g = g[most - 1:]
            s0, r0 = g[0]
            t = s0.fork()
            t.facts = {a: p for a, p in s0.facts.items() if all(s.facts.get(a) == p for s, _ in g[1:])}
            t.dnfs = tuple(d for d in s0.dnfs if all(d in s.dnfs for s, _ in g[1:]))
            cause = tuple(dict.fromkeys(c for _, r in g for c in r.cause))[:16]
            why = tuple(dict.fromkeys(c for _, r in g for c in r.why))[:16]
            res.append((t, Raise(r0.exc, r0.site, cause, why)))
        return res

    def memoable(self, fn, args, kw):
        if self.phase != "run" or fn in self.impure or fn.fid != self.modfid.get(fn.mod) or fn.isgen:
            return False
        n = 0
        for a in list(args) + list(kw.values()):
            if isinstance(a, Sym) and a.typ in ("str", "ostr"):
                n += 1
            elif not isinstance(a, (Const, EnumV)):
                return False
        return n > 0

    def call_memo(self, st, fn, args, kw):
        """A function of texts only: its outcomes are computed once per call site
        and set of facts on the texts."""
        syms = [a for a in list(args) + list(kw.values()) if isinstance(a, Sym)]
        rel = frozenset((a, p) for a, p in st.facts.items() if a.op != "returns" and any(x in deps(a) for x in syms))
        key = (fn, tuple(args), tuple(kw.items()), rel, tuple(self.stack), self.site, repr(self.ctx), len(self.glob_mut))
        hit = self.memo.get(key)
        if hit is None:
            base = st.fork()
            base.facts = dict(rel)
            base.dnfs = ()
            outs = self.call_plain(base, fn, args, kw, True)
            hit = []
            for s, v in outs:
                if (
                    s.effects != st.effects
                    or s.pending != st.pending
                    or s.files != st.files
                    or any(s.frames.get(f) is not fr for f, fr in st.frames.items())
                    or any(s.heap.get(a) is not o for a, o in st.heap.items())
                ):
                    print("IMP",fn.qual,s.effects != st.effects,s.pending!=st.pending,s.files!=st.files,[f for f, fr in st.frames.items() if s.frames.get(f) is not fr],[(a,o.kind if isinstance(o,Cont) else o,s.heap.get(a)) for a, o in st.heap.items() if s.heap.get(a) is not o][:3])
                    self.impure.add(fn)
                    return None
                live = reachable(s.heap, [v.exc if isinstance(v, Raise) else v])
                new = {a: o for a, o in s.heap.items() if a not in st.heap and a in live}
                hit.append((tuple((a, p) for a, p in s.facts.items() if (a, p) not in rel), s.dnfs, new, v))
            self.memo[key] = hit
        res = []
        # the same texts have the same outcome every time
        ok = None
        if len(hit) > 1 and any(isinstance(x[3], Raise) for x in hit) and not kw:
            ok = sym("returns", fn, tuple(args), typ="bool")
        for facts, dnfs, heap, v in hit:
            t = st
            if ok is not None:
                known = t.facts.get(ok)
                if known is not None and known == isinstance(v, Raise):
                    continue
                if known is None:
                    t = t.fork()
                    t.facts[ok] = not isinstance(v, Raise)
            t = assume_all(t, facts)
            if t is None:
                continue
            if t is st:
                t = t.fork()
            for d in dnfs:
                t = add_dnf(t, d)
                if t is None:
                    break
            if t is None:
                continue
            if heap:
                # objects of its own for every call
                refs = {}
                for a in heap:
                    self.naddr += 1
                    refs[Ref(a)] = Ref(self.naddr)
                sub = Subst({}, refs=refs)
                for a, o in heap.items():
                    if isinstance(o, Cont):
                        o = Cont(o.kind, sub(o.segs), sub(o.extra))
                    elif isinstance(o, Inst):
                        o = Inst(o.cls, {k: sub(x) for k, x in o.fields.items()}, o.extra)
                    t.heap[refs[Ref(a)].addr] = o
                v = Raise(sub(v.exc), v.site, v.cause, v.why) if isinstance(v, Raise) else sub(v)
            if isinstance(v, Raise) and not v.cause and not v.why:
                v = Raise(v.exc, v.site, v.cause, self.conditions(st))
            res.append((t, v))
        return res

    def run_gen(self, n, st, fid):
        acc = self.cont(st, "iter", ())

        def hook(s, v, f):
            if f == fid:
                o = s.heap[acc.addr]
                s.heap[acc.addr] = Cont(o.kind, o.segs + (("one", None, v),), o.extra)
            return [(s, NONE)]

        self.yieldhook.append(hook)
        try:
            outs = self.block(n.body, st, fid)
        finally:
            self.yieldhook.pop()
        res = []
        for s, sig in outs:
            res.append((s, sig if isinstance(sig, Raise) else Ret(acc)))
        return res

    # ----------------------------------------------------------------- joins
    def plain_value(self, st, v, mark):
        """The value as one that does not depend on the heap, or None."""
        if isinstance(v, (Const, LibV, ClassV, Func, RegexV, EnumV, ModV, Sym)):
            return v
        if isinstance(v, Tup):
            xs = [self.plain_value(st, x, mark) for x in v.items]
            return None if any(x is None for x in xs) else Tup(xs)
        if isinstance(v, Doc):
            return v
        if isinstance(v, Phi):
            xs = [(f, self.plain_value(st, x, mark)) for f, x in v.alts]
            return None if any(x is None for _, x in xs) else Phi(xs)
        if isinstance(v, Ref):
            if mark is None or v.addr <= mark:
                return v
            o = st.heap.get(v.addr)
            if isinstance(o, Cont) and o.extra is None:
                segs = self.plain_segs(st, o.segs, mark)
                return None if segs is None else Doc(o.kind, segs)
        return None

    def plain_segs(self, st, segs, mark):
        out = []
        for s in segs:
            if s[0] == "one":
                k = self.plain_value(st, s[1], mark) if s[1] is not None else None
                v = self.plain_value(st, s[2], mark) if s[2] is not None else None
                if (s[1] is not None and k is None) or (s[2] is not None and v is None):
                    return None
                out.append(("one", k, v))
            elif s[0] == "star":
                cs = []
                for f, sg in s[2]:
                    x = self.plain_segs(st, sg, mark)
                    if x is None:
                        return None
                    cs.append((f, x))
                out.append(("star", s[1], tuple(cs), s[3]))
            elif s[0] == "alt":
                cs = []
                for f, sg in s[1]:
                    x = self.plain_segs(st, sg, mark)
                    if x is None:
                        return None
                    cs.append((f, x))
                out.append(("alt", tuple(cs)))
            elif s[0] == "base":
                out.append(s)
            else:
                return None
        return tuple(out)

    def same_state(self, a, b, mark, before=None):
        if a.effects != b.effects or a.pending != b.pending:
            return False
        if a.files != b.files:
            return False
        for f, fr in a.frames.items():
            o = b.frames.get(f)
            if o is fr:
                continue
            if o is None:
                return False
            if o != fr:
                return False
        if len(a.frames) != len(b.frames):
            return False
        for ad, o in a.heap.items():
            if mark is not None and ad > mark:
                continue
            p = b.heap.get(ad)
            if p is o:
                continue
            if p is None or p != o:
                return False
        if before is not None:
            # objects made on the way that are still in use
            for ad in self._newer(a, before, mark) | self._newer(b, before, mark):
                if a.heap.get(ad) != b.heap.get(ad):
                    return False
        return True

    def _newer(self, s, before, mark, more=()):
        roots = list(more)
        for f, fr in s.frames.items():
            if before.frames.get(f) is not fr:
                roots.extend(v.exc if isinstance(v, Raise) else v for v in fr.values() if v is not None)
        bh = before.heap
        addrs = [ad for ad, o in s.heap.items() if ad <= mark and bh.get(ad) is not o]
        return {ad for ad in reachable(s.heap, roots + [Ref(ad) for ad in addrs]) if ad > mark}

    def merge_outcomes(self, outs, before, mark=None, no_dnf=False):
        """Join outcomes that differ in their facts (and values) only."""
        groups = []
        rest = []
        hm = max(before.heap) if mark is None and before.heap else (mark or 0)
        for s, v in outs:
            pv = self.plain_value(s, v, hm)
            fresh = None
            if pv is None and isinstance(v, Ref) and v.addr > hm and all(a > hm for a in reachable(s.heap, [v])):
                # a new object: joined with equal ones
                fresh = pv = self.lib.freeze(s, v)
            if pv is None:
                rest.append((s, v))
                continue
            for g in groups:
                if (g[0][3] is fresh) and self.same_state(g[0][0], s, hm, before):
                    g.append((s, pv, v, fresh))
                    break
            else:
                groups.append([(s, pv, v, fresh)])
        res = []
        for g in groups:
            if len(g) == 1:
                s, pv, v, _ = g[0]
                res.append((s, v))
                continue
            common = {a: p for a, p in g[0][0].facts.items() if all(x[0].facts.get(a) == p for x in g[1:])}
            ms = g[0][0].fork()
            ms.facts = common
            ms.dnfs = tuple(d for d in g[0][0].dnfs if all(d in x[0].dnfs for x in g[1:]))
            for d in before.dnfs:
                # what was known before still holds
                if d not in ms.dnfs:
                    t = add_dnf(ms, d)
                    ms = t if t is not None else ms
            common = ms.facts
            rests = [frozenset((a, p) for a, p in x[0].facts.items() if a not in common) for x in g]
            if not no_dnf and len(rests) <= self.most_rests:
                simp = _simplify(list(dict.fromkeys(rests)))
                if simp and not any(not x for x in simp):
                    t = add_dnf(ms, simp)
                    if t is None:
                        t = ms
                    ms = t
                kept = set(ms.dnfs)
                for d in folded([(r, [d for d in x[0].dnfs if d not in kept]) for r, x in zip(rests, g)]):
                    t = add_dnf(ms, d)
                    ms = t if t is not None else ms
            kept = set(ms.dnfs)
            vals = {}
            for r, x in zip(rests, g):
                own = [d for d in x[0].dnfs if d not in kept]
                for r2 in (_spread(r, own, x[0].facts) if own and len({y[1] for y in g}) > 1 else [r]):
                    vals.setdefault(x[1], []).append(r2)
            if g[0][3] is not None:
                v = g[0][2]
            elif len(vals) == 1:
                v = next(iter(vals))
                if all(x[2] == g[0][2] for x in g):
                    v = g[0][2]
            else:
                alts = []
                for pv, rs in vals.items():
                    for r in _simplify(list(dict.fromkeys(rs))):
                        alts.append((r, pv))
                v = Phi(alts)
            # objects made by one of the paths stay reachable
            for s, _, _, _ in g:
                for a, o in s.heap.items():
                    if a not in ms.heap:
                        ms.heap[a] = o
            res.append((ms, v))
        return res + rest


ATOMS = {
    "eq", "lt", "is", "isnone", "truth", "contains", "startswith", "endswith", "has", "isinst",
    "forall", "exists", "dup", "isupper", "islower", "isdigit", "isalpha", "isalnum", "isspace",
    "isdecimal", "isnumeric", "isidentifier", "isascii", "isfile", "isdir", "pexists", "subset", "ok",
    "disjoint", "istitle", "hasattr", "issubset",
}

_CMP = {
    ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge",
    ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin",
}


def _cont(outs):
    return [(s, NEXT if isinstance(g, str) and g == CONT else g) for s, g in outs]


def _merge_cases(cases):
    """Cases with the same content are joined."""
    by = {}
    for f, d in cases:
        by.setdefault(d, []).append(f)
    out = []
    for d, fs in by.items():
        for f in _simplify(list(dict.fromkeys(fs))):
            out.append((f, d))
    return tuple(out)


def _spread(r, dnfs, facts, most=6):
    """The conditions of a path with its alternatives apart, where these are few."""
    out = [r]
    for d in dnfs:
        nxt = [x | frozenset(y) for x in out for y in d if consistent(facts, y) and not any((a, not p) in x for a, p in y)]
        nxt = [x for x in dict.fromkeys(nxt) if not any(y < x for y in nxt)]
        if not nxt or len(nxt) > most:
            continue
        out = nxt
    return out


def folded(parts, most=24):
    """What the conditions of one path alone say about all of them."""
    res = []
    fs = [f for f, _ in parts]
    if len(fs) > most:
        return res
    n = 0
    for i, (f, ds) in enumerate(parts):
        for d in ds:
            if len(d) > 8:
                continue
            n += 1
            if n > 12:
                return res
            x = _simplify(list(dict.fromkeys(fs[:i] + fs[i + 1:] + [f | y for y in d])))
            if x and len(x) <= most and all(x):
                res.append(x)
    if sum(1 for _, ds in parts if ds) > 1:
        # all of the paths with their alternatives apart
        x = []
        for f, ds in parts:
            x.extend(_spread(f, ds, {}))
        x = list(dict.fromkeys(x))
        if len(x) <= most:
            x = _simplify([y for y in x if not any(z < y for z in x)])
            if x and all(x) and x not in res:
                res.append(x)
    return res


def _simplify(fs):
    """Join fact sets that differ in the truth of one condition only."""
    fs = list(fs)
    if len(fs) > 128:
        return fs
    changed = True
    while changed:
        changed = False
        n = len(fs)
        for i in range(n):
            for j in range(i + 1, n):
                x, y = fs[i], fs[j]
                if x == y:
                    del fs[j]
                    changed = True
                    break
                if x <= y:
                    del fs[j]
                    changed = True
                    break
                if y <= x:
                    del fs[i]
                    changed = True
                    break
                d = x ^ y
                if len(d) == 2:
                    (a, p), (b, q) = d
                    if a is b and p != q:
                        fs[i] = x & y
                        del fs[j]
                        changed = True
                        break
            if changed:
                break
    return fs


def _mentions_prev(x, prev):
    for y in walk(x):
        if isinstance(y, tuple) and y == prev:
            return True
    return False


def fstr(parts):
    """Concatenation of texts."""
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.op == "fstr":
            sub = p.args[0]
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, Const) and isinstance(q.v, str):
                if q.v == "":
                    continue
                if out and isinstance(out[-1], Const):
                    out[-1] = const(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (isinstance(out[0], Const) or getattr(out[0], "typ", None) == "str"):
        return out[0]
    return sym("fstr", tuple(out), typ="str")


def _as_load(t):
    import copy

    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def _is_gen(n):
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


_CAP = {}


def _captures(n):
    k = id(n)
    if k not in _CAP:
        r = False
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                r = True
                break
        _CAP[k] = (n, r)
    return _CAP[k][1]


def _while_to_for(n):
    """`while i < len(xs): ... i += 1` is a loop over the positions of xs."""
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, r = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        l, r = r, l
    elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        return None
    if not (isinstance(l, ast.Name) and isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len"):
        return None
    if not n.body:
        return None
    last = n.body[-1]
    if not (
        isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
        and last.target.id == l.id and isinstance(last.value, ast.Constant) and last.value.value == 1
    ):
        return None
    for b in n.body[:-1]:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == l.id and isinstance(x.ctx, ast.Store):
                return None
            if isinstance(x, ast.Continue):
                return None
    rng = ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[r], keywords=[])
    loop = ast.For(target=ast.Name(id=l.id, ctx=ast.Store()), iter=rng, body=n.body[:-1] or [ast.Pass()], orelse=n.orelse)
    ast.copy_location(loop, n)
    for x in ast.walk(loop):
        if not hasattr(x, "lineno"):
            ast.copy_location(x, n)
    return l.id, loop


def _subs(sub, xs):
    return tuple(sub(x) if isinstance(x, Val) else x for x in xs)
