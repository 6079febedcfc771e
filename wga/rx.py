"""Regular languages of the program's patterns.

A pattern is parsed with the standard library's own parser and turned into a
Glushkov (position) automaton over a finite alphabet: all of ASCII plus one
representative of each other kind of character that the pattern syntax can tell
apart (letters, digits, spaces, case-folding oddities).  Nothing is ever
matched against a text; every question is answered on the automata
(inclusion, emptiness, ambiguity).

`exact` is False when a construct had to be over-approximated (a look-around in
the middle, a word boundary, a back-reference); clients may then only use
the answers that an over-approximation supports.
"""
import re
from re import _compiler as sre_compile
from re import _parser as sre_parse
from re import _constants as C

EXTRA = (
    "\xa0\xe9\xdf\u0130\u0131\u017f\u212a\u0663\u00b2\u03c3\u03c2\u4e2d\u2028\ufeff"
)
ALPHABET = "".join(chr(i) for i in range(128)) + EXTRA
N = len(ALPHABET)
FULL = (1 << N) - 1
_INDEX = {c: i for i, c in enumerate(ALPHABET)}


def mask_of(pred):
    m = 0
    for i, c in enumerate(ALPHABET):
        if pred(c):
            m |= 1 << i
    return m


def chars(mask):
    return "".join(c for i, c in enumerate(ALPHABET) if mask >> i & 1)


SPACE = mask_of(str.isspace)


def pick(mask):
    for c in "aA0 x;:,.'\"(){}[]<>-":
        if mask >> _INDEX[c] & 1:
            return c
    for i, c in enumerate(ALPHABET):
        if mask >> i & 1:
            return c


class Unsupported(Exception):
    pass


_MASKS = {}


# ---------------------------------------------------------------- expressions
# ('chr', mask) ('cat', [..]) ('alt', [..]) ('star', e) ('plus', e) ('opt', e)
# ('eps',) ('group', name_or_None, index, e) ('look', e, ahead, neg) ('at', code)
class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags & (re.I | re.M | re.S | re.X | re.A)
        self.exact = True
        tree = sre_parse.parse(pattern, self.flags)
        self.gflags = tree.state.flags
        self.names = dict(tree.state.groupdict)
        self.index_name = {v: k for k, v in self.names.items()}
        self.ngroups = tree.state.groups - 1
        self._state = tree.state
        self._ginfo = {}
        self._alts = {}
        self._rules = None
        self.expr = self._seq(tree, self.gflags, ())
        self._nfa = None

    def _mask(self, item, flags):
        k = (repr(item), flags)
        if k not in _MASKS:
            _MASKS[k] = self._mask0(item, flags)
        return _MASKS[k]

    def _mask0(self, item, flags):
        st = sre_parse.State()
        st.flags = flags & ~re.U if flags & re.A else flags
        st.str = ""
        sp = sre_parse.SubPattern(st, [item])
        cp = sre_compile.compile(sp, flags)
        m = 0
        for i, c in enumerate(ALPHABET):
            if cp.fullmatch(c):
                m |= 1 << i
        return m

    def _seq(self, sub, flags, ctx):
        out = [self._one(op, av, flags, ctx) for op, av in sub]
        if len(out) == 1:
            return out[0]
        return ("cat", out)

    def _trie(self, words):
        """The same language as the alternation of the words (lists of masks)."""
        heads = {}
        eps = False
        for w in words:
            if w:
                heads.setdefault(w[0], set()).add(w[1:])
            else:
                eps = True
        byrest = {}
        for h, rest in heads.items():
            k = frozenset(rest)
            byrest[k] = byrest.get(k, 0) | h
        out = [("cat", [("chr", m), self._trie(r)]) if r != {()} else ("chr", m) for r, m in byrest.items()]
        if not out:
            return ("eps",)
        e = out[0] if len(out) == 1 else ("alt", out)
        return ("opt", e) if eps else e

    def _one(self, op, av, flags, ctx):
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            return ("chr", self._mask((op, av), flags))
        if op is C.BRANCH:
            alts = av[1]
            bid = len(self._alts)
            self._alts[bid] = (ctx, len(alts))
            if len(alts) > 12 and all(op2 in (C.LITERAL, C.IN) for a in alts for op2, _ in a):
                return self._trie({tuple(self._mask(x, flags) for x in a) for a in alts})
            return (
                "alt",
                [self._seq(a, flags, ctx + (("alt", bid, i),)) for i, a in enumerate(alts)],
            )
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, body = av
            if op is C.POSSESSIVE_REPEAT:
                self.exact = False
            many = hi is C.MAXREPEAT or hi > 1
            sub = ctx
            if lo == 0:
                sub = sub + (("opt",),)
            if many:
                sub = sub + (("rep",),)
            e = self._seq(body, flags, sub)
            if hi is C.MAXREPEAT:
                if lo == 0:
                    return ("star", e)
                if lo == 1:
                    return ("plus", e)
                return ("cat", [e] * min(lo, 60) + [("star", e)])
            hi = int(hi)
            if lo == 0 and hi == 1:
                return ("opt", e)
            if hi > 200:
                self.exact = False
                return ("cat", [e] * min(lo, 60) + [("star", e)])
            return ("cat", [e] * lo + [("opt", e)] * (hi - lo))
        if op is C.SUBPATTERN:
            group, add, rem, body = av
            f = (flags | add) & ~rem
            if group is not None:
                self._ginfo[group] = ctx
                e = self._seq(body, f, ctx + (("in", group),))
                return ("group", self.index_name.get(group), group, e)
            return self._seq(body, f, ctx)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, body = av
            e = self._seq(body, flags, ctx + (("look",),))
            return ("look", e, direction > 0, op is C.ASSERT_NOT)
        if op is C.AT:
            return ("at", av)
        if op is C.ATOMIC_GROUP:
            self.exact = False
            return self._seq(av, flags, ctx)
        if op is C.GROUPREF:
            self.exact = False
            return ("star", ("chr", FULL))
        raise Unsupported(str(op))

    # -- structure of the groups ------------------------------------------
    def group_index(self, key):
        if isinstance(key, int):
            return key
        return self.names[key]

    def group_parents(self, key):
        """Optional contexts of a group, outermost first."""
        return self._ginfo[self.group_index(key)]

    def mandatory_under(self, key, outer):
        """Does the match of `outer` (None: the whole) imply that `key` matched?"""
        ctx = self._ginfo[self.group_index(key)]
        if outer is not None:
            o = ("in", self.group_index(outer))
            if o not in ctx:
                return False
            ctx = ctx[ctx.index(o) + 1:]
        return not any(c[0] in ("opt", "alt", "look") for c in ctx)

    def enclosing(self, key):
        return [c[1] for c in self._ginfo[self.group_index(key)] if c[0] == "in"]

    def exclusive(self, a, b):
        """Are two groups in different branches of one alternative?"""
        ca = {c[1]: c[2] for c in self._ginfo[self.group_index(a)] if c[0] == "alt"}
        cb = {c[1]: c[2] for c in self._ginfo[self.group_index(b)] if c[0] == "alt"}
        return any(k in cb and cb[k] != v for k, v in ca.items())

    # -- what the groups of one match imply about each other ---------------
    def key(self, g):
        """Groups are called by their name where they have one."""
        if isinstance(g, int):
            return self.index_name.get(g, g)
        return g

    def rules(self):
        """Implications between 'group took part in the match' literals.

        -> (always, pairs, clauses): groups that always take part;
        pairs[(g, pol)] = [(h, pol)] for "g is pol implies h is pol"; clauses
        [((g, pol), ...)] of which at least one must hold.
        """
        if self._rules is not None:
            return self._rules
        groups = sorted(self._ginfo)
        always = {self.key(g) for g in groups if self.mandatory_under(g, None)}
        always.add(0)
        pairs = {}
        for g in groups:
            for h in groups:
                if g == h:
                    continue
                if h in self.enclosing(g):
                    pairs.setdefault((self.key(g), True), []).append((self.key(h), True))
                    pairs.setdefault((self.key(h), False), []).append((self.key(g), False))
                    if self.mandatory_under(g, h):
                        pairs.setdefault((self.key(h), True), []).append((self.key(g), True))
                        pairs.setdefault((self.key(g), False), []).append((self.key(h), False))
                elif self.exclusive(g, h):
                    pairs.setdefault((self.key(g), True), []).append((self.key(h), False))
        # closure
        changed = True
        while changed:
            changed = False
            for k, vs in list(pairs.items()):
                for v in list(vs):
                    for w in pairs.get(v, ()):
                        if w not in vs and w != k:
                            vs.append(w)
                            changed = True
        clauses = []
        for bid, (ctx, n) in self._alts.items():
            per = {}
            for g in groups:
                gc = self._ginfo[g]
                for i, c in enumerate(gc):
                    if c[0] == "alt" and c[1] == bid:
                        if not any(d[0] in ("opt", "alt", "look") for d in gc[i + 1:]):
                            per.setdefault(c[2], g)
            if len(per) == n and not any(c[0] == "look" for c in ctx):
                # taken whenever its context is: only usable below groups
                encl = [c for c in ctx if c[0] == "in"]
                after = ctx[ctx.index(encl[-1]) + 1:] if encl else ctx
                if any(c[0] in ("opt", "alt") for c in after):
                    continue
                cl = [(self.key(g), True) for g in per.values()]
                if encl:
                    cl.append((self.key(encl[-1][1]), False))
                clauses.append(tuple(cl))
        clauses.extend(self._greedy())
        self._rules = (always, pairs, clauses)
        return self._rules

    def _greedy(self):
        """In  a? b? c?  (greedy, all that follows optional) an item that was
        skipped does not fit where a later one, with only skipped items in
        between, did match."""
        e = self.expr
        if e[0] != "cat":
            return []
        items = []  # (group, expr) of optional groups, None for a nullable filler
        for x in e[1]:
            if x[0] == "opt" and x[1][0] == "group":
                items.append((x[1][2], x[1]))
            elif x[0] == "star":
                items.append((None, x))
            elif NFA.of(x).final and 0 in NFA.of(x).final:
                items.append((None, None))
            else:
                items = []  # must match: the tail after it is what counts
        out = []
        opt = [i for i, (g, _) in enumerate(items) if g is not None]
        for a in range(len(opt)):
            for b in range(a + 1, len(opt)):
                i, j = opt[a], opt[b]
                # only repeated white space and the like in between, which the
                # skipped item may start with as well
                fill = [items[k][1] for k in range(i + 1, j) if items[k][0] is None]
                if any(f is None for f in fill):
                    continue
                gi, gj = items[i], items[j]
                try:
                    if fill and not all(f == fill[0] for f in fill):
                        continue
                    # text at i:  filler? item j ... ; item i fits if preceded by the same filler
                    prev = items[i - 1][1] if i > 0 and items[i - 1][0] is None else None
                    if fill and (prev is None or prev != fill[0]):
                        continue
                    if included(L(NFA.of(gj[1])), L(NFA.of(gi[1]))) is not None:
                        continue
                except Unsupported:
                    continue
                cl = [(self.key(gi[0]), True), (self.key(gj[0]), False)]
                for k in opt[a + 1:b]:
                    cl.append((self.key(items[k][0]), True))
                out.append(tuple(cl))
        return out

    def min_width(self, g):
        try:
            return self._widths[g]
        except AttributeError:
            self._widths = {}
        except KeyError:
            pass
        idx = self.group_index(g)
        w = self._widths[g] = self._width(self.expr if idx == 0 else self.group_expr(idx))
        return w

    def _width(self, e):
        k = e[0]
        if k == "chr":
            return 1
        if k in ("eps", "look", "at", "star", "opt"):
            return 0
        if k == "group":
            return self._width(e[3])
        if k == "cat":
            return sum(self._width(x) for x in e[1])
        if k == "alt":
            return min(self._width(x) for x in e[1])
        if k == "plus":
            return self._width(e[1])
        return 0

    def group_expr(self, key):
        idx = self.group_index(key)

        def find(e):
            if e[0] == "group":
                if e[2] == idx:
                    return e[3]
                return find(e[3])
            if e[0] in ("cat", "alt"):
                for x in e[1]:
                    r = find(x)
                    if r is not None:
                        return r
            if e[0] in ("star", "plus", "opt", "look"):
                return find(e[1])
            return None

        return find(self.expr)

    def nfa(self):
        if self._nfa is None:
            self._nfa = NFA.of(self.expr)
            self._nfa.exact = self._nfa.exact and self.exact
        return self._nfa

    def group_nfa(self, key):
        n = NFA.of(self.group_expr(key))
        n.exact = n.exact and self.exact
        return n


_CACHE = {}


def pattern(p, flags=0):
    k = (p, int(flags))
    if k not in _CACHE:
        _CACHE[k] = Pattern(p, int(flags))
    return _CACHE[k]


# ------------------------------------------------------------------- automata
class NFA:
    """states 0..n-1, 0 is the only initial one; trans[s] = [(mask, t)]"""

    def __init__(self, trans, final, exact=True):
        self.trans = trans
        self.final = final
        self.exact = exact

    @staticmethod
    def of(expr):
        b = _Glushkov()
        nullable, first, last = b.build(expr)
        n = len(b.pos)
        trans = [[] for _ in range(n + 1)]
        for p in first:
            trans[0].append((b.pos[p], p + 1))
        for p, fs in b.follow.items():
            for q in fs:
                trans[p + 1].append((b.pos[q], q + 1))
        final = {p + 1 for p in last}
        if nullable:
            final.add(0)
        r = NFA(trans, final, b.exact)
        r.ambiguous_stars = b.dup
        r.look = b.look
        return r

    def states(self):
        return len(self.trans)


class _Glushkov:
    def __init__(self):
        self.pos = []
        self.follow = {}
        self.exact = True
        self.dup = []
        self.look = []

    def build(self, e):
        k = e[0]
        if k == "chr":
            if e[1] == 0:
                # can never match
                self.pos.append(0)
                p = len(self.pos) - 1
                self.follow[p] = set()
                return False, {p}, {p}
            self.pos.append(e[1])
            p = len(self.pos) - 1
            self.follow[p] = set()
            return False, {p}, {p}
        if k == "eps":
            return True, set(), set()
        if k == "at" or k == "look":
            self.exact = False
            self.look.append(e)
            return True, set(), set()
        if k == "group":
            return self.build(e[3])
        if k == "cat":
            null, first, last = True, set(), set()
            for x in e[1]:
                n2, f2, l2 = self.build(x)
                for p in last:
                    self.follow[p] |= f2
                if null:
                    first = first | f2
                last = l2 | (last if n2 else set())
                null = null and n2
            return null, first, last
        if k == "alt":
            null, first, last = False, set(), set()
            for x in e[1]:
                n2, f2, l2 = self.build(x)
                null = null or n2
                first = first | f2
                last = last | l2
            return null, first, last
        if k == "opt":
            n, f, l = self.build(e[1])
            return True, f, l
        if k in ("star", "plus"):
            n, f, l = self.build(e[1])
            for p in l:
                for q in f:
                    if q in self.follow[p]:
                        self.dup.append((p, q))
                    self.follow[p].add(q)
            return (True if k == "star" else n), f, l
        raise Unsupported(k)


def lit(s):
    return NFA.of(("cat", [("chr", 1 << _INDEX[c]) if c in _INDEX else ("chr", 0) for c in s]) if s else ("eps",))


def any_star():
    return NFA.of(("star", ("chr", FULL)))


def cls(mask, rep=""):
    e = ("chr", mask)
    if rep == "*":
        e = ("star", e)
    elif rep == "+":
        e = ("plus", e)
    return NFA.of(e)


def concat(*ns):
    ns = list(ns)
    r = ns[0]
    for b in ns[1:]:
        off = len(r.trans)
        trans = [list(t) for t in r.trans] + [[] for _ in b.trans]
        for s, ts in enumerate(b.trans):
            trans[off + s] = [(m, off + t) for m, t in ts]
        final = set()
        for f in r.final:
            trans[f] = trans[f] + [(m, off + t) for m, t in b.trans[0]]
            if 0 in b.final:
                final.add(f)
        final |= {off + f for f in b.final}
        r = NFA(trans, final, r.exact and b.exact)
    return r


def union(*ns):
    trans = [[]]
    final = set()
    exact = True
    for b in ns:
        off = len(trans)
        for ts in b.trans:
            trans.append([(m, off + t) for m, t in ts])
        trans[0] = trans[0] + [(m, off + t) for m, t in b.trans[0]]
        if 0 in b.final:
            final.add(0)
        final |= {off + f for f in b.final}
        exact = exact and b.exact
    return NFA(trans, final, exact)


def contains(n):
    return concat(any_star(), n, any_star())


def _classes(nfas):
    """Minterms of the masks in use."""
    parts = [FULL]
    seen = set()
    for n in nfas:
        for ts in n.trans:
            for m, _ in ts:
                if m in seen:
                    continue
                seen.add(m)
                new = []
                for p in parts:
                    a, b = p & m, p & ~m
                    if a:
                        new.append(a)
                    if b:
                        new.append(b)
                parts = new
    return parts


class Lang:
    """Boolean combination of automata, explored lazily as a DFA."""

    def __init__(self, op, args):
        self.op, self.args = op, args

    def leaves(self):
        if self.op == "nfa":
            return [self.args]
        return [l for a in self.args for l in a.leaves()]

    @property
    def exact(self):
        return all(l.exact for l in self.leaves())

    def start(self):
        if self.op == "nfa":
            return frozenset((0,))
        return tuple(a.start() for a in self.args)

    def step(self, s, c):
        if self.op == "nfa":
            out = set()
            tr = self.args.trans
            for x in s:
                for m, t in tr[x]:
                    if m & c:
                        out.add(t)
            return frozenset(out)
        return tuple(a.step(x, c) for a, x in zip(self.args, s))

    def accepts(self, s):
        if self.op == "nfa":
            return not self.args.final.isdisjoint(s)
        r = [a.accepts(x) for a, x in zip(self.args, s)]
        if self.op == "and":
            return all(r)
        if self.op == "or":
            return any(r)
        return not r[0]

    def dead(self, s):
        if self.op == "nfa":
            return not s
        if self.op == "and":
            return any(a.dead(x) for a, x in zip(self.args, s))
        if self.op == "or":
            return all(a.dead(x) for a, x in zip(self.args, s))
        return False


def L(n):
    return n if isinstance(n, Lang) else Lang("nfa", n)


def AND(*ls):
    return Lang("and", [L(x) for x in ls])


def OR(*ls):
    return Lang("or", [L(x) for x in ls])


def NOT(x):
    return Lang("not", [L(x)])


def witness(lang, limit=400000):
    """A shortest text in the language, or None if it is empty."""
    lang = L(lang)
    cl = _classes(lang.leaves())
    reps = [(c, pick(c)) for c in cl]
    s = lang.start()
    if lang.accepts(s):
        return ""
    seen = {s: None}
    frontier = [s]
    count = 0
    while frontier:
        nxt = []
        for s in frontier:
            for c, r in reps:
                t = lang.step(s, c)
                if t in seen or lang.dead(t):
                    continue
                seen[t] = (s, r)
                if lang.accepts(t):
                    out = []
                    x = t
                    while seen[x] is not None:
                        x, ch = seen[x]
                        out.append(ch)
                    return "".join(reversed(out))
                nxt.append(t)
                count += 1
                if count > limit:
                    raise Unsupported("state limit")
        frontier = nxt
    return None


def included(a, b):
    """None if L(a) is within L(b), else a counterexample."""
    return witness(AND(a, NOT(b)))


def rstrip_pre(n, mask=SPACE):
    """{ s : s.rstrip() in L } for a language given as an NFA."""
    nl = determinise(AND(L(n), OR(lit(""), concat(any_star(), cls(FULL & ~mask)))))
    return concat(nl, cls(mask, "*"))


def lstrip_pre(n, mask=SPACE):
    nl = determinise(AND(L(n), OR(lit(""), concat(cls(FULL & ~mask), any_star()))))
    return concat(cls(mask, "*"), nl)


def determinise(lang, limit=20000):
    lang = L(lang)
    cl = _classes(lang.leaves())
    idx = {lang.start(): 0}
    order = [lang.start()]
    trans, final = [], set()
    i = 0
    while i < len(order):
        s = order[i]
        if lang.accepts(s):
            final.add(i)
        out = {}
        for c in cl:
            t = lang.step(s, c)
            if lang.dead(t):
                continue
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
                if len(order) > limit:
                    raise Unsupported("state limit")
            out[idx[t]] = out.get(idx[t], 0) | c
        trans.append([(m, t) for t, m in out.items()])
        i += 1
    return NFA(trans, final, lang.exact)


# ------------------------------------------------------------------ ambiguity
def exponential(expr):
    """A reason if matching the expression can be exponentially ambiguous."""
    looks = []

    def strip(e):
        if e[0] == "look":
            looks.append(e[1])
            return ("eps",)
        if e[0] == "at":
            return ("eps",)
        if e[0] == "group":
            return strip(e[3])
        if e[0] in ("cat", "alt"):
            return (e[0], [strip(x) for x in e[1]])
        if e[0] in ("star", "plus", "opt"):
            return (e[0], strip(e[1]))
        return e

    core = strip(expr)
    for l in looks:
        r = exponential(l)
        if r:
            return r
    n = NFA.of(core)
    if n.ambiguous_stars:
        return "a repetition whose body is itself repeated on the same characters"
    # pairs of distinct states inside one strongly connected component
    comp = _sccs(n)
    bycomp = {}
    for s, c in enumerate(comp):
        bycomp.setdefault(c, []).append(s)
    for c, members in bycomp.items():
        ms = set(members)
        if len(ms) == 1:
            (s,) = ms
            if not any(t == s for _, t in n.trans[s]):
                continue
        # a self loop on one state only cannot branch
        tr = {s: [(m, t) for m, t in n.trans[s] if t in ms] for s in ms}
        # product graph on (p,q) within the component; ambiguity: (s,s) ->* (p,q), p!=q ->* (s,s)
        fwd = {}
        work = [(s, s) for s in ms]
        seen = set(work)
        rev = {}
        while work:
            p, q = work.pop()
            for m1, t1 in tr[p]:
                for m2, t2 in tr[q]:
                    if m1 & m2:
                        k = (t1, t2)
                        rev.setdefault(k, []).append((p, q))
                        if k not in seen:
                            seen.add(k)
                            work.append(k)
                if len(seen) > 2000000:
                    raise Unsupported("product too large")
        back = set()
        work = [(s, s) for s in ms]
        bseen = set(work)
        while work:
            k = work.pop()
            for j in rev.get(k, ()):
                if j not in bseen:
                    bseen.add(j)
                    work.append(j)
        for p, q in seen:
            if p != q and (p, q) in bseen:
                # same diagonal state must be reachable both ways
                if _same_diag(p, q, tr):
                    return "two ways to match the same repeated text"
    return None


def _same_diag(p, q, tr):
    """Is there s with (s,s) ->* (p,q) ->* (s,s)?"""
    f = {(p, q)}
    work = [(p, q)]
    while work:
        a, b = work.pop()
        for m1, t1 in tr[a]:
            for m2, t2 in tr[b]:
                if m1 & m2 and (t1, t2) not in f:
                    f.add((t1, t2))
                    work.append((t1, t2))
    diag = [s for s in f if s[0] == s[1]]
    for d in diag:
        g = {d}
        work = [d]
        while work:
            a, b = work.pop()
            if (a, b) == (p, q):
                return True
            for m1, t1 in tr[a]:
                for m2, t2 in tr[b]:
                    if m1 & m2 and (t1, t2) not in g:
                        g.add((t1, t2))
                        work.append((t1, t2))
    return False


def _sccs(n):
    import sys

    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    index, low, comp = {}, {}, [None] * len(n.trans)
    stack, on = [], set()
    counter = [0]
    ncomp = [0]
    for root in range(len(n.trans)):
        if root in index:
            continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                index[v] = low[v] = counter[0]
                counter[0] += 1
                stack.append(v)
                on.add(v)
            succ = n.trans[v]
            rec = False
            while i < len(succ):
                w = succ[i][1]
                i += 1
                if w not in index:
                    work.append((v, i))
                    work.append((w, 0))
                    rec = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            if low[v] == index[v]:
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp[w] = ncomp[0]
                    if w == v:
                        break
                ncomp[0] += 1
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return comp
