"""Rules about the text of a query: how it is cut up, and that all of it counts."""
import re

from .. import rx, strlang
from ..ana import *
from ..state import match_regex, pat, quick, truthy
from ..terms import walk
from .find import Parts
from .make import NODES, RELS, Fields, get, leafs, short, words
from .query import PARSEQ, handed
from .values import chain, pull

NAMES = {"make": "make_parsed", "find": "find_parsed", "report": "report_parsed"}
RESIDUAL = r"\s*(?i:make|find)[\s,]*;\s*"
ARROWS = rx.mask_of(lambda c: c in "<>")
BAD = rx.mask_of(lambda c: c in "#%&*$")
CURLY = "{}"
MOST = 400


class Stmt:
    """The statements of a clause on one path: their text, their patterns and what is known about them."""

    def __init__(self, kind, s, doc):
        self.kind, self.s, self.doc = kind, s, doc
        self.ok = False
        self.src = self.psrc = self.term = self.R = None
        if kind == "make":
            self._make(doc)
        elif kind == "find":
            self._find(doc)
        else:
            self._report(doc)

    def _from(self, t):
        """The source (matches in the query) of the text of a statement."""
        t, _ = strlang.root_of(t)
        if not (isinstance(t, Sym) and t.op == "group"):
            return False
        m = t.args[0]
        r = match_regex(m)
        if r is None or r[0] is None:
            return False
        self.R, self.text = r
        self.term = t
        self.src = m.args[0] if m.op in ("elem", "at") else None
        return self.src is not None

    def _make(self, doc):
        f = Fields(doc)
        if not f.ok or not isinstance(f.psrc, Sym) or f.psrc.op != "finditer":
            return
        self.f, self.psrc = f, f.psrc
        if not self._from(f.psrc.args[1]):
            return
        self.ok = True

    def _find(self, doc):
        p = get(doc, "parsed_pattern")
        if not isinstance(p, Doc):
            return
        f = Parts(p)
        if not f.ok:
            return
        self.f = f
        t = f.T["left_node"]
        if not (isinstance(t, Sym) and t.op == "group"):
            return
        self.m = t.args[0]
        if self.m.op in ("elem", "at") and isinstance(self.m.args[0], Sym) and self.m.args[0].op == "finditer":
            self.psrc = self.m.args[0]
        R, text = match_regex(self.m) or (None, None)
        if R is None or not self._from(text):
            return
        if self.psrc is None:
            return
        self.ok = True

    def _report(self, doc):
        t = get(doc, "extracted_report")
        if t is not None and self._from(t):
            self.ok = True

    def texts(self):
        if not hasattr(self, "_texts"):
            self._texts = []
        return self._texts

    def is_text(self, t):
        """Is it the text of a statement of this clause?"""
        t, _ = strlang.root_of(t)
        if t is self.term:
            return True
        if not (isinstance(t, Sym) and t.op == "group" and t.args[1] == self.term.args[1]):
            return False
        m = t.args[0]
        return isinstance(m, Sym) and m.op in ("elem", "at") and m.args[0] is self.src

    def known(self):
        """What is known about every statement: lists of alternative conditions."""
        if hasattr(self, "_known"):
            return self._known
        out = []
        F = self.s.facts
        one = dict(F)
        if self.kind == "make":
            if isinstance(self.doc, Doc):
                for path, segs in leafs(self.doc.segs):
                    G = dict(F)
                    for src, f, part in path:
                        G.update(dict(f))
                        if src is self.src:
                            break
                    out.append([G])
                # every statement is in one of the cases of the list
                out = [sum(out, [])] if out else []
        else:
            out.append([one])
            # what is known about the one statement in alternatives
            for d in self.s.dnfs:
                if any(at.op in strlang.TEXTOPS + ("forall", "exists") and self.term in deps(at) for c in d for at, p in c):
                    out.append([{**one, **dict(c)} for c in d])
        for at, p in F.items():
            if p and at.op == "forall" and at.args[0] is self.src:
                out.append([dict(c) for c in at.args[1]])
        self._known = out
        return out

    def every(self, pred):
        """True: on this path it holds for every statement; False: it need not; None: not known."""
        worst = False
        part = []
        for cases in self.known():
            got = [pred(c) for c in cases]
            if all(g is True for g in got):
                return True
            if any(g is None for g in got):
                worst = None
            if any(g is True for g in got):
                part.append(cases)
        # conditions that hold together only
        if not part:
            return worst
        part.sort(key=len)
        self.budget = MOST
        return self._search(part, 0, {}, pred)

    def _search(self, lists, i, G, pred):
        """Is there a way through the cases on which it does not hold?"""
        if self.budget <= 0:
            return None
        self.budget -= 1
        got = pred(G) if G else False
        if got is True:
            return True
        if i == len(lists):
            return got
        worst = True
        for c in lists[i]:
            if all(G.get(at, p) == p for at, p in c.items()):
                r = self._search(lists, i + 1, {**G, **c}, pred)
                if r is False:
                    return False
                if r is None:
                    worst = None
        return worst


def parsed(a):
    """[(state, {clause: Stmt or None})] of the ways a query can be parsed."""
    k = ("parsed",)
    if k not in a._q:
        st, g = a.gdb()
        out, bad = [], []
        for s, v in a.run(PARSEQ, [a.Q], st=st):
            if isinstance(v, Raise):
                bad.append((s, v))
                continue
            for s2, x in a.ip.resolve(s, v):
                d = a.ip.lib.freeze(s2, x)
                got = {}
                for kind, name in NAMES.items():
                    y = get(d, name)
                    if y is None:
                        raise Undecided("the parsed query is not understood: " + short(d))
                    got[kind] = y
                out.append((s2, got))
        if not out:
            raise Undecided("no query is parsed")
        a._q[k] = (out, bad)
    return a._q[k]


def each(a, kinds=("make", "find")):
    """Every (state, Stmt) there is; the ones that are not understood are reported by the caller."""
    out, _ = parsed(a)
    res = []
    seen = set()
    for s, got in out:
        for kind in kinds:
            for y in (got[kind],) if not isinstance(got[kind], Phi) else tuple(x for _, x in got[kind].alts):
                if y == NONE:
                    continue
                res.append(Stmt(kind, s, y))
    return res


# -------------------------------------------------------------------- C11
def within(n, allowed):
    return rx.witness(rx.AND(n, rx.NOT(allowed)), limit=200000)


def leftover(S, F):
    """Is what the patterns leave of the statement harmless?"""
    subs = set()
    for at in F:
        r = strlang.text_root(at) if at.op in strlang.TEXTOPS else None
        if r is not None and r.op == "sub" and S.is_text(r.args[2]):
            subs.add(r)
    worst = False
    for t in subs:
        if t.args[0] != S.psrc.args[0]:
            worst = None
            continue
        rep = t.args[1]
        if not (isinstance(rep, (str, Const)) and (rep if isinstance(rep, str) else rep.v).strip(" \t\n,") == ""):
            worst = None
            continue
        try:
            l, unk = strlang.lang_of_facts(F, t)
            w = within(l, rx.pattern(RESIDUAL, 0).nfa())
        except rx.Unsupported:
            worst = None
            continue
        if w is None:
            return True
        S.left = w
        if unk:
            worst = None
    if not subs and any(S.is_text(strlang.text_root(at)) and strlang.atom_lang(at) is None for at in F if at.op in strlang.TEXTOPS and strlang.text_root(at) is not None):
        worst = None
    return worst


def whole(T, G):
    """Does a match have no relationship without its nodes? T: field -> term."""
    def there(n):
        return quick(G, truthy(T[n]))
    if there("left_node") is not True:
        return False
    for r, n in (("left_middle_rel", "middle_node"), ("middle_right_rel", "right_node")):
        if there(r) is not False and there(n) is not True:
            return False
    return True


def nothing(G, src):
    """The case is that of a match of nothing."""
    for at, p in G.items():
        if at.op == "truth" and not p:
            x = at.args[0]
            if isinstance(x, Sym) and x.op == "group" and x.args[1] == 0 and isinstance(x.args[0], Sym) and x.args[0].op == "elem" and x.args[0].args[0] is src:
                return True
    return False


def same_matches(S, src):
    return isinstance(src, Sym) and src.op == "finditer" and src.args[0] == S.psrc.args[0] and S.is_text(src.args[1])


def inner(F, ok):
    """[(source, cases)] of what is known about all matches in a text."""
    for at, p in F.items():
        if p and at.op == "forall" and isinstance(at.args[0], Sym) and ok(at.args[0]):
            yield at.args[0], [dict(c) for c in at.args[1]]
        if not p and at.op == "exists" and isinstance(at.args[0], Sym) and ok(at.args[0]):
            # none is in any of these cases
            for c in at.args[1]:
                yield at.args[0], [{x: not q} for x, q in c]


def merged(lists):
    prod = [{}]
    for cases in sorted(lists, key=len):
        prod = [{**G, **c} for G in prod for c in cases if all(G.get(at, p) == p for at, p in c.items())]
        if len(prod) > MOST:
            return None
    return prod


def field_terms(S, m):
    """field -> term of the parsed pattern, for another match of the same regex."""
    m0 = next(t.args[0] for t in S.f.T.values() if isinstance(t, Sym) and t.op == "group")
    sub = Subst({m0: m})
    return {n: sub(t) for n, t in S.f.T.items() if isinstance(t, Sym) and t.op == "group" and t.args[0] is m0}


def element(src):
    return sym("elem", src, typ="match")


def in_all(lists, pred):
    """Every element is in a case in which it holds (False: not known to be)."""
    for cases in lists:
        if all(pred(c) for c in cases):
            return True
    p = merged(lists)
    return None if p is None else bool(p) and all(pred(c) for c in p)


def patterns_whole(S, F):
    if S.kind == "find":
        T = {n: t for n, t in S.f.T.items()}
        # FIND: the pattern that is used is known directly, or as one of all
        if whole(T, F):
            return True
    lists = []
    elems = {}
    for src, cases in inner(F, lambda x: same_matches(S, x)):
        elems[src] = None
        lists.append((src, cases))
    for src in elems or {S.psrc: None}:
        m = next((y.args[0] for _, cs in lists for c in cs for at in c for y in deps(at) if isinstance(y, Sym) and y.op == "group" and isinstance(y.args[0], Sym) and y.args[0].op == "elem" and y.args[0].args[0] is src), element(src))
        T = field_terms(S, m)
        got = in_all([c for x, c in lists if x is src] or [[{}]], lambda G: nothing(G, src) or whole(T, G))
        if got is not False:
            return got
    return False


def one_way(G, t):
    """Does the text of a relationship have exactly one kind of arrow in this case?"""
    try:
        l, unk = strlang.lang_of_facts(G, t)
        lt, gt = rx.contains(rx.lit("<")), rx.contains(rx.lit(">"))
        both = rx.witness(rx.AND(l, lt, gt), limit=200000)
        none = rx.witness(rx.AND(l, rx.NOT(lt), rx.NOT(gt)), limit=200000)
    except rx.Unsupported:
        return None
    if both is None and none is None:
        return True
    return None if unk else False


UPPER = rx.cls(rx.FULL & ~strlang.LOWERC, "*")


def upper(G, t):
    """Is the name of a relationship upper case (or not there) in this case?"""
    if quick(G, truthy(t)) is False:
        return True
    try:
        l, unk = strlang.lang_of_facts(G, t)
        w = rx.witness(rx.AND(l, rx.NOT(UPPER)), limit=200000)
    except rx.Unsupported:
        return None
    if w is None:
        return True
    return None if unk else False


def groups_of(cases, src):
    """The groups of the elements of src the conditions are about."""
    out = set()
    for c in cases:
        for at in c:
            for y in deps(at):
                if isinstance(y, Sym) and y.op == "group" and isinstance(y.args[0], Sym) and y.args[0].op == "elem" and y.args[0].args[0] is src:
                    out.add(y)
    return out


def rel_matches(S, F):
    """What is known about all relationships found by another regex: (regex, cases)."""
    by = {}
    for src, cases in inner(F, lambda x: x.op == "finditer" and S.is_text(x.args[1]) and not same_matches(S, x)):
        by.setdefault(src, []).append(cases)
    for src in by:
        yield src, merged(by[src])
    for at, p in F.items():
        # nothing found at all
        if not p and at.op == "truth" and isinstance(at.args[0], Sym) and at.args[0].op in ("finditer", "search") and S.is_text(at.args[0].args[1]):
            yield at.args[0], []


def finds_all_relationships(S, R):
    """Is there a match of R for every relationship a pattern can have? -> True, False (with a text), None

    None, True: there is one in it, but it may be less than all of it.

    A regex that finds other things altogether gives False, None.
    """
    try:
        P = pat(R)
        Q = pat(S.psrc.args[0])
        if P is None or Q is None:
            return None, None
        sp = rx.cls(rx.SPACE, "*")
        part = False
        n = P.nfa()
        for r in RELS:
            g = Q.group_nfa(S.f.T[r].args[1])
            if rx.witness(rx.AND(g, rx.concat(sp, n, sp)), limit=200000) is None:
                return False, None
            w = rx.witness(rx.AND(g, rx.NOT(rx.contains(n))), limit=200000)
            if w is not None:
                return False, w
            if rx.witness(rx.AND(g, rx.NOT(rx.concat(sp, n, sp))), limit=200000) is not None:
                part = True
    except (rx.Unsupported, KeyError):
        return None, None
    return (None, True) if part else (True, None)


def relationships(S, F, test, whole_text):
    """Does the test hold for every relationship of a statement?"""
    # on the parts of the patterns
    lists = {}
    for src, cases in inner(F, lambda x: same_matches(S, x)):
        lists.setdefault(src, []).append(cases)
    for src, ls in lists.items():
        p = merged(ls)
        if p is None:
            continue
        m = next((y.args[0] for y in groups_of(p, src)), None)
        if m is None:
            continue
        T = field_terms(S, m)
        if all(nothing(G, src) or quick(G, truthy(T[r])) is False or test(G, T[r] if whole_text else T[r + "_label"]) is True for G in p for r in RELS):
            return True
    if S.kind == "find" and all(quick(F, truthy(S.f.T[r])) is False or test(F, S.f.T[r] if whole_text else S.f.T[r + "_label"]) is True for r in RELS):
        return True
    worst = False
    for src, cases in rel_matches(S, F):
        all_, w = finds_all_relationships(S, src.args[0])
        if all_ is False:
            S.missed = w if w is not None else S.missed
            continue
        if cases is None:
            worst = None
            continue
        if not cases:
            if all_ or w is True:
                return True
            worst = None
            continue
        P = pat(src.args[0])
        terms = groups_of(cases, src)
        if whole_text:
            # the whole match, or a group that is all of it
            got = [t for t in terms if t.args[1] == 0 or same_text(P, t.args[1])]
        else:
            got = [t for t in terms if t.args[1] != 0 and name_group(P, t.args[1])]
        res = [in_all([cases], lambda G: test(G, t) is True) for t in got]
        if True in res:
            if all_:
                return True
            w = unrefused(S, src.args[0], [(G, t) for t in got for G in cases]) if whole_text else None
            if w is not None:
                S.missed = w
                return False
            worst = None
        elif any(test(G, t) is None for t in got for G in cases):
            worst = None
    return worst


def unrefused(S, R, accepted):
    """A relationship with both arrows or none of which no part is refused."""
    try:
        P, Q = pat(R), pat(S.psrc.args[0])
        good = rx.OR(*[strlang.lang_of_facts(G, t)[0] for G, t in accepted])
        refused = rx.determinise(rx.AND(P.nfa(), rx.NOT(good)))
        # a match goes on as long as it can
        m = rx.determinise(P.nfa())
        more = "".join(c for c in "<>-=[]" if rx.witness(rx.AND(m, rx.concat(m, rx.lit(c))), limit=100000) is not None)
        last = rx.union(rx.lit(""), rx.concat(rx.cls(rx.mask_of(lambda c: c not in more)), rx.any_star()))
        refused = rx.concat(refused, last)
        lt, gt = rx.contains(rx.lit("<")), rx.contains(rx.lit(">"))
        wrong = rx.OR(rx.AND(lt, gt), rx.AND(rx.NOT(lt), rx.NOT(gt)))
        for r in RELS:
            w = rx.witness(rx.AND(Q.group_nfa(S.f.T[r].args[1]), wrong, rx.NOT(rx.concat(rx.any_star(), refused))), limit=200000)
            if w is not None:
                return w
    except (rx.Unsupported, KeyError):
        pass
    return None


def same_text(P, k):
    try:
        return rx.included(P.group_nfa(k), P.nfa()) is None and rx.included(P.nfa(), P.group_nfa(k)) is None
    except rx.Unsupported:
        return False


def name_group(P, k):
    """Can the group hold any name, and nothing else?"""
    try:
        g = P.group_nfa(k)
        w = rx.pattern(r"[A-Za-z0-9_]+", 0).nfa()
        return rx.witness(rx.AND(w, rx.NOT(g)), limit=100000) is None and rx.witness(rx.AND(g, rx.contains(rx.cls(rx.mask_of(lambda c: c in "<>[]{}()"))),), limit=100000) is None
    except rx.Unsupported:
        return False


CURLYMASK = rx.mask_of(lambda c: c in CURLY)
OPENMASK = rx.mask_of(lambda c: c == "{")
CLOSEMASK = rx.mask_of(lambda c: c == "}")


def even(G, x):
    """Are the curly braces of a text even in number in this case?"""
    for at, p in G.items():
        if at.op != "eq":
            continue
        l, r = at.args[0], at.args[1]
        if isinstance(l, Sym) and l.op == "opMod" and isinstance(l.args[0], Sym) and l.args[0].op == "ccount" and l.args[0].args[0] is x and l.args[0].args[1] == CURLYMASK:
            if l.args[1] == const(2) and (r == const(1) and not p or r == const(0) and p):
                return True
        if p and isinstance(l, Sym) and isinstance(r, Sym) and l.op == r.op == "ccount" and l.args[0] is x and r.args[0] is x and {l.args[1], r.args[1]} == {OPENMASK, CLOSEMASK}:
            return True
    return False


def braces(S, F):
    worst = False
    for src, cases in inner(F, lambda x: x.op == "resplit" and S.is_text(x.args[1])):
        p = pat(src.args[0])
        e = next((y for c in cases for at in c for y in deps(at) if isinstance(y, Sym) and y.op == "elem" and y.args[0] is src), None)
        if p is None or e is None:
            continue
        if not all(even(c, e) for c in cases):
            continue
        try:
            # every arrow is a place to split at
            arrows = rx.cls(ARROWS, "+")
            n = p.nfa()
            if rx.witness(rx.AND(rx.cls(ARROWS), rx.NOT(n)), limit=1000) is None:
                return True
            if any(rx.witness(rx.AND(n, rx.contains(rx.lit(c))), limit=10000) is None for c in "<>"):
                continue
        except rx.Unsupported:
            pass
        worst = None
    if worst is False and has_other_counts(S, F):
        worst = None
    return worst


def has_other_counts(S, F):
    """Is something known about the braces in a way that is not understood?"""
    for at in F:
        for y in deps(at):
            if isinstance(y, Sym) and y.op in ("wit", "loopval", "unk", "count") and S.term in deps(y):
                return True
    return False


def harmless(S, F):
    """No forbidden character in a statement."""
    n = rx.contains(rx.cls(BAD))
    try:
        for t in (S.term,):
            l, unk = strlang.lang_of_facts(F, t)
            if rx.witness(rx.AND(l, n), limit=200000) is None:
                return True
        for at, p in F.items():
            if not p and at.op in strlang.TEXTOPS and strlang.text_root(at) is not None and S.is_text(strlang.text_root(at)):
                r = strlang.atom_lang(at)
                if r is not None and rx.witness(rx.AND(n, rx.NOT(r[1])), limit=200000) is None:
                    return True
        P = pat(S.psrc.args[0])
        if rx.witness(rx.AND(P.nfa(), n), limit=200000) is None:
            return leftover(S, F)
    except rx.Unsupported:
        return None
    return False


def c11(a):
    r1, r2, r3, r4, r5, r6, r7, r8 = (
        "nothing-left-over", "whole-patterns", "one-direction", "upper-case-names", "even-braces", "no-forbidden-characters", "every-pattern", "unfinished-statement")
    a.rules[r1] = "On every path that accepts the query, what is left of each statement when its patterns are taken out is in the language of the keyword, commas, the semicolon and white space."
    a.rules[r2] = "For each pattern of each statement: a left node, and with a relationship the node after it."
    a.rules[r3] = "For each relationship of each statement, by the language of the texts that get through: exactly one of < and >; the regex that finds the relationships finds all a pattern can have."
    a.rules[r4] = "For each relationship of each statement: the name is empty or upper case."
    a.rules[r5] = "For each piece of each statement between arrows: an even number of braces."
    a.rules[r6] = "For each statement: none of #%&*$."
    a.rules[r7] = "Every match of the pattern regex that is not empty, of every statement, is in the parsed query."
    a.rules[r8] = "What is left of the query when the statements of a clause are taken out has no keyword of that clause followed by an opening parenthesis."
    stmts = each(a)
    n = {"make": 0, "find": 0}
    done = set()
    for S in stmts:
        where = S.kind.upper()
        if not S.ok:
            a.und(r1, where, "the statements are not understood: " + short(S.doc)[:80])
            continue
        n[S.kind] += 1
        for rule, pred, msg in (
            (r1, leftover, "text of a statement that is in no pattern is ignored"),
            (r2, patterns_whole, "a pattern without a node, or with a relationship that has no node after it, is accepted"),
            (r3, lambda S, F: relationships(S, F, one_way, True), "a relationship with both arrows, or with none, is accepted"),
            (r4, lambda S, F: relationships(S, F, upper, False), "a relationship name that is not upper case is accepted"),
            (r5, braces, "a piece of a statement with a brace too many is accepted"),
            (r6, harmless, "a forbidden character is accepted"),
        ):
            S.left = S.missed = None
            got = S.every(lambda F: pred(S, F))
            if got is True:
                a.ok(rule, f"every {where} statement")
            elif got is None:
                a.und(rule, where, "what is known about the statements is not understood")
            else:
                more = f" (such as {S.left!r})" if S.left is not None else f" (nothing checks {S.missed!r})" if S.missed is not None else ""
                k = (rule, S.kind, more)
                if k not in done:
                    done.add(k)
                    a.bad(rule, where, msg + more, S.term)
        every_pattern(a, r7, S, done)
    for kind in n:
        if not n[kind]:
            a.und(r1, kind.upper(), "no path with such a statement is understood")
    unfinished(a, r8)


def every_pattern(a, rule, S, done):
    where = S.kind.upper()
    if S.kind == "find":
        F = S.s.facts
        if S.m.op == "elem":
            a.ok(rule, where)
            return
        ln = sym("len", S.psrc, typ="int")
        if any(ln in deps(at) for at in F):
            a.und(rule, where, "the number of patterns takes part")
            return
        if (rule, "find") not in done:
            done.add((rule, "find"))
            i = S.m.args[1]
            i = i.args[1] if isinstance(i, Sym) and i.op == "pick" else i
            i = i.v if isinstance(i, Const) else i
            a.bad(rule, f"FIND, pattern {i}", "of the patterns of a FIND statement only this one is looked for, the others are ignored")
        return
    if not isinstance(S.doc, Doc):
        a.und(rule, where, short(S.doc))
        return
    for path, segs in leafs(S.doc.segs):
        F = {}
        for src, f, part in path:
            F.update(dict(f))
        mine = [x for x in path if x[0] is S.src]
        if path and path[-1][0] is not None and not mine:
            a.und(rule, where, "statements from elsewhere: " + short(path[-1][0])[:80])
            continue
        if mine and mine[0][2]:
            a.bad(rule, where, "the statements after some statement are not parsed")
            continue
        if mine and not segs:
            a.bad(rule, where, "a statement is left out")
            continue
        for y in segs:
            lst = get(y[2], "parsed_pattern_list") if len(y) > 2 else None
            if not isinstance(lst, Doc):
                continue
            for p2, s2 in leafs(lst.segs):
                src = next((x for x in p2 if x[0] is S.psrc), None)
                if src is None:
                    continue
                if src[2]:
                    a.bad(rule, where, "the patterns of a statement after some pattern are left out")
                elif not s2:
                    G = {}
                    for _, f, _ in p2:
                        G.update(dict(f))
                    if nothing(G, S.psrc):
                        a.ok(rule, "an empty match is no pattern")
                    else:
                        a.bad(rule, where, "a pattern of a statement is left out", *list(G)[:1])
                else:
                    a.ok(rule, "a pattern of a statement")


KEYWORDS = {"make": "make", "find": "find"}


def unfinished(a, rule):
    out, _ = parsed(a)
    seen = {}
    for s, got in out:
        for kind, kw in KEYWORDS.items():
            bad = rx.contains(rx.pattern(kw + r"\s*\(", re.I).nfa())
            res = False
            wit = None
            roots = {}
            for at in s.facts:
                r = strlang.text_root(at) if at.op in strlang.TEXTOPS else None
                if r is None:
                    continue
                if r is a.Q or r.op == "sub" and r.args[2] is a.Q:
                    roots[r] = None
            for r in roots:
                if r is not a.Q and not removes(r, kw):
                    continue
                try:
                    l, unk = strlang.lang_of_facts(s.facts, r)
                    w = rx.witness(rx.AND(l, bad), limit=400000)
                except rx.Unsupported:
                    res = None
                    continue
                if w is None:
                    res = True
                    break
                wit = w
                if unk:
                    res = None
            if res is True:
                a.ok(rule, kw.upper())
            elif res is None:
                a.und(rule, kw.upper(), "what is known about the query is not understood")
            elif (kind, rule) not in seen:
                seen[kind, rule] = 1
                a.bad(rule, kw.upper(), f"a query with a {kw.upper()} that is not a statement is accepted" + (f" (what is left of it may be {wit!r})" if wit is not None else ""))


def removes(r, kw):
    """Does the substitution take out statements of this clause only?"""
    try:
        p = pat(r.args[0])
        rep = r.args[1]
        rep = rep if isinstance(rep, str) else rep.v if isinstance(rep, Const) else None
        if p is None or rep is None or not isinstance(rep, str) or rep.strip(" \n\t;") != "":
            return False
        return rx.witness(rx.AND(p.nfa(), rx.NOT(rx.pattern(kw + r"\s*\([^;]*;\s*", re.I).nfa())), limit=200000) is None
    except rx.Unsupported:
        return False


# -------------------------------------------------------------------- C12, C28, C32
PROPS = r"\{[\w:\s,'\".\[\]@]*\}"
NODE = rf"\(\s*\w*\s*:\s*\w+\s*(?:{PROPS})?\s*\)"
REL = rf"<?-+\[\s*\w*\s*:?\s*\w*\s*(?:{PROPS})?\s*\]-+>?"
PAT = rf"{NODE}(?:\s*{REL}\s*{NODE}(?:\s*{REL}\s*{NODE})?)?"
_VALID = {}


def valid(kind):
    """The texts of well-formed statements of a clause, the keyword in any letter case."""
    if kind not in _VALID:
        if kind == "report":
            p = r"report\s+\w+(?:\s*,\s*\w+)*\s*;"
        else:
            p = rf"{kind}\s*{PAT}(?:\s*,\s*{PAT})*\s*;"
        _VALID[kind] = rx.pattern(p, re.I).nfa()
    return _VALID[kind]


def statement_nfa(S):
    p = pat(S.R)
    if p is None:
        return None
    k = S.term.args[1]
    return p.nfa() if k == 0 else p.group_nfa(k)


def one_each(a, kinds):
    """One Stmt for each way the statements of a clause are found."""
    seen = {}
    for S in each(a, kinds):
        k = (S.kind, S.ok, S.R if S.ok else None, S.term if S.ok else None)
        seen.setdefault(k, S)
    return list(seen.values())


def c12(a):
    r1, r2, r3, r4, r5 = ("one-statement", "any-layout", "whole-query", "one-of-each", "own-statement")
    a.rules[r1] = "No text the regex of a statement matches has a semicolon before its end."
    a.rules[r2] = "Every well-formed statement, with white space and line breaks wherever the grammar has them, is in the language of that regex."
    a.rules[r3] = "Statements are searched for in the text of the query itself."
    a.rules[r4] = "On every path that accepts a query the number of FIND and of REPORT statements found is at most one, by the conditions on that number."
    a.rules[r5] = "The patterns of a MAKE and of a FIND are matches in the text of one statement; each MAKE statement is an entry of its own."
    handed(a, False)
    kinds = {}
    for S in one_each(a, ("make", "find", "report")):
        where = S.kind.upper()
        if not S.ok:
            joined(a, r5, S, where)
            continue
        kinds[S.kind] = 1
        n = None
        try:
            n = statement_nfa(S)
            if n is None:
                raise rx.Unsupported("")
            w = rx.witness(rx.AND(n, rx.contains(rx.concat(rx.lit(";"), rx.cls(rx.SPACE, "*"), rx.cls(rx.FULL & ~rx.SPACE)))), limit=300000)
            a.need(w is None, r1, where, where, f"one statement of this clause can be {w!r}")
            if pat(S.R).exact:
                w = rx.witness(rx.AND(valid(S.kind), rx.NOT(n)), limit=300000)
                a.need(w is None, r2, where, where, f"the statement {w!r} is not recognised")
            else:
                a.und(r2, where, "the regex is not known exactly")
        except rx.Unsupported as e:
            a.und(r1, where, f"the regex is not understood: {e}")
        t, _ = strlang.root_of(S.text)
        if t is a.Q:
            a.ok(r3, where)
        elif isinstance(t, Sym) and t.op == "sub" and strlang.root_of(t.args[2])[0] is a.Q and isinstance(t.args[1], Const) and t.args[1].v.strip() == "":
            a.und(r3, where, "statements are searched for in a text made from the query")
        else:
            piece = piece_of(a, t)
            w = None
            if piece and n is not None:
                try:
                    w = rx.witness(rx.AND(n, valid(S.kind), rx.contains(piece[1])), limit=300000)
                except rx.Unsupported:
                    pass
            if w is not None:
                a.bad(r3, where, f"the query is cut first, also within the statement {w!r}", S.text)
            elif piece and not piece[0]:
                a.bad(r3, where, "statements are searched for in one piece of the query only", S.text)
            else:
                a.und(r3, where, "statements are searched for in " + short(t)[:80])
        if S.kind == "make":
            if S.term.args[0].op == "elem":
                a.ok(r5, where)
            else:
                a.bad(r5, where, "only one of the MAKE statements is parsed", S.term)
        else:
            a.ok(r5, where)
    for k in NAMES:
        if k not in kinds:
            a.und(r1, k.upper(), "no statement of this clause is understood")
    done = set()
    for S in each(a, ("find", "report")):
        if not S.ok or not isinstance(S.src, Sym):
            continue
        n = how_many(S.s.facts, S.src)
        where = S.kind.upper()
        if n is None:
            a.und(r4, where, "the number of statements takes part in a way that is not understood")
        elif n <= 1:
            a.ok(r4, where)
        elif where not in done:
            done.add(where)
            a.bad(r4, where, f"a query with {n} {where} statements is accepted", S.s)


def piece_of(a, t):
    """(all pieces, language of what separates them) if the text is a piece of the query."""
    r = piece_of_query(a, t)
    if r is None:
        return None
    sep = rx.determinise(rx.AND(r[1], rx.concat(rx.cls(rx.FULL), rx.any_star())))
    return r[0], sep


def piece_of_query(a, t):
    x = t
    every = True
    if isinstance(x, Sym) and x.op == "elem":
        x = x.args[0]
    elif isinstance(x, Sym) and x.op in ("at", "item", "pick"):
        every = False
        x = x.args[0]
    else:
        return None
    if not isinstance(x, Sym):
        return None
    src = x.args[1] if x.op == "resplit" else x.args[0] if x.args else None
    if not isinstance(src, Sym) or strlang.root_of(src)[0] is not a.Q:
        return None
    if x.op == "resplit":
        P = pat(x.args[0])
        return (every, P.nfa()) if P is not None and P.nfa().exact else None
    if x.op in ("split", "rsplit", "partition", "rpartition"):
        sep = x.args[1] if len(x.args) > 1 else None
        if x.op in ("split", "rsplit") and (sep is None or sep == NONE):
            return every, rx.cls(rx.SPACE)
        return (every, rx.lit(sep.v)) if isinstance(sep, Const) and isinstance(sep.v, str) and sep.v else None
    if x.op == "splitlines":
        return every, rx.cls(rx.mask_of(lambda c: c in "\n\r"))
    return None


def joined(a, rule, S, where):
    a.und(rule, where, "the statements are not understood: " + short(S.doc)[:80])


def how_many(F, src):
    """The largest number of matches (up to 9) the conditions allow."""
    ln = sym("len", src, typ="int")
    other = False
    best = 1
    for n in range(2, 10):
        ok = True
        for at, p in F.items():
            if ln not in deps(at):
                continue
            v = holds(at, ln, n)
            if v is None:
                other = True
            elif v != p:
                ok = False
        if ok:
            best = n
            break
    if best == 1:
        return 1
    if other or any(more_about(at, src) for at in F):
        return None
    return best


def more_about(at, src):
    """A condition on a list of matches that is not its length, its emptiness or about all its elements."""
    if at.op in ("forall", "exists") and at.args[0] is src or at.op in strlang.TEXTOPS and at.op != "truth" or at.op == "returns":
        return False
    for y in deps(at):
        if isinstance(y, Sym) and y.op in ("slice", "item", "at") and y.args[0] is src and not (y.op == "at" and y.args[1] == const(0)):
            return True
    return False


def holds(at, ln, n):
    r = []
    for x in at.args:
        b, o = base_off(x) if isinstance(x, (Sym, Const)) else (None, None)
        if b is ln:
            r.append(n + o)
        elif isinstance(x, Const) and type(x.v) is int:
            r.append(x.v)
        else:
            return None
    if at.op == "truth" and len(r) == 1:
        return bool(r[0])
    if len(r) != 2:
        return None
    ops = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y}
    return ops[at.op](*r) if at.op in ops else None


def after(dfa, w):
    """The rest of a language after a text (an automaton with one state to be in)."""
    cur = {0}
    for c in w:
        i = 1 << rx._INDEX[c]
        cur = {t for s in cur for m, t in dfa.trans[s] if m & i}
    if not cur:
        return None
    (s,) = cur
    return s


def variants(kw):
    out = [""]
    for c in kw:
        out = [x + y for x in out for y in (c.lower(), c.upper())]
    return out


def same_rest(d, s, t):
    """Are two states of a deterministic automaton equivalent?"""
    seen = {(s, t)}
    todo = [(s, t)]
    fin = set(d.final)
    while todo:
        x, y = todo.pop()
        if (x in fin) != (y in fin):
            return False
        if x == y:
            continue
        tx = d.trans[x] if x is not None else []
        ty = d.trans[y] if y is not None else []
        pairs = []
        covx = covy = 0
        for m, u in tx:
            covx |= m
            for m2, v in ty:
                if m & m2:
                    pairs.append((u, v))
        for m, v in ty:
            covy |= m
        for m, u in tx:
            if m & ~covy:
                pairs.append((u, None))
        for m, v in ty:
            if m & ~covx:
                pairs.append((None, v))
        for q in pairs:
            if q not in seen:
                if len(seen) > 20000:
                    raise rx.Unsupported("too many states")
                seen.add(q)
                todo.append(q)
    return True


def case_matters(lang, kw):
    """Two spellings of the keyword after which a language goes on differently, or None."""
    d = rx.determinise(lang)
    first = after(d, kw.lower())
    for v in variants(kw):
        s = after(d, v)
        if not same_rest(d, first, s):
            return kw.lower(), v
    return None


def begins(n, kw):
    return rx.witness(rx.AND(n, rx.concat(rx.pattern(kw, re.I).nfa(), rx.any_star())), limit=50000) is not None


def text_conditions(states):
    """Every condition on a text in what is known on some path, also inside of conditions on all elements."""
    seen = set()
    out = set()
    for s in states:
        for at in s.facts:
            if at in seen:
                continue
            seen.add(at)
            for y in deps(at) | {at}:
                if isinstance(y, Sym) and y.op in strlang.TEXTOPS:
                    r = strlang.text_root(y)
                    if r is not None:
                        out.add((y, r))
    return out


def c28(a):
    from .query import outcomes

    r1, r2 = "found-in-any-case", "same-after"
    a.rules[r1] = "The language of the regex that finds the statements of a clause goes on in the same way after every spelling of its keyword in upper and lower case letters."
    a.rules[r2] = "So does the language of every condition, on any path from the query to its end, on the text of a statement or on what is made from it."
    regexes = {}
    for S in one_each(a, ("make", "find", "report")):
        if not S.ok:
            a.und(r1, S.kind.upper(), "the statements are not understood")
            continue
        regexes[S.R] = S.kind
    for R, kw in regexes.items():
        try:
            w = case_matters(pat(R).nfa(), kw)
            a.need(w is None, r1, kw.upper(), kw.upper(), w and f"statements that begin with {w[0]!r} are found by another rule than those that begin with {w[1]!r}")
        except rx.Unsupported as e:
            a.und(r1, kw.upper(), f"the regex is not understood: {e}")
    for k in NAMES:
        if k not in regexes.values():
            a.und(r1, k.upper(), "no statement of this clause is understood")
    out, bad = parsed(a)
    states = [s for s, _ in out + bad]
    more = outcomes(a)
    states += [s for s, _ in more.good + more.bad]
    n = 0
    seen = {}
    for y, r in sorted(text_conditions(states), key=lambda x: repr(x[0])[:300]):
        kw = statement_text(r, regexes)
        if kw is None:
            continue
        norm = (strlang._norm(y, r), kw)
        if norm in seen:
            continue
        seen[norm] = 1
        l = strlang.lang_of_normal(norm[0])
        if l is not None:
            try:
                ops = chain(r)[1]
                if any(o[0] == "slice" for o in ops):
                    l = pull(l, ops)
            except rx.Unsupported:
                l = None
        if l is None:
            if y.op == "truth" and y.args[0] is r:
                continue
            a.und(r2, kw.upper(), "a condition on a statement is not understood: " + short(y)[:80])
            continue
        try:
            w = case_matters(l, kw)
        except rx.Unsupported as e:
            a.und(r2, kw.upper(), f"a condition on a statement is too large: {e}")
            continue
        if w is None:
            a.ok(r2, short(norm[0])[:80])
        else:
            a.bad(r2, kw.upper(), f"a statement that begins with {w[0]!r} and one that begins with {w[1]!r} are told apart", y)


def statement_text(r, regexes):
    """The clause if it is the text of a statement with its keyword, or that with something taken out."""
    while isinstance(r, Sym) and r.op in ("sub", "replace", "strip", "lstrip", "rstrip", "slice"):
        r = r.args[2] if r.op == "sub" else r.args[0]
        r, _ = strlang.root_of(r)
    if not (isinstance(r, Sym) and r.op == "group"):
        return None
    m = match_regex(r.args[0])
    if m is None or m[0] not in regexes:
        return None
    kw = regexes[m[0]]
    P = pat(m[0])
    try:
        n = P.nfa() if r.args[1] == 0 else P.group_nfa(r.args[1])
        return kw if begins(n, kw) else None
    except rx.Unsupported:
        return kw


def query_text(a, r):
    """The regexes whose matches are taken out of the query, if the text is what is left of it."""
    gone = []
    r, _ = strlang.root_of(r)
    while isinstance(r, Sym) and r.op == "sub":
        gone.append(r.args[0])
        r, _ = strlang.root_of(r.args[2])
    return gone if r is a.Q else None


def c32(a):
    r1, r2, r3 = "no-false-statement", "no-false-refusal", "no-false-command"
    a.rules[r1] = "No well-formed statement of another clause has, anywhere in it, a match of the regex that finds the statements of a clause."
    a.rules[r2] = "No well-formed statement has, anywhere in it, a match of a regex (or other condition on the text) for which the query is always refused."
    a.rules[r3] = "Every text with a well-formed statement that is typed into the shell gets to query(), as it is."
    regexes = {}
    for S in one_each(a, ("make", "find", "report")):
        if not S.ok:
            a.und(r1, S.kind.upper(), "the statements are not understood")
            continue
        regexes[S.R] = S.kind
        if query_text(a, S.text) is None:
            piece = piece_of(a, strlang.root_of(S.text)[0])
            w = None
            if piece:
                letters = rx.contains(rx.cls(rx.mask_of(str.isalpha)))
                try:
                    w = rx.witness(rx.AND(valid(S.kind), rx.contains(rx.determinise(rx.AND(piece[1], letters)))), limit=300000)
                except rx.Unsupported:
                    pass
            if w is not None:
                a.bad(r1, S.kind.upper(), f"the query is cut at a word, also within the statement {w!r}", S.text)
            else:
                a.und(r1, S.kind.upper(), "statements are searched for in " + short(S.text)[:60])
            continue
        for k in NAMES:
            if k == S.kind:
                continue
            try:
                w = hit(k, rx.contains(statement_nfa(S)))
            except rx.Unsupported as e:
                a.und(r1, S.kind.upper(), f"the regex is not understood: {e}")
                continue
            a.need(w is None, r1, f"{S.kind.upper()} in {k.upper()}", S.kind.upper(), f"in the {k.upper()} statement {w!r} a {S.kind.upper()} statement is found", S.text)
    out, bad = parsed(a)
    # conditions that hold, or do not, on every path that accepts a query
    pol = {}
    for s, _ in out:
        for at, p in s.facts.items():
            r = strlang.text_root(at) if at.op in strlang.TEXTOPS else None
            if r is not None and query_text(a, r) is not None:
                pol.setdefault((at, r), set()).add(p)
    for (at, r), ps in pol.items():
        if len(ps) > 1:
            continue
        p = next(iter(ps))
        gone = query_text(a, r)
        got = strlang.atom_lang(at)
        if got is None and R_of(at) is not None and R_of(at).op in ("search", "finditer") and strlang.root_of(R_of(at).args[1])[0] is R_of(at).args[1]:
            P = pat(R_of(at).args[0])
            if P is not None and P.nfa().exact:
                got = (r, rx.contains(P.nfa()))
        if got is None:
            a.und(r2, "query", "a condition on the query is not understood: " + short(at)[:80])
            continue
        l = got[1]
        for k in NAMES:
            try:
                if any(pat(R) is None or rx.witness(rx.AND(valid(k), pat(R).nfa()), limit=200000) is not None for R in gone):
                    # these statements are taken out
                    continue
                if p and (at.op != "truth" or R_of(at) is not None):
                    # the query has to have something: not a refusal of what it has
                    continue
                w = hit(k, l if not p else rx.NOT(l))
            except rx.Unsupported as e:
                a.und(r2, k.upper(), f"a condition on the query is not understood: {e}")
                continue
            a.need(w is None, r2, f"{short(at)[:60]} on {k.upper()}", k.upper(), f"the {k.upper()} statement {w!r} is refused or not carried out", at)
    shell(a, r3)
    like_any_other(a, regexes)


WORDS6 = ("MAKE", "FIND", "REPORT", "CRITERIA", "ADJUST", "USING")


def like_any_other(a, regexes):
    from .query import outcomes

    rule = "like-any-other"
    a.rules[rule] = "No condition on a part of a statement (label, name, handle, value), on a path or in a document written, is one that the word of a clause, or a rearrangement of its letters, meets and no text that differs from it by one letter does, or the other way round."
    out, bad = parsed(a)
    o = outcomes(a)
    states = [s for s, _ in out + bad + o.good + o.bad]
    conds = text_conditions(states)
    seen = set()
    for s, _ in o.good:
        for e in list(s.files.values()) + list(s.effects):
            if e in seen:
                continue
            seen.add(e)
            for y in deps(e):
                if isinstance(y, Sym) and y.op in strlang.TEXTOPS:
                    r = strlang.text_root(y)
                    if r is not None:
                        conds.add((y, r))
    done = {}
    for y, r in sorted(conds, key=lambda x: repr(x[0])[:300]):
        base, ops = chain(r)
        t = base
        while isinstance(t, Sym) and t.op in ("sub", "replace"):
            t = strlang.root_of(t.args[2] if t.op == "sub" else t.args[0])[0]
        if a.Q not in deps(t) or query_text(a, t) is not None or statement_text(r, regexes) is not None:
            continue
        norm = (strlang._norm(y, r), base, ops)
        if norm in done:
            continue
        done[norm] = 1
        l = strlang.lang_of_normal(norm[0])
        try:
            if l is not None:
                l = pull(l, ops)
            b = strlang.base_lang(base)
        except rx.Unsupported:
            l = None
        what = short(norm[0])[:60]
        if l is None:
            if any(isinstance(x, Const) and isinstance(x.v, str) and any(w in x.v.upper() for w in WORDS6) for x in walk(y)):
                a.und(rule, what, "a condition with the word of a clause is not understood")
            continue
        w = word_matters(l, b)
        a.need(w is None, rule, what, "a part of a statement", f"{w!r} is not treated as a text that differs from it by one letter", y)


def near(w):
    for i, c in enumerate(w):
        if c.isalpha():
            yield w[:i] + ("q" if c.islower() else "Q") + w[i + 1:]


def word_matters(l, b):
    d, db = rx.determinise(l), rx.determinise(b) if b is not None else None

    def inn(m, w):
        q = after(m, w)
        return q is not None and q in m.final

    for k in WORDS6:
        for v in (k, k.lower(), k.title(), k[1] + k[0] + k[2:], k[:-2] + k[-1] + k[-2], k[:-2].lower() + k[-1].lower() + k[-2].lower()):
            for f in ("%s", "%s_b", "a_%s", "'%s'", "'a %s b'", '"%s"', "a %s b", "%s (", "{x: '%s'}", '{x: "a %s b"}', "[:%s]", "(:%s)"):
                w = f % v
                if db is not None and not inn(db, w):
                    continue
                x = inn(d, w)
                others = [f % n for n in near(v)]
                if all(inn(d, n) != x and (db is None or inn(db, n)) for n in others):
                    return w
    return None


def R_of(at):
    x = at.args[0]
    return x if isinstance(x, Sym) and x.op in ("search", "match", "fullmatch", "finditer") else None


def hit(kind, lang):
    return rx.witness(rx.AND(valid(kind), lang), limit=400000)


class Only:
    """An analysis of which the results of one rule are kept, under another name."""

    def __init__(self, a, rule, name):
        self.__dict__.update(_a=a, _rule=rule, _name=name, rules={})

    def __getattr__(self, n):
        return getattr(self._a, n)

    def ok(self, rule, what):
        if rule == self._rule:
            self._a.ok(self._name, what)

    def bad(self, rule, where, msg, *terms):
        if rule == self._rule:
            self._a.bad(self._name, where, msg, *terms)

    def und(self, rule, where, msg=""):
        if rule == self._rule:
            self._a.und(self._name, where, msg)

    def need(self, cond, rule, what, where, msg, *terms):
        if rule == self._rule:
            return self._a.need(cond, self._name, what, where, msg, *terms)
        return cond


def shell(a, rule):
    from . import select

    select.c22(Only(a, "only-commands", rule))
