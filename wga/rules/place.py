"""Where the named parts of a pattern are read from.

The groups of the pattern regex are wrapped in marks, and the language of the
marked expression is compared with the way a pattern is written: every text
the regex can match has each part between its own marks in its own place.
"""
from .. import rx
from ..ana import *
from ..state import match_regex, pat
from .make import NODES, RELS, words

MARKS = "\x01\x02\x03\x04\x05"
ALLM = rx.mask_of(lambda c: c in MARKS)
FREE = rx.FULL & ~ALLM
ORDER = ("left_node", "left_middle_rel", "middle_node", "middle_right_rel", "right_node")
WRITTEN_NODE = r"\s*\(\s*(?:\x01[^(){}:\x01-\x05]*\x01)?\s*:\s*\x02[^(){}:\x01-\x05]*\x02\s*(?:\x03[^\x01-\x05]*\x03)?\s*\)\s*"
WRITTEN_REL = r"\s*<?-+\[\s*(?:\x01[^\[\](){}:\x01-\x05]*\x01)?\s*:?\s*(?:\x02[^\[\](){}:\x01-\x05]*\x02)?\s*(?:\x03[^\x01-\x05]*\x03)?\s*\]-+>?\s*"
WRITTEN = (r"\s*(?:\x01[^\x01-\x05]*\x01)?\s*(?:\x02[^\x01-\x05]*\x02)?\s*(?:\x03[^\x01-\x05]*\x03)?"
           r"\s*(?:\x04[^\x01-\x05]*\x04)?\s*(?:\x05[^\x01-\x05]*\x05)?\s*")


def marked(P, e, marks):
    """The expression with marks around groups (index -> mark) and in no other place."""
    k = e[0]
    if k == "chr":
        return ("chr", e[1] & FREE)
    if k == "group":
        x = marked(P, e[3], marks)
        m = marks.get(e[2])
        g = ("group", e[1], e[2], x)
        if m is None:
            return g
        c = ("chr", rx.mask_of(lambda c: c == m))
        return ("cat", [c, g, c])
    if k in ("cat", "alt"):
        return (k, [marked(P, x, marks) for x in e[1]])
    if k in ("star", "plus", "opt"):
        return (k, marked(P, e[1], marks))
    if k == "look":
        return (k, marked(P, e[1], {})) + tuple(e[2:])
    return e


def unmark(w):
    return "".join(c for c in w if c not in MARKS)


def between(w, m):
    p = w.split(m)
    return p[1] if len(p) > 2 else ""


def in_place(a, rule, T, parts, where):
    """T: field of a parsed pattern -> its term."""
    ks = {}
    R = None
    for n in ORDER + tuple(f"{n}_{x}" for n in ORDER for x in ("handle", "label", "props")):
        t = T.get(n)
        if not (isinstance(t, Sym) and t.op == "group"):
            a.und(rule, where, f"{n} is not a group of a match: {show(t, 2)[:80] if t is not None else None}")
            return False
        r = match_regex(t.args[0])
        if r is None or R is not None and r[0] != R[0]:
            a.und(rule, where, f"{n} is a group of another match")
            return False
        R = r
        ks[n] = t.args[1]
    try:
        P = pat(R[0])
        idx = {n: P.group_index(k) for n, k in ks.items()}
    except (rx.Unsupported, KeyError):
        a.und(rule, where, "the pattern of the match is not understood")
        return False
    if not P.exact:
        a.und(rule, where, "the pattern of the match is not understood exactly")
    ok = True
    try:
        n = rx.NFA.of(marked(P, P.expr, {idx[x]: MARKS[i] for i, x in enumerate(ORDER)}))
        w = rx.witness(rx.AND(n, rx.NOT(rx.pattern(WRITTEN, 0).nfa())), limit=200000)
        if w is not None:
            got = {x: between(w, MARKS[i]) for i, x in enumerate(ORDER)}
            a.bad(rule, where, f"in {unmark(w)!r} the parts are not found in the order in which they are written: {got}")
            ok = False
        else:
            a.ok(rule, "order of the parts")
        for x in parts:
            e = P.group_expr(idx[x])
            n = rx.NFA.of(marked(P, e, {idx[x + "_" + y]: MARKS[i] for i, y in enumerate(("handle", "label", "props"))}))
            if any(idx[x] not in P.enclosing(idx[x + "_" + y]) for y in ("handle", "label", "props")):
                a.bad(rule, where, f"a part of the {words(x)} is read from somewhere else in the pattern")
                ok = False
                continue
            w = rx.witness(rx.AND(n, rx.NOT(rx.pattern(WRITTEN_NODE if x in NODES else WRITTEN_REL, 0).nfa())), limit=200000)
            if w is not None:
                got = ", ".join(f"{y} {between(w, MARKS[i])!r}" for i, y in enumerate(("handle", "label", "props")))
                a.bad(rule, where, f"in the {words(x)} {unmark(w)!r} these are read: {got}")
                ok = False
            else:
                a.ok(rule, f"handle, label and properties of the {words(x)}")
    except rx.Unsupported as e:
        a.und(rule, where, f"the pattern of the match is not understood: {e}")
        return False
    return ok
