"""Rules about FIND: what is looked for, and when it is given up."""
from .. import rx, strlang
from ..ana import *
from ..state import quick, truthy
from .make import NODES, RELS, Fields, alts, directions, get, leafs, short, words
from . import place, store

PARSE = "wiggle_query_language.clauses.find.parse_find.parse_find_statement.parse_find_statement_from_query_string"
PROCESS = "wiggle_query_language.clauses.find.transform.find_pre.process_parsed_find"
FIND = "wiggle_query_language.clauses.find.find.find"
CRITERIA = "models.wql.parsing.parsed_query.ParsedCriteria"
YESNO = "models.wql.parsing.parsed_query.ParsedCriteriaYesNo"


def parsed_finds(a):
    """[(state, ParsedFind, fields)] of the ways a FIND statement can be parsed."""
    k = ("finds",)
    if k not in a._q:
        st, g = a.gdb()
        out = []
        for s, v in a.run(PARSE, [a.Q], st=st):
            if isinstance(v, Raise):
                continue
            for s2, x in a.ip.resolve(s, v):
                if x == NONE:
                    continue
                d = a.ip.lib.freeze(s2, x)
                p = get(d, "parsed_pattern") if isinstance(d, Doc) else None
                if not isinstance(p, Doc):
                    raise Undecided("the parsed FIND is not understood: " + short(d))
                f = Parts(p)
                if not f.ok:
                    raise Undecided("the pattern of the parsed FIND is not understood")
                out.append((s2, x, f))
        if not out:
            raise Undecided("no FIND is parsed")
        a._q[k] = (g, out)
    return a._q[k]


class Parts(Fields):
    def __init__(self, p):
        self.T = {y[1].v: y[2] for y in p.segs if y[0] == "one" and isinstance(y[1], Const)}
        self.cache = {}
        self.ok = all(n in self.T for n in NODES + tuple(RELS))


class Pre:
    """A processed FIND."""

    def __init__(self, d):
        self.doc = d
        self.nodes = {n: get(d, n) for n in NODES}
        self.labels = get(d, "node_labels")
        self.names = get(d, "relationship_names")


def process(a, s, x, criteria):
    good = []
    for s2, v in a.run(PROCESS, [x, criteria], st=s.fork()):
        if isinstance(v, Raise):
            continue
        for s3, y in a.ip.resolve(s2, v):
            good.append((s3, Pre(a.ip.lib.freeze(s3, y))))
    return good


def cases(segs, F=()):
    """(conditions, segments) of a container, alternatives apart."""
    out = [(tuple(F), ())]
    for g in segs:
        if g[0] == "alt":
            out = [(f + f2, x + x2) for f, x in out for f1, s1 in g[1] for f2, x2 in cases(s1, tuple(f1))]
        else:
            out = [(f, x + (g,)) for f, x in out]
        if len(out) > 200:
            raise Undecided("a container has too many alternatives")
    return out


def content(v):
    """[(conditions, [values])] of a set or list, or None where it is not known."""
    res = []
    for f, d in alts(v):
        if d == NONE:
            res.append((tuple(f), []))
            continue
        if not isinstance(d, Doc):
            return None
        for f2, segs in cases(d.segs):
            vals = []
            for g in segs:
                if g[0] != "one":
                    return None
                vals.append(g[1] if d.kind == "set" else g[2])
            res.append((tuple(f) + tuple(f2), vals))
    return res


def possible(F, f):
    for at, p in f:
        q = quick(F, at)
        if q is not None and q != p:
            return False
    return True


def is_term(v, t, F):
    """Is the value the text of the part (None or nothing where there is none)?"""
    if v is t:
        return True
    got = list(alts(v)) if v is not None else []
    if len(got) > 1 or got and got[0][0]:
        return all(is_term(x, t, {**F, **dict(f)}) for f, x in got if possible(F, f))
    if isinstance(v, Const) and not v.v:
        return quick(F, truthy(t)) is False
    if isinstance(v, Sym) and v.op == "or" and v.args[0] is t:
        return True
    return False


def c16(a):
    r0, r1, r2, r3, r4, r5, r6 = ("parts-in-place", "every-part", "own-handle-and-label", "own-properties", "direction", "looked-up", "own-criteria")
    a.rules[r0] = "Every text the pattern regex can match has handle, label or name and properties of each part between the marks of its own groups, and the parts in the order in which they are written."
    a.rules[r1] = "On every path each node and relationship is in the result if its part of the pattern is there, and only then."
    a.rules[r2] = "Handle and label or name are the groups of that part."
    a.rules[r3] = "The properties derive from the property text of that part and of no other."
    a.rules[r4] = "A relationship is on the node from which its arrow points, by the language of the arrow texts possible on that path."
    a.rules[r5] = "The set of labels has the label of every node there is, the set of names the name of every relationship that has one, and nothing else."
    a.rules[r6] = "With criteria for the handle of one part, that part and no other gets their conditions, beside its own properties."
    g, finds = parsed_finds(a)
    where = PROCESS.rsplit(".", 1)[-1]
    place.in_place(a, r0, finds[0][2].T, place.ORDER, PARSE.rsplit(".", 1)[-1])
    n = 0
    seen = set()
    for s, x, f in finds:
        for s2, pre in process(a, s, x, NONE):
            n += 1
            check_parts(a, s2, f, pre, where, (r1, r2, r3, r4, r5))
    if not n:
        a.bad(r1, where, "no FIND gets through")
    s, x, f = finds[0]
    criteria(a, s, x, f, r6, where)


def check_parts(a, s, f, pre, where, rules):
    r1, r2, r3, r4, r5 = rules
    F = s.facts
    if not isinstance(pre.doc, Doc):
        a.und(r1, where, "the result is not understood: " + short(pre.doc))
        return
    rels = {}
    what = " ".join(n for n in NODES + tuple(RELS) if f.present(n, F)) or "nothing"
    for n in NODES:
        p = f.present(n, F)
        d = pre.nodes[n]
        if isinstance(d, Phi):
            a.und(r1, where, f"the {words(n)} is {short(d)}")
            continue
        if p is True and d == NONE:
            a.bad(r1, where, f"the {words(n)} of a pattern of {what} is dropped", s)
        elif p is False and d != NONE:
            a.bad(r1, where, f"there is a {words(n)} although the pattern has none", s)
        elif p is None and n != "left_node":
            a.und(r1, where, f"whether the pattern has a {words(n)} is not known")
        else:
            a.ok(r1, f"{n}: {what}")
        if d == NONE or d is None:
            continue
        if not isinstance(d, Doc):
            a.und(r1, where, f"the {words(n)} is {short(d)}")
            continue
        for fld, part in (("node_label", "label"), ("node_handle", "handle")):
            own(a, r2, where, f, n, part, get(d, fld), F, s)
        props(a, r3, where, f, n, get(d, "props_dict_yes"), F, s)
        extra(a, r3, where, n, get(d, "props_dict_no"))
        rl = content(get(d, "relationships")) if get(d, "relationships") is not None else []
        if rl is None:
            a.und(r1, where, f"the relationships of the {words(n)} are not understood")
            continue
        for fs, vals in rl:
            if not possible(F, fs):
                continue
            if fs and len(rl) > 1:
                a.und(r1, where, f"the relationships of the {words(n)} are not the same on one path")
            for v in vals:
                who = [m for m in RELS if get(v, "rel_name") is f.T[m + "_label"] or get(v, "rel_handle") is f.T[m + "_handle"]]
                if len(who) != 1:
                    m = None
                    for m in RELS:
                        if m + "_props" in f.owners(get(v, "props_dict_yes") or NONE):
                            who = [m]
                if len(who) == 1:
                    rels.setdefault(who[0], []).append((n, v))
                elif len(who) > 1:
                    a.bad(r2, where, "a relationship has the handle of one and the name of another", s)
                else:
                    a.und(r2, where, "a relationship of no known part: " + short(v))
    for m, (l, r) in RELS.items():
        p = f.present(m, F)
        got = rels.get(m, [])
        if p is True and len(got) != 1:
            if not any(u[0] == r1 for u in a.undecided):
                a.bad(r1, where, f"the {words(m)} of a pattern of {what} is there {len(got)} times", s)
        elif p is False and got:
            a.bad(r1, where, f"there is a {words(m)} although the pattern has none", s)
        elif p is None:
            a.und(r1, where, f"whether the pattern has a {words(m)} is not known")
        else:
            a.ok(r1, f"{m}: {what}")
        for n, v in got:
            own(a, r2, where, f, m, "label", get(v, "rel_name"), F, s)
            own(a, r2, where, f, m, "handle", get(v, "rel_handle"), F, s)
            props(a, r3, where, f, m, get(v, "props_dict_yes"), F, s)
            extra(a, r3, where, m, get(v, "props_dict_no"))
            if n not in (l, r):
                a.bad(r4, where, f"the {words(m)} is put on the {words(n)}", s)
                continue
            can, unknown = directions(F, f.T[m])
            other = "rl" if n == l else "lr"
            if can is None or unknown and other in can:
                a.und(r4, where, f"direction of the {words(m)}")
            elif other in can:
                a.bad(r4, where, f"a {words(m)} whose arrow points {'left' if other == 'rl' else 'right'} is put on the {words(n)}", s)
            else:
                a.ok(r4, f"{m} on {n}")
    for fld, parts, v, noun in (("label", NODES, pre.labels, "label"), ("label", tuple(RELS), pre.names, "name")):
        got = content(v) if v is not None else None
        if got is None:
            a.und(r5, where, f"the {noun}s that are looked up are not understood: {short(v)}")
            continue
        for fs, vals in got:
            if not possible(F, fs):
                continue
            G = {**F, **dict(fs)}
            for n in parts:
                t = f.T[n + "_" + fld]
                p = f.present(n, F)
                if p is None and n == "left_node":
                    p = True
                if p and quick(G, truthy(t)) is not False and t not in vals:
                    a.bad(r5, where, f"the {noun} of the {words(n)} is not looked up", s)
                elif p:
                    a.ok(r5, f"{noun} of the {words(n)}")
                if t in vals and p is False:
                    a.bad(r5, where, f"the {noun} of a {words(n)} that is not there is looked up", s)
                if t in vals and n in RELS and p and can_be_empty(G, t):
                    a.bad(r5, where, "a name is looked up for a relationship without one", s)
            for x in vals:
                if not any(x is f.T[n + "_" + fld] for n in parts):
                    if isinstance(x, Sym) and has_op(x, ("unk",)):
                        a.und(r5, where, f"{short(x)} is looked up as a {noun}")
                    else:
                        a.bad(r5, where, f"{short(x)} is looked up as a {noun}", s)


def can_be_empty(G, t):
    q = quick(G, truthy(t))
    if q is not None:
        return not q
    try:
        lang, unknown = strlang.lang_of_facts(G, t)
        return not unknown and rx.witness(rx.AND(lang, rx.pattern("", 0).nfa()), limit=100000) is not None
    except rx.Unsupported:
        return False


def own(a, rule, where, f, n, part, v, F, s):
    t = f.T[f"{n}_{part}"]
    if is_term(v, t, F):
        a.ok(rule, f"{part} of the {words(n)}")
        return
    if v is not None and has_op(v, ("unk",)):
        a.und(rule, where, f"the {part} of the {words(n)} is {short(v)}")
        return
    o = sorted(f.owners(v)) if isinstance(v, Val) else []
    if o == [f"{n}_{part}"]:
        a.und(rule, where, f"the {part} of the {words(n)} is {short(v)}")
    else:
        a.bad(rule, where, f"the {part} of the {words(n)} is taken from {', '.join(o) or short(v)}", s)


def props(a, rule, where, f, n, v, F, s):
    t = f.T[n + "_props"]
    if v is None:
        a.bad(rule, where, f"the {words(n)} has no properties", s)
        return
    for g, x in alts(v):
        G = {**F, **dict(g)}
        o = {y for y in f.owners(x) if y.endswith("props")}
        if o == {n + "_props"}:
            a.ok(rule, f"properties of the {words(n)}")
        elif o:
            a.bad(rule, where, f"the properties of the {words(n)} are made from {', '.join(sorted(o))}", s)
        elif x == NONE or isinstance(x, Doc) and not x.segs:
            if quick(G, truthy(t)) is True and not any(at.op == "returns" for at in G):
                a.bad(rule, where, f"the properties of the {words(n)} are dropped", s)
            else:
                a.ok(rule, f"{words(n)} without properties")
        else:
            a.und(rule, where, f"the properties of the {words(n)} are {short(x)}")


def extra(a, rule, where, n, v):
    if v is None or v == NONE or isinstance(v, Doc) and not v.segs:
        return
    if has_op(v, ("unk",)):
        a.und(rule, where, f"what the {words(n)} must not have is {short(v)}")
    else:
        a.bad(rule, where, f"the {words(n)} must not have {short(v)}, without criteria", v)


# ------------------------------------------------------------------ criteria
def criteria(a, s, x, f, rule, where):
    ip = a.ip
    parts = NODES + tuple(RELS)
    y, n = sym("arg", "yes", typ="dict"), sym("arg", "no", typ="dict")
    for part in parts:
        for has_yes, has_no, has_props in ((1, 1, 1), (1, 0, 1), (0, 1, 0), (1, 1, 0)):
            st = s.fork()
            ok = True
            for p in parts:
                st.facts[truthy(f.T[p])] = True
                h = f.T[p + "_handle"]
                st.facts[truthy(h)] = True
                pr = f.T[p + "_props"]
                st.facts[truthy(pr)] = bool(has_props)
                if not has_props:
                    st.facts[sym("isnone", pr, typ="bool")] = True
            hs = [f.T[p + "_handle"] for p in parts]
            for i, h in enumerate(hs):
                st.facts[sym("isnone", h, typ="bool")] = False
                for h2 in hs[i + 1:]:
                    for q in (sym("eq", h, h2, typ="bool"), sym("eq", h2, h, typ="bool")):
                        st.facts[q] = False
            for p in parts:
                st.facts[sym("isnone", f.T[p], typ="bool")] = False
            yv = ip.cont(st, "dict", (("base", y),) if has_yes else ())
            nv = ip.cont(st, "dict", (("base", n),) if has_no else ())
            st.facts[truthy(y)] = True
            st.facts[truthy(n)] = True
            one = ip.alloc(st, Inst(a.fn(YESNO), {"props_dict_yes_match": yv, "props_dict_no_match": nv}))
            d = ip.cont(st, "dict", (("one", f.T[part + "_handle"], one),))
            c = a.fn(CRITERIA)
            fields = {k: sym("arg", k, typ="str") for k in c.fields}
            fields["criteria_handle_props"] = d
            crit = ip.alloc(st, Inst(c, fields))
            outs = process(a, st, x, crit)
            if not outs:
                a.und(rule, where, f"with criteria for the {words(part)} nothing gets through")
                continue
            both = [judge(a, s2, f, pre, part, y if has_yes else None, n if has_no else None, rule, where) for s2, pre in outs]
            if has_yes and has_props and not any(both):
                a.bad(rule, where, f"the criteria for the {words(part)} replace its own properties")


def judge(a, s, f, pre, part, y, n, rule, where):
    if not isinstance(pre.doc, Doc):
        a.und(rule, where, "the result is not understood")
        return True
    both = False
    found = dict(pre.nodes)
    for m in NODES:
        rl = content(get(pre.nodes[m], "relationships")) if isinstance(pre.nodes[m], Doc) else None
        for _, vals in rl or ():
            for v in vals:
                for r in RELS:
                    if get(v, "rel_handle") is f.T[r + "_handle"]:
                        found[r] = v
    for p in NODES + tuple(RELS):
        d = found.get(p)
        if not isinstance(d, Doc):
            a.und(rule, where, f"the {words(p)} is not found in the result")
            continue
        for fld, want, noun in (("props_dict_yes", y, "must"), ("props_dict_no", n, "must not")):
            v = get(d, fld)
            for g, x in list(alts(v)) if v is not None else [((), NONE)]:
                dd = deps(x)
                if has_op(x, ("unk",)):
                    a.und(rule, where, f"{fld} of the {words(p)}: {short(x)}")
                    continue
                mine = p == part and want is not None
                other = {"props_dict_yes": n, "props_dict_no": y}[fld]
                if mine and want not in dd:
                    a.bad(rule, where, f"the criteria for what the {words(p)} {noun} have do not reach it", s)
                elif not mine and want is not None and want in dd:
                    a.bad(rule, where, f"the criteria for the {words(part)} reach the {words(p)}", s)
                elif other is not None and other in dd:
                    a.bad(rule, where, f"what the {words(part)} must not have and what it must have are mixed up", s)
                else:
                    a.ok(rule, f"{words(p)}: {fld} with criteria for the {words(part)}")
                if fld == "props_dict_yes" and mine and p + "_props" in f.owners(x):
                    both = True
    return both


# ---------------------------------------------------------------------- C15
KEYS = {"label": "node_labels", "name": "relationship_names"}


def c15(a):
    r1, r2 = "only-when-nothing-matches", "goes-on"
    a.rules[r1] = "On every path on which FIND ends without a result, each label of the pattern was found not to be in the label index, or there are names and each was found not to be in the name index (or the index could not be read)."
    a.rules[r2] = "There is a path on which FIND goes on, and none that fails after a label and, where one is asked for, a name were found."
    g, finds = parsed_finds(a)
    a.ip.most_rests = 1000
    where = FIND.rsplit(".", 1)[-1]
    on = 0
    for s, x, f in finds:
        for s2, v in a.run(FIND, [x, g, NONE], st=s.fork()):
            if isinstance(v, Raise):
                if not v.cause and not v.why and any(p and at.op == "has" and index_of(at.args[0]) for at, p in s2.facts.items()):
                    a.bad(r2, a.site(v), f"{a.exc_name(s2, v)} is raised when something was found in the indexes", s2)
                continue
            for s3, y in a.ip.resolve(s2, v):
                if y != NONE:
                    on += 1
                    a.ok(r2, show(y, 1)[:20])
                else:
                    given_up(a, s3, f, r1, where)
    if not on:
        a.bad(r2, where, "FIND never goes on")


def index_of(x):
    while isinstance(x, Sym) and x.op in ("set", "list", "frozenset", "tuple"):
        x = x.args[0]
    if isinstance(x, Doc) and len(x.segs) == 1 and x.segs[0][0] == "base":
        x = x.segs[0][1]
    for k, key in KEYS.items():
        if isinstance(x, Sym) and x.op in ("at", "get") and isinstance(x.args[0], Sym) and x.args[0] == store.parsed(store.path(IDX)) and x.args[1] == const(key):
            return k
    return None


def misses(at, p):
    """What an atom that is true or not says is in neither index: {(index, term or None for all)}, None: not understood."""
    if at.op == "has" and len(at.args) == 2:
        k = index_of(at.args[0])
        if k is not None:
            return {(k, at.args[1])} if not p else set()
        return set() if isinstance(at.args[1], Const) else None
    if at.op in ("ok", "isfile"):
        return set()
    if at.op == "truth":
        k = index_of(at.args[0])
        if k is not None:
            return {(k, None)} if not p else set()
    if at.op == "exists":
        k = index_of(at.args[0])
        if k is not None:
            out = set()
            for c in at.args[1]:
                if any(x.op != "eq" for x, _ in c) or sum(q for _, q in c) != 1:
                    return None
                y = [z for x, q in c if q for z in x.args if not (isinstance(z, Sym) and z.op == "elem")]
                if len(y) != 1:
                    return None
                out.add((k, y[0]))
            return out if not p else set()
    return None


def split(s, a):
    """The conditions of a path, with its alternatives about the files apart."""
    out = [dict(s.facts)]
    for d in s.dnfs:
        if not any(a.of_files(at) for c in d for at, _ in c):
            continue
        out = [{**F, **dict(c)} for F in out for c in d if possible(F, c)]
        if len(out) > 400:
            return None
    return out


def given_up(a, s, f, rule, where):
    cs = split(s, a)
    if cs is None:
        a.und(rule, where, "given up in too many ways")
        return
    for F in cs:
        one_way(a, s, F, f, rule, where)


class Absent(set):
    def __contains__(self, t):
        return set.__contains__(self, None) or set.__contains__(self, t)


def one_way(a, s, F, f, rule, where):
    if F.get(sym("ok", sym("content", store.path(IDX), typ="str"), typ="bool")) is False:
        a.ok(rule, "the index file holds no document")
        return
    absent = {"label": Absent(), "name": Absent()}
    strange = []
    for at, p in F.items():
        if not a.of_files(at):
            continue
        m = misses(at, p)
        if m is None:
            strange.append(at)
        else:
            for k, t in m:
                absent[k].add(t)
    labels = [f.T[n + "_label"] for n in NODES if f.present(n, F) or n == "left_node"]
    unsure = [n for n in NODES + tuple(RELS) if f.present(n, F) is None and n != "left_node"]
    named = [(n, f.T[n + "_label"]) for n in RELS if f.present(n, F)]
    what = " ".join(n for n in NODES + tuple(RELS) if f.present(n, F)) or "left_node"
    if all(t in absent["label"] for t in labels):
        a.ok(rule, f"no label: {what}")
        return
    names = [t for n, t in named if quick(F, truthy(t)) is not False]
    sure = [t for t in names if quick(F, truthy(t)) is True]
    if sure and all(t in absent["name"] for t in names):
        a.ok(rule, f"no name: {what}")
        return
    if strange or unsure:
        a.und(rule, where, f"given up when {short(strange[0]) if strange else 'something that is not known holds'}")
        return
    miss = [n for n in NODES if f.T[n + "_label"] in labels and f.T[n + "_label"] not in absent["label"]]
    left = [n for n, t in named if t in names and t not in absent["name"]]
    msg = f"a pattern of {what} is given up although the label of the {words(miss[0])} can be in the label index"
    if left:
        msg += f" and the name of the {words(left[0])} in the name index"
    elif not sure:
        msg += " and it may ask for no name"
    a.bad(rule, where, msg, s)
