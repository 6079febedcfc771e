"""Rules about MAKE: what a query text becomes in the three files."""
from .. import rx, strlang
from ..ana import *
from ..state import assume_all, quick, truthy
from . import store

PARSE = "wiggle_query_language.clauses.make.parse_make.parse_make_statement.parse_make_statement_from_query_string"
MAKE = "wiggle_query_language.clauses.make.make.make"
NODES = ("left_node", "middle_node", "right_node")
RELS = {"left_middle_rel": ("left_node", "middle_node"), "middle_right_rel": ("middle_node", "right_node")}


class Run:
    """One way a MAKE completes."""

    def __init__(self, a, parsed, s, v):
        self.a, self.parsed, self.s, self.v = a, parsed, s, v
        self.sites = {}
        for e, _ in flat_effects(s.effects):
            if e[0] == "write":
                self.sites[e[1]] = fmt_site(e[-1])

    def file(self, role):
        """(text in the file at the end or None if unchanged, where it was written)"""
        p = store.path(role)
        c = self.s.files.get(p)
        if c is None or c == ("clean", sym("content", p, typ="str")):
            return None, "?"
        return (c[1] if c[0] == "clean" else False), self.sites.get(p, "?")


def runs(a, later=False):
    """Parse and execute MAKE from any query text -> [Run], raises.

    later: with anything in what the process was seen to keep."""
    key = "make later" if later else "make"
    if key in a._q:
        return a._q[key]
    st, g = a.gdb()
    if later:
        a.leftovers(st)
    else:
        a._q["st0"] = st.fork()
    good, bad = [], []
    for s, v in a.run(PARSE, [a.Q], st=st):
        if isinstance(v, Raise):
            bad.append((s, v))
            continue
        if v == NONE:
            continue
        d = a.ip.lib.freeze(s, v)
        for s2, v2 in a.run(MAKE, [v, g], st=s):
            if isinstance(v2, Raise):
                bad.append((s2, v2))
            else:
                good.append(Run(a, d, s2, v2))
    a._q[key] = good, bad
    return good, bad


# ------------------------------------------------------------------ reading documents
def leafs(segs, path=()):
    """The innermost cases of nested loops -> (path of (source, facts, partial), segments that are no loops)."""
    plain = [s for s in segs if s[0] not in ("star", "alt", "perm")]
    loops = [s for s in segs if s[0] in ("star", "alt", "perm")]
    if plain or not loops:
        yield path, plain
    for s in loops:
        if s[0] == "star":
            for f, x in s[2]:
                yield from leafs(x, path + ((s[1], f, s[3]),))
        elif s[0] == "alt":
            for f, x in s[1]:
                yield from leafs(x, path + ((None, f, False),))
        else:
            yield from leafs(s[2], path)


def alts(v):
    """The values a value may be, each with its condition."""
    if isinstance(v, Phi):
        for f, x in v.alts:
            for g, y in alts(x):
                yield f | g, y
    else:
        yield frozenset(), v


def get(d, key):
    """Value of a constant key of a document (the last one given); None if it has none."""
    got = None
    if not isinstance(d, Doc):
        return None
    for s in d.segs:
        if s[0] in ("one", "upd", "kid") and isinstance(s[1], Const) and s[1].v == key:
            got = s[2]
        elif s[0] == "del" and isinstance(s[1], Const) and s[1].v == key:
            got = None
    return got


class Fields:
    """The fields of a parsed pattern: name -> term, and the loops they come from."""

    def __init__(self, doc):
        self.T = {}
        self.src = None  # the statements
        self.psrc = None  # the patterns of a statement
        self.ok = False
        self.cache = {}
        for path, segs in leafs(doc.segs):
            for s in segs:
                m = s[2] if len(s) > 2 else None
                lst = get(m, "parsed_pattern_list")
                if not isinstance(lst, Doc):
                    continue
                for p2, segs2 in leafs(lst.segs):
                    for t in segs2:
                        if len(t) > 2 and isinstance(t[2], Doc):
                            for y in t[2].segs:
                                if y[0] == "one" and isinstance(y[1], Const):
                                    self.T.setdefault(y[1].v, y[2])
                            self.psrc = p2[-1][0] if p2 else None
                            self.src = path[-1][0] if path else None
        self.ok = self.src is not None and self.psrc is not None and all(n in self.T for n in NODES + tuple(RELS))

    def present(self, name, F):
        c = self.cache.get(id(F))
        if c is None:
            G = dict(F)
            got = {}
            more = True
            while more:
                more = False
                for n in NODES + tuple(RELS):
                    if got.get(n) is None:
                        at = truthy(self.T[n])
                        got[n] = quick(G, at)
                        if got[n] is not None and at not in G:
                            G[at] = got[n]
                            more = True
            c = self.cache[id(F)] = (F, got)
        return c[1][name]

    def owners(self, v):
        """The parts of the pattern a value was made from."""
        d = deps(v)
        return {n for n, t in self.T.items() if isinstance(t, Sym) and t in d}


def fields(a, r):
    f = Fields(r.parsed) if isinstance(r.parsed, Doc) else None
    if f is None or not f.ok:
        raise Undecided("the parsed statements are not a list of patterns that can be followed")
    return f


def facts_of(path, r=None, extra=()):
    F = dict(r.s.facts) if r is not None else {}
    for _, f, _ in path:
        for at, p in f:
            F[at] = p
    for at, p in extra:
        F[at] = p
    return F


class Item:
    """What is stored for one key of the database."""

    def __init__(self, key, doc, path, F):
        self.key, self.doc, self.path, self.F = key, doc, path, F
        self.wn = get(get(doc, "node_metadata"), "wn")
        self.label = get(doc, "node_label")
        self.props = get(doc, "properties")
        self.rels = []
        rl = get(doc, "relations")
        self.rels_ok = True
        for f, v in alts(rl) if rl is not None else ():
            if f:
                self.rels_ok = False
            if isinstance(v, Doc):
                for p2, segs in leafs(v.segs):
                    if p2:
                        self.rels_ok = False
                    for s in segs:
                        d = s[2] if len(s) > 2 else None
                        if s[0] == "one" and isinstance(d, Doc):
                            self.rels.append(Rel(d))
                        else:
                            self.rels_ok = False
            elif v != NONE:
                self.rels_ok = False


class Rel:
    def __init__(self, d):
        self.doc = d
        self.wn = get(get(d, "relationship_metadata"), "wn")
        self.name = get(d, "relationship_name")
        self.src = get(d, "wn_from_node")
        self.dst = get(d, "wn_to_node")
        self.props = get(d, "properties")


class Stored:
    """The database document of a run, as cases of one pattern."""

    def __init__(self, a, r):
        self.a, self.r = a, r
        self.f = fields(a, r)
        t, self.site = r.file(DB)
        self.text = t
        self.cases = []  # (path, F, items, others)
        self.base = False
        self.doc = store.json_doc(t) if isinstance(t, Val) else None
        if not isinstance(self.doc, Doc):
            return
        base = store.parsed(store.path(DB))
        for path, segs in leafs(self.doc.segs):
            items, others = [], []
            F = facts_of(path, r)
            for s in segs:
                if s == ("base", base):
                    self.base = True
                elif s[0] in ("one", "upd") and isinstance(s[2], Doc):
                    items.append(Item(s[1], s[2], path, F))
                else:
                    others.append(s)
            if path or items or others:
                self.cases.append((path, F, items, others))
        self.cases = [c for c in self.cases if not taken_again(a, c[1])]

    def steps(self, name):
        """Cases that differ in more than what is known of the number being new."""
        return self.cases


def of_this_run(a, seg):
    """Does the container at the start of an iteration hold only what earlier iterations put there?"""
    if seg[0] != "prev":
        return False
    segs = a.ip.contfrom.get((seg[1], seg[2]))
    return segs is not None and all(s[0] == "prev" and of_this_run(a, s) for s in segs)


def taken_again(a, F):
    """Is the case one in which a number of this run was used before in this run?  (Not possible: rule `numbers-unique`.)"""
    for at, p in F.items():
        if p and at.op == "has" and isinstance(at.args[0], Doc) and all(of_this_run(a, s) for s in at.args[0].segs):
            k = at.args[1]
            if isinstance(k, Sym) and k.op == "str" and counter_of(k.args[0]) is not None:
                return True
    return False


def counter_of(t):
    """(the loop variable a number is counted from, distance) or None."""
    b, off = base_off(t)
    if isinstance(b, Sym) and b.op == "head":
        return b, off
    return None


def stored(a, later=False):
    good, _ = runs(a, later)
    if not good:
        raise Undecided("no MAKE completes")
    out = []
    for r in good:
        k = ("stored", id(r))
        if k not in a._q:
            a._q[k] = Stored(a, r)
        out.append(a._q[k])
    return out


def desc(f, F):
    return " ".join(n for n in NODES + tuple(RELS) if f.present(n, F)) or "nothing"


# -------------------------------------------------------------------- C02
def source_ok(a, rule, S, path, what, multiple=True):
    """Are the loops over all statements of the query and all patterns of each?"""
    f = S.f
    srcs = [s for s, _, _ in path if s is not None]
    for s, _, partial in path:
        if partial:
            a.bad(rule, S.site, f"{what}: the loop over {short(s)} can end before the last one", S.r.s)
            return False
        if isinstance(partial, Distinct) and multiple:
            for k in partial:
                c = k.args[0] if isinstance(k, Sym) and k.op == "str" else k
                if counter_of(c) is None and not has_op(k, ("mstart", "mend", "idx")):
                    if has_op(k, ("unk", "head", "out")):
                        a.und(rule, S.site, f"{what}: equal {short(k)} are taken once")
                    else:
                        a.bad(rule, S.site, f"{what}: of several with the same {short(k)} only one is taken", S.r.s)
                    return False
    if srcs[:2] == [f.src, f.psrc] and len(srcs) == 2:
        return True
    for s in srcs:
        if isinstance(s, Sym) and s.op in ("slice", "nth", "head") and (f.src in deps(s) or f.psrc in deps(s)):
            a.bad(rule, S.site, f"{what}: only a part of the patterns is looped over: {short(s)}", s)
            return False
    a.und(rule, S.site, f"{what}: loops over {[short(s) for s in srcs]}")
    return False


def short(x):
    return show(x, 2)[:80]


def statements_source(a, rule, S):
    """The statements are those found in the query itself, the patterns those found in the statement itself."""
    f = S.f
    where = f"{PARSE.rsplit('.', 1)[-1]}"
    ok = isinstance(f.src, Sym) and f.src.op == "finditer" and f.src.args[1] is a.Q
    if not ok:
        if isinstance(f.src, Sym) and f.src.op in ("slice", "nth", "head"):
            a.bad(rule, where, "only a part of the statements found is used: " + short(f.src), f.src)
        else:
            a.und(rule, where, "the statements come from " + short(f.src))
        return False
    ok = isinstance(f.psrc, Sym) and f.psrc.op == "finditer"
    if ok:
        t = f.psrc.args[1]
        ok = isinstance(t, Sym) and t.op == "group" and isinstance(t.args[0], Sym) and t.args[0].op == "elem" and t.args[0].args[0] is f.src
    if not ok:
        if isinstance(f.psrc, Sym) and f.psrc.op in ("slice", "nth", "head"):
            a.bad(rule, where, "only a part of the patterns found is used: " + short(f.psrc), f.psrc)
        else:
            a.und(rule, where, "the patterns come from " + short(f.psrc))
        return False
    a.ok(rule, "statements are the matches in the query, patterns the matches in the statement")
    return True


def c02(a):
    r1, r2, r3, r4 = "every-node-once", "own-label", "own-properties", "nothing-else"
    a.rules[r1] = "In every case of the loops over the statements and patterns of a query, each node the pattern has is stored under exactly one key."
    a.rules[r2] = "The label stored under a key is the label group of one node of the pattern; the key is the number in the stored metadata."
    a.rules[r3] = "The properties stored with a node derive from the property text of that node and of no other."
    a.rules[r4] = "The database document written is the loaded one with those entries and no others."
    in_place(a, "parts-in-place", NODES)
    for S in stored(a):
        f = S.f
        statements_source(a, r1, S)
        if S.text is None:
            a.bad(r1, S.site if S.site != "?" else MAKE.rsplit(".", 1)[-1], "a MAKE completes without writing the database", S.r.s)
            continue
        if not isinstance(S.doc, Doc):
            a.und(r1, S.site, "the text written is not understood: " + short(S.text))
            continue
        if not S.base:
            a.und(r4, S.site, "what was in the database is not in the document in a known way")
        # the place (loop) in which a node is stored
        home = {}
        for path, F, items, others in S.cases:
            for it in items:
                for n in owner(f, it):
                    home.setdefault(n, set()).add(tuple(s for s, _, _ in path))
        for n in NODES:
            if n not in home:
                if any(o for _, _, _, o in S.cases) or any(not owner(f, it) for _, _, its, _ in S.cases for it in its):
                    a.und(r1, S.site, f"{n} is not found among what is stored")
                else:
                    a.bad(r1, S.site, f"the {words(n)} of a pattern is never stored", S.doc)
        for path, F, items, others in S.cases:
            if not source_ok(a, r1, S, path, "storing nodes"):
                continue
            for o in others:
                a.und(r4, S.site, f"stored in a way that is not understood: {o[0]}")
            count = dict.fromkeys(NODES, 0)
            for it in items:
                own = owner(f, it)
                if len(own) != 1:
                    if it.label is not None and not (deps(it.label) & set(f.T.values())) and not has_op(it.label, ("unk",)):
                        a.bad(r2, S.site, f"label {short(it.label)} is stored, which is no label of the pattern", it.label)
                    else:
                        a.und(r2, S.site, "label " + short(it.label))
                    continue
                n = own[0]
                count[n] += 1
                alt = altered(it.label, F)
                if alt is None:
                    a.ok(r2, f"{n} label")
                elif alt is False:
                    a.und(r2, S.site, "label " + short(it.label))
                else:
                    a.bad(r2, S.site, f"the label {alt!r} of the {words(n)} is not stored as written", it.label)
                if isinstance(it.key, Sym) and it.key.op == "str" and it.wn is it.key.args[0]:
                    a.ok(r2, f"{n} key is its number")
                elif it.wn is not None and isinstance(it.key, Sym) and it.key.op == "str":
                    x, y = counter_of(it.key.args[0]), counter_of(it.wn)
                    if x and y:
                        a.bad(r2, S.site, f"the {words(n)} is stored under {short(it.key)} but its number is {short(it.wn)}", it.doc)
                    else:
                        a.und(r2, S.site, f"key {short(it.key)}, number {short(it.wn)}")
                else:
                    a.und(r2, S.site, f"key {short(it.key)}, number {short(it.wn)}")
                own_props(a, r3, S, f, n, n + "_props", it.props, F)
            keys = [it.key for it in items]
            if len(set(keys)) < len(keys):
                a.bad(r1, S.site, f"two nodes of a pattern ({desc(f, F)}) are stored under the same key", S.doc)
            for n in NODES:
                if tuple(s for s, _, _ in path) not in home.get(n, ()):
                    continue
                p = f.present(n, F)
                if p is True:
                    a.need(count[n] == 1, r1, f"{n}: {desc(f, F)}", S.site,
                           f"the {words(n)} of a pattern of {desc(f, F)} is stored {count[n]} times", S.doc)
                elif p is False:
                    a.need(count[n] == 0, r4, f"{n} absent: {desc(f, F)}", S.site, f"a {words(n)} is stored although the pattern has none", S.doc)
                elif count[n] == 0 and n == "left_node" and quick(F, truthy(sym("group", sym("elem", f.psrc), 0))) is not False and not empty_match(f, F):
                    a.bad(r1, S.site, "the left node of a pattern is not stored on some path", S.doc)
                elif count[n] and p is None:
                    a.und(r1, S.site, f"the {words(n)} is stored without its being known to be there")
                elif not count[n] and not empty_match(f, F):
                    a.und(r1, S.site, f"the {words(n)} is not stored and not known to be absent")


def empty_match(f, F):
    """The case is that of a match of nothing."""
    for at, p in F.items():
        if at.op == "truth" and not p:
            x = at.args[0]
            if isinstance(x, Sym) and x.op == "group" and x.args[1] == 0 and isinstance(x.args[0], Sym) and x.args[0].op == "elem" and x.args[0].args[0] is f.psrc:
                return True
    return False


def owner(f, it):
    """The nodes of the pattern whose label is stored."""
    x = it.label if isinstance(it.label, Val) else NONE
    r = uncut(x)
    return [n for n in NODES if r is f.T[n + "_label"]]


def uncut(x):
    """The text a name is made from by operations that may leave it as it is."""
    from .values import chain
    if isinstance(x, Sym) and x.op == "str" and len(x.args) == 1:
        x = x.args[0]
    return chain(x)[0]


def altered(x, F):
    """Is the text a name is made from always taken as it is? -> None or a text that is changed; False if not known"""
    from .values import chain, changed
    root, ops = chain(x)
    if not ops:
        return None
    try:
        if strlang.base_lang(root) is None:
            return False
        lang, unknown = strlang.lang_of_facts(F, root)
        ws = [rx.witness(rx.AND(lang, changed(o))) for o in ops]
    except Exception:
        return False
    if all(w is None for w in ws):
        return None
    return ws[0] if ws[0] is not None and not unknown and ops[0][0] != "upper" else False


def words(n):
    return n.replace("_rel", " relationship").replace("_", " ")


def own_props(a, rule, S, f, n, field, v, F):
    """Are the stored properties made from this part's property text?"""
    t = f.T.get(field)
    for g, x in alts(v):
        G = dict(F)
        G.update(dict(g))
        own = {o for o in f.owners(x) if o.endswith("props")}
        if x == NONE or isinstance(x, Doc) and not x.segs:
            if quick(G, truthy(t)) is False:
                a.ok(rule, f"{n} without properties")
            elif any(at.op == "returns" for at, _ in g) or quick(G, truthy(t)) is None:
                a.ok(rule, f"{n} without properties")
            else:
                a.bad(rule, S.site, f"the properties of the {words(n)} are not stored although it has some", S.doc)
        elif own == {field}:
            a.ok(rule, f"{n} properties")
        elif own:
            a.bad(rule, S.site, f"the properties stored with the {words(n)} are made from {', '.join(sorted(own))}", x)
        elif v is None:
            a.bad(rule, S.site, f"no properties are stored with the {words(n)}", S.doc)
        else:
            a.und(rule, S.site, f"properties of the {words(n)}: {short(x)}")


def in_place(a, rule, parts):
    from . import place
    a.rules[rule] = "Every text the pattern regex can match has handle, label or name and properties of each part between the marks of its own groups, and the parts in the order in which they are written."
    for S in stored(a):
        if not isinstance(S.f.psrc, Sym):
            continue
        place.in_place(a, rule, S.f.T, parts, PARSE.rsplit(".", 1)[-1])
        return


# -------------------------------------------------------------------- C03
ARROW_R = rx.concat(rx.any_star(), rx.lit(">"), rx.cls(rx.SPACE, "*"))
ARROW_L = rx.concat(rx.cls(rx.SPACE, "*"), rx.lit("<"), rx.any_star())


def directions(F, t):
    """Which ways the text of a relationship can point in a case -> set of 'lr', 'rl' (None: not decided)."""
    try:
        l, unknown = strlang.lang_of_facts(F, t)
        out = set()
        if rx.witness(rx.AND(l, rx.AND(rx.L(ARROW_R), rx.NOT(rx.L(ARROW_L)))), limit=100000) is not None:
            out.add("lr")
        if rx.witness(rx.AND(l, rx.AND(rx.L(ARROW_L), rx.NOT(rx.L(ARROW_R)))), limit=100000) is not None:
            out.add("rl")
        return out, bool(unknown)
    except rx.Unsupported:
        return None, True


def c03(a):
    r1, r2, r3, r4 = "every-relationship-once", "joins-its-nodes", "own-name-and-properties", "on-the-node-it-starts-from"
    a.rules[r1] = "In every case of the loops over statements and patterns, each relationship the pattern has is stored exactly once."
    a.rules[r2] = "The numbers stored as ends are those of the two nodes beside it; from and to follow the language of the arrow texts possible in that case."
    a.rules[r3] = "Name and properties derive from the texts of that relationship and of no other."
    a.rules[r4] = "The entry it is stored in has the number it starts from as its key."
    in_place(a, "parts-in-place", tuple(RELS))
    for S in stored(a):
        f = S.f
        if not isinstance(S.doc, Doc):
            a.und(r1, S.site, "the text written is not understood")
            continue
        for path, F, items, others in S.cases:
            if not source_ok(a, r1, S, path, "storing relationships"):
                continue
            wn = {}
            for it in items:
                for n in owner(f, it):
                    wn[n] = it.wn
            where = {}
            if any(not it.rels_ok for it in items):
                a.und(r1, S.site, "the relationships of a node are not a list that can be followed")
                continue
            for it in items:
                for rel in it.rels:
                    who = rel_owner(f, rel, F)
                    if who is None:
                        if rel.name is not None and not has_op(rel.doc, ("unk",)):
                            o = {x for x in f.owners(rel.name)} | {x for x in f.owners(rel.props or NONE)}
                            a.bad(r3, S.site, f"a relationship is stored with the name of {words_of(f, rel.name)} and the properties of {words_of(f, rel.props)}", rel.doc)
                        else:
                            a.und(r3, S.site, "relationship " + short(rel.name))
                        continue
                    where.setdefault(who, []).append((it, rel))
            for n, (x, y) in RELS.items():
                p = f.present(n, F)
                got = where.get(n, [])
                if p is True:
                    a.need(len(got) == 1, r1, f"{n}: {desc(f, F)}", S.site,
                           f"the {words(n)} of a pattern of {desc(f, F)} is stored {len(got)} times", S.doc)
                elif p is False:
                    a.need(len(got) == 0, r1, f"{n} absent: {desc(f, F)}", S.site, f"a {words(n)} is stored although the pattern has none", S.doc)
                elif got:
                    a.und(r1, S.site, f"the {words(n)} is stored without its being known to be there")
                elif not empty_match(f, F):
                    ends_known = f.present(y, F)
                    if ends_known is not False:
                        a.und(r1, S.site, f"the {words(n)} is not stored and not known to be absent")
                for it, rel in got:
                    own_props(a, r3, S, f, n, n + "_props", rel.props, F)
                    alt = altered(rel.name, F)
                    if alt is False:
                        a.und(r3, S.site, "name " + short(rel.name))
                    elif alt is not None:
                        a.bad(r3, S.site, f"the name {alt!r} of the {words(n)} is not stored as written", rel.name)
                    if x not in wn or y not in wn:
                        a.und(r2, S.site, "the nodes beside the relationship are not found")
                        continue
                    ways = {(wn[x], wn[y]): "lr", (wn[y], wn[x]): "rl"}
                    way = ways.get((rel.src, rel.dst))
                    if way is None:
                        if counter_of(rel.src) and counter_of(rel.dst):
                            a.bad(r2, S.site, f"the {words(n)} of {desc(f, F)} is stored from {short(rel.src)} to {short(rel.dst)}, its nodes are "
                                  f"{short(wn[x])} and {short(wn[y])}", rel.doc)
                        else:
                            a.und(r2, S.site, f"from {short(rel.src)} to {short(rel.dst)}")
                        continue
                    can, unknown = directions(F, f.T[n])
                    other = "rl" if way == "lr" else "lr"
                    if can is None:
                        a.und(r2, S.site, f"direction of the {words(n)}")
                    elif other in can:
                        if unknown:
                            a.und(r2, S.site, f"direction of the {words(n)}")
                        else:
                            a.bad(r2, S.site, f"a {words(n)} whose arrow points {'left' if other == 'rl' else 'right'} is stored as pointing the other way", rel.doc)
                    else:
                        a.ok(r2, f"{n} {way}: {desc(f, F)}")
                    a.need(it.wn is rel.src, r4, f"{n} {way}", S.site,
                           f"the {words(n)} that starts at {short(rel.src)} is stored on node {short(it.wn)}", S.doc)


def words_of(f, v):
    o = sorted(f.owners(v)) if isinstance(v, Val) else []
    return ", ".join(o) or "nothing in the pattern"


def rel_owner(f, rel, F):
    """The relationship of the pattern a stored one is."""
    c = []
    for n in RELS:
        t = f.T[n + "_label"]
        if rel.name is t or isinstance(rel.name, Val) and uncut(rel.name) is t:
            return n
        if isinstance(rel.name, Const) and not rel.name.v and quick(F, truthy(t)) is False:
            c.append(n)
    for n in c:
        if n + "_props" in f.owners(rel.props if rel.props is not None else NONE):
            return n
    return c[0] if len(c) == 1 else None


# -------------------------------------------------------------------- C01
def c01(a):
    r1, r2, r3, r4 = "numbers-distinct", "numbers-counted", "counter-from-file", "counter-stored"
    a.rules[r1] = "All numbers given in one pattern are different distances from the counter at the start of that pattern."
    a.rules[r2] = ("Each number is below the counter at the end of the pattern: in every case of the counting loop that is compatible with the case "
                   "stored, the step is larger than every distance used, and the inner loop starts where the outer one is.")
    a.rules[r3] = "The counter starts at the number read from the counter file."
    a.rules[r4] = "What is written to the counter file is the counter after the last pattern (never less than what was read)."
    info = a.ip.loopinfo
    for S in stored(a):
        if not isinstance(S.doc, Doc):
            a.und(r1, S.site, "the text written is not understood")
            continue
        t, site = S.r.file(WN)
        if t is None:
            a.bad(r4, MAKE.rsplit(".", 1)[-1], "a MAKE completes without writing the counter", S.r.s)
            continue
        if not (isinstance(t, Sym) and t.op in ("str", "jsonof")):
            a.und(r4, site, "the counter written is not understood: " + short(t))
            continue
        final, off = base_off(t.args[0])
        used = heads(a, S)
        chain = count_chain(a, info, final, off, r3, r4, site, S)
        if chain is None:
            continue
        a.ok(r4, f"{site}: counter after the loops {short(final)}")
        for path, F, items, others in S.cases:
            nums = []
            for it in items:
                nums.append(("node", it.wn))
                nums.extend(("relationship", r.wn) for r in it.rels)
            offs = {}
            for k, t in nums:
                c = counter_of(t) if t is not None else None
                if c is None:
                    if t is not None and not has_op(t, ("unk",)) and base_off(t)[0] is not None and path and not loop_variant(t, path):
                        a.bad(r1, S.site, f"a {k} of every pattern gets the same number {short(t)}", t)
                    else:
                        a.und(r1, S.site, f"number of a {k}: {short(t)}")
                    continue
                h, o = c
                lid = h.args[0]
                li = info.get((lid, h.args[1]))
                if h not in chain or li is None:
                    a.und(r1, S.site, f"number of a {k}: {short(t)}")
                    continue
                srcs = [s for s, _, _ in path if s is not None]
                if not same_loop(li[0], srcs[-1] if srcs else None, S.f):
                    if any(same_loop(li[0], s, S.f) for s in srcs[:-1]):
                        a.bad(r1, S.site, f"a {k} of every pattern of a statement gets the same number {short(t)}", t)
                    else:
                        a.und(r1, S.site, f"number of a {k} counted in another loop: {short(li[0])}")
                    continue
                if (h, o) in offs:
                    a.bad(r1, S.site, f"two items of one pattern ({desc(S.f, F)}) get the same number {short(t)}", t)
                elif o < 0:
                    a.bad(r1, S.site, f"a {k} gets the number {short(t)}, below the counter", t)
                else:
                    a.ok(r1, f"{k} {o}: {desc(S.f, F)}")
                offs[h, o] = k
                fits = 0
                for facts, v in li[2]:
                    if not compatible(F, facts):
                        continue
                    fits += 1
                    b, step = base_off(v)
                    if b is h:
                        a.need(step > o, r2, f"{o} < {step}: {desc(S.f, F)}", S.site,
                               f"the counter goes on by {step} for a pattern of {desc(S.f, F)} although its {k} has the number counter+{o}", v)
                    else:
                        a.und(r2, S.site, "step " + short(v))
                if not fits:
                    a.und(r2, S.site, f"no case of the counting loop fits {desc(S.f, F)}")


def heads(a, S):
    out = set()
    for _, _, items, _ in S.cases:
        for it in items:
            for t in [it.wn] + [r.wn for r in it.rels]:
                c = counter_of(t) if t is not None else None
                if c:
                    out.add(c[0])
    return out


def loop_variant(t, path):
    srcs = {s for s, _, _ in path}
    return any(d.op in ("elem", "idx", "at", "head", "out", "mid") for d in deps(t)) or any(s in deps(t) for s in srcs if isinstance(s, Sym))


def same_loop(s1, s2, f):
    return s1 is s2


def compatible(F, facts):
    for at, p in facts:
        q = quick(F, at)
        if q is not None and q != p:
            return False
    return True


def count_chain(a, info, final, off, r3, r4, site, S):
    """The loop variables the counter goes through, from the file to the file; None if it is not followed."""
    if off < 0:
        a.bad(r4, site, f"the counter written is {-off} less than the counter", final)
        return None
    start = None
    heads = []
    seen = set()

    def descend(v):
        """v: value at the end of something -> the value at its start (all steps not negative), or None"""
        b, o = base_off(v)
        if b is None:
            return v
        if isinstance(b, Sym) and b.op == "out":
            k = (b.args[0], b.args[1])
            li = info.get(k)
            if li is None or k in seen:
                a.und(r4, site, "counter " + short(v))
                return None
            seen.add(k)
            h = sym("head", *b.args, typ=b.typ)
            heads.append(h)
            for facts, nv in li[2]:
                e = descend(nv) if base_off(nv)[0] is not h else nv
                if e is None:
                    return None
                eb, eo = base_off(e)
                if eb is not h:
                    if isinstance(eb, Sym) and eb.op == "head" or eb is None:
                        a.bad(r4, site, f"in a loop over {short(li[0])} the counter is set to {short(nv)} and does not go on from what it was", nv)
                    else:
                        a.und(r4, site, "counter " + short(nv))
                    return None
                if eo < 0:
                    a.bad(r4, site, f"in a loop over {short(li[0])} the counter goes down by {-eo}", nv)
                    return None
            e = descend(li[1])
            if e is None:
                return None
            return add_int(e, max(o, 0)) if o >= 0 else None
        if isinstance(b, Sym) and b.op == "head":
            return v
        return v

    start = descend(add_int(final, off) if final is not None else None) if final is not None else None
    if final is None:
        a.bad(r4, site, f"the counter written is always {off}", S.r.s)
        return None
    if start is None:
        return None
    want = sym("content", store.path(WN), typ="str")
    good = True
    for _, x in alts(start):
        good = start_ok(a, x, want, r3, site) and good
    return heads if good else None


CUTS = {"item", "slice", "split", "rsplit", "splitlines", "partition", "rpartition", "replace", "sub", "re_split", "group", "removesuffix", "removeprefix", "nth", "elem", "float", "translate"}


def start_ok(a, start, want, r3, site):
    """Is the value the integer the whole text of the counter file stands for?"""
    b, o = base_off(start)
    if isinstance(b, Sym) and b.op == "int":
        if strip_text(b.args[0]) is want:
            if o < 0:
                a.bad(r3, site, f"counting starts {-o} below the number in the file", start)
                return False
            a.ok(r3, "starts at the number in the counter file")
            return True
        cut = sorted({x.op for x in deps(b.args[0]) if x.op in CUTS and want in deps(x)})
        if cut and want in deps(b):
            a.bad(r3, site, f"counting starts at the number in a part of the text of the counter file ({', '.join(cut)}): {short(start)}", start)
            return False
    if b is None or isinstance(b, Const) or want not in deps(start):
        a.bad(r3, site, f"counting starts at {short(start)} and not at the number in the counter file", start)
        return False
    a.und(r3, site, "counting starts at " + short(start))
    return False


def strip_text(t):
    while isinstance(t, Sym) and t.op in ("strip", "rstrip", "lstrip"):
        t = t.args[0]
    return t


# -------------------------------------------------------------------- C04
def index_parts(a, S, rule):
    """The final indexes document of a run: name -> (facts, value), or None."""
    t, site = S.r.file(IDX)
    if t is None:
        a.bad(rule, MAKE.rsplit(".", 1)[-1], "a MAKE completes without writing the indexes", S.r.s)
        return None, site
    d = store.json_doc(t) if isinstance(t, Val) else None
    parts = store.parts_of(d, store.parsed(store.path(IDX))) if isinstance(d, Doc) else None
    if parts is None:
        a.und(rule, site, "the indexes written are not understood")
    return parts, site


def kept_base(segs, old):
    """Is everything of the old list, set or dictionary taken over? -> True / False (some of it is left out) / None"""
    for s in segs:
        if s[0] == "base" and s[1] is old:
            return True
        if s[0] == "star" and s[1] is old:
            if s[3]:
                return False
            el = sym("elem", old)
            for f, x in s[2]:
                if not any(y[0] == "one" and (y[1] is not None and same(y[1], el) or len(y) > 2 and same(y[2], el)) for y in x) and not there(f, el, segs, old):
                    return False
            return True
        if s[0] == "perm":
            r = kept_base(s[2], old)
            if r is not None:
                return r
        if s[0] == "alt":
            rs = [kept_base(x, old) for _, x in s[1]]
            if rs and all(r is True for r in rs):
                return True
    return None


def same(x, y):
    return x is y or x == y or isinstance(x, Sym) and isinstance(y, Sym) and x.op == y.op and x.args == y.args


def already(f, x):
    """Do the facts say that the value is in some collection already?"""
    return any(p and at.op in ("has", "contains") and at.args[1] is x for at, p in (f.items() if isinstance(f, dict) else f)) or any(
        p and at.op == "eq" and x in at.args for at, p in (f.items() if isinstance(f, dict) else f))


def there(f, el, segs, old):
    """Is an element of the old collection that is left out under these facts put in by another part?"""
    return any(p and at.op in ("has", "contains") and at.args[1] is el for at, p in f) or any(
        p and at.op == "eq" and el in at.args and any(adds(t, n, old) for n in at.args if n is not el for t in segs) for at, p in f)


def tested_before(path):
    """Are elements added after a look at what earlier iterations added? Which of them were there is then not followed
    for every combination."""
    return any(x.op in ("has", "contains") and isinstance(x.args[0], Doc) and any(s[0] == "prev" for s in x.args[0].segs)
               for _, f, _ in path for x, _ in f)


def given_back(segs, old):
    """A number that is taken out of the old entry for being the one added, and not put in again."""
    for s in segs:
        if s[0] != "star" or s[1] is not old and s[1] != old or s[3] is True:
            continue
        el = sym("elem", old)
        for f, x in s[2]:
            eqs = [at for at, p in f if p and isinstance(at, Sym) and at.op == "eq" and any(same(y, el) for y in at.args)]
            if x or len(eqs) != 1 or any(at is not eqs[0] for at, _ in f):
                continue
            n = next(y for y in eqs[0].args if not same(y, el))
            if not any(adds(t, n, old) for t in segs):
                return n
    return None


def adds(t, n, old):
    """Can the segment put n in when the old entry has it?"""
    if t[0] == "one":
        return same(t[1], n) if t[1] is not None else len(t) > 2 and same(t[2], n)
    if t[0] == "alt":
        return any(any(adds(u, n, old) for u in x) for f, x in t[1] if not any(isinstance(at, Sym) and at.op == "has" and at.args == (old, n) and p is False for at, p in f))
    return t[0] != "star" or t[1] != old


def member(s, kind):
    """The element a plain segment adds."""
    if s[0] in ("one", "upd"):
        return s[1] if s[1] is not None and kind != "list" else s[2] if len(s) > 2 else s[1]
    return None


def c04(a):
    r1, r2, r3, r4 = "labels-indexed", "names-indexed", "old-entries-kept", "nothing-else-indexed"
    a.rules[r1] = "In every case of the loops over statements and patterns, the label of each node the pattern has is added to the label index."
    a.rules[r2] = "In every such case the name of each relationship that has one is added to the relationship-name index."
    a.rules[r3] = "Every entry the index held is in the index written, whatever it is."
    a.rules[r4] = "Only labels of the nodes and non-empty names of the relationships of the patterns are added, each to its own index."
    for S in stored(a):
        f = S.f
        parts, site = index_parts(a, S, r1)
        if parts is None:
            continue
        for name, rule, whos, suffix in (("node_labels", r1, NODES, "_label"), ("relationship_names", r2, tuple(RELS), "_label")):
            old = sym("at", store.parsed(store.path(IDX)), const(name))
            for g, v in parts.get(name, ()):
                if v is store.DROPPED:
                    a.bad(r3, site, f"the index {name} is dropped", S.r.s)
                    continue
                if v is store.KEPT:
                    # (a file that has no such index is no index file)
                    if all(quick(S.r.s.facts, sym("has", store.parsed(store.path(IDX)), const(n), typ="bool")) is not False for n in ("node_labels", "relationship_names")):
                        a.bad(rule, site, f"nothing is added to the index {name}", S.r.s)
                    continue
                if not isinstance(v, Doc) or v.kind not in ("list", "set"):
                    a.und(rule, site, f"the index {name} becomes {short(v)}")
                    continue
                olds = [d for d in deps(v) if d.op == "at" and same_at(d, old)]
                k = None
                for o in olds or [old]:
                    k = kept_base(v.segs, o)
                    if k is not None:
                        break
                if k is None and not olds and not has_op(v, ("unk",)):
                    k = False
                if k is None:
                    a.und(r3, site, f"what the index {name} held is not followed")
                else:
                    a.need(k, r3, name, site, f"not everything the index {name} held is kept", v)
                terms = {f.T[n + suffix]: n for n in whos}
                # where each is added
                home = {}
                cases = []
                for path, segs in leafs(v.segs):
                    if any(s in olds or s is old for s, _, _ in path) or not path and all(s[0] == "base" and s[1] in olds for s in segs):
                        continue
                    F = facts_of(path, S.r, g)
                    adds = []
                    for s in segs:
                        m = member(s, v.kind)
                        if m is None:
                            a.und(rule, site, f"{s[0]} in the index {name}")
                            continue
                        if m not in terms and uncut(m) in terms and not isinstance(altered(m, F), str):
                            if altered(m, F) is False:
                                a.und(r4, site, f"{short(m)} is added to the index {name}")
                            m = uncut(m)
                        if m in terms:
                            adds.append(terms[m])
                            home.setdefault(terms[m], set()).add(tuple(x for x, _, _ in path))
                        elif not has_op(m, ("unk",)) and (f.owners(m) or isinstance(m, Const)):
                            a.bad(r4, site, f"{words_of(f, m)} ({short(m)}) is added to the index {name}", m)
                        else:
                            a.und(r4, site, f"{short(m)} is added to the index {name}")
                    cases.append((path, F, adds))
                for n in whos:
                    if n not in home:
                        if has_op(v, ("unk",)):
                            a.und(rule, site, f"the {words(n)} is not found in the index {name}")
                        else:
                            a.bad(rule, site, f"the {suffix[1:]} of the {words(n)} is never added to the index {name}", v)
                for path, F, adds in cases:
                    if not source_ok(a, rule, S, path, f"adding to the index {name}", False):
                        continue
                    here = tuple(x for x, _, _ in path)
                    for n in whos:
                        t = f.T[n + suffix]
                        p = f.present(n, F)
                        named = quick(F, truthy(t))
                        if n in adds:
                            if p is False:
                                a.bad(r4, site, f"a {words(n)} is indexed although the pattern has none", v)
                            elif name == "relationship_names" and named is not True:
                                l, unknown = strlang.lang_of_facts(F, t)
                                if named is False or not unknown:
                                    a.bad(r4, site, f"the name of a {words(n)} is added to the index {name} also when it has none", v)
                                else:
                                    a.und(r4, site, f"the name of a {words(n)} may be empty")
                            else:
                                a.ok(r4, f"{n}: {desc(f, F)}")
                                a.ok(rule, f"{n}: {desc(f, F)}")
                            continue
                        if here not in home.get(n, ()) or p is False or already(F, t):
                            continue
                        if suffix == "_label" and name == "relationship_names" and named is False:
                            continue
                        if p is True and tested_before(path):
                            a.und(rule, site, f"the {words(n)} of a pattern of {desc(f, F)} is added in some cases only")
                        elif p is True:
                            a.bad(rule, site, f"the {suffix[1:]} of the {words(n)} of a pattern of {desc(f, F)} is not added to the index {name}", v)
                        elif not empty_match(f, F) and f.present(RELS[n][1] if n in RELS else n, F) is not False:
                            a.und(rule, site, f"the {words(n)} is not indexed and not known to be absent")


def same_at(d, old):
    """An entry of the indexes document read, possibly after an earlier step wrote other parts of it."""
    return d.args[1] == old.args[1] and isinstance(d.args[0], Sym) and d.args[0].op == "json"


# -------------------------------------------------------------------- C05
def c05(a):
    r1, r2, r3 = "relationships-indexed", "entries-kept", "under-the-right-node"
    a.rules[r1] = "In every case, each node stored with relationships has an entry with the numbers of all of them."
    a.rules[r2] = "Entries the index held stay, and an entry for a number that had one already keeps what it held."
    a.rules[r3] = "Each entry is under the number of the node the relationships are stored on and holds nothing else."
    for S in stored(a):
        f = S.f
        if not isinstance(S.doc, Doc):
            a.und(r1, S.site, "the database text written is not understood")
            continue
        parts, site = index_parts(a, S, r1)
        if parts is None:
            continue
        old = sym("at", store.parsed(store.path(IDX)), const("node_relationships"))
        for g, v in parts.get("node_relationships", ()):
            if v is store.KEPT:
                a.bad(r1, site, "nothing is added to the index node_relationships", S.r.s)
                continue
            if v is store.DROPPED or not isinstance(v, Doc) or v.kind != "dict":
                if v is store.DROPPED:
                    a.bad(r2, site, "the index node_relationships is dropped", S.r.s)
                else:
                    a.und(r1, site, "the index node_relationships becomes " + short(v))
                continue
            olds = [d for d in deps(v) if d.op == "at" and same_at(d, old)]
            kept = any(s[0] == "base" and s[1] in olds for s in v.segs)
            if not kept:
                for s in v.segs:
                    if s[0] == "star" and s[1] in olds:
                        ky, vl = sym("key", s[1]), sym("val", s[1])
                        kept = all(any(y[0] in ("one", "upd") and same(y[1], ky) and (same(y[2], vl) or isinstance(y[2], Doc) and kept_base(y[2].segs, vl)) for y in x) for _, x in s[2])
            if kept:
                a.ok(r2, "entries of other nodes")
            elif has_op(v, ("unk",)) or olds:
                a.und(r2, site, "what the index held is not followed")
            else:
                a.bad(r2, site, "what the index node_relationships held is not kept", v)
            icases = []
            for path, segs in leafs(v.segs):
                if any(s in olds for s, _, _ in path) or not path and all(s[0] == "base" for s in segs):
                    continue
                F = facts_of(path, S.r, g)
                if any(p and at.op == "has" and isinstance(at.args[0], Doc) and all(of_this_run(a, s) for s in at.args[0].segs) for at, p in F.items()):
                    if taken_again(a, F):
                        continue
                entries = {}
                understood = True
                for s in segs:
                    if s[0] not in ("one", "upd") or not isinstance(s[2], Doc):
                        a.und(r1, site, f"{s[0]} in the index node_relationships: {short(s[2]) if len(s) > 2 else ''}")
                        understood = False
                        continue
                    nums = set()
                    keeps = False
                    lost = None
                    for p2, segs2 in leafs(s[2].segs):
                        if p2:
                            q = p2[-1][0]
                            if isinstance(q, Sym) and q.op in ("at", "get") and q.args[1] == s[1]:
                                k = kept_base(s[2].segs, q)
                                keeps = keeps or k is True
                                if k is None or k is False:
                                    lost = lost or given_back(s[2].segs, q)
                                continue
                            understood = False
                            continue
                        for t in segs2:
                            if t[0] == "base" and isinstance(t[1], Sym) and t[1].op in ("at", "get") and t[1].args[1] == s[1]:
                                keeps = True
                                continue
                            m = member(t, s[2].kind)
                            if m is None:
                                understood = False
                            else:
                                nums.add(m)
                    had = had_entry(F, s[1])
                    if lost is not None and not keeps and had is not False:
                        a.bad(r2, site, f"an entry that the index had for {short(s[1])} loses {short(lost)} when it is added again", s[2])
                    if understood and had is not False and not keeps:
                        if had is True:
                            a.bad(r2, site, f"an entry that the index had for {short(s[1])} is replaced", s[2])
                        elif not isinstance(s[1], Sym) or True:
                            if s[0] == "upd" or had is None:
                                a.bad(r2, site, f"the entry for {short(s[1])} is written without regard to one that the index had", s[2])
                    elif understood:
                        a.ok(r2, f"entry {'new' if had is False else 'joined'}: {desc(f, F)}")
                    if s[1] in entries:
                        entries[s[1]] = entries[s[1]] | nums if keeps else nums
                    else:
                        entries[s[1]] = nums
                if not understood:
                    a.und(r1, site, "an entry of the index is not understood")
                    continue
                if source_ok(a, r1, S, path, "indexing relationships"):
                    icases.append((F, entries))
            matched = 0
            for dpath, dF, items, others in S.cases:
                for F, entries in icases:
                    if not compatible(F, dF.items()) or not compatible(dF, F.items()):
                        continue
                    matched += 1
                    keys = {it.key for it in items}
                    for it in items:
                        want = {r.wn for r in it.rels}
                        got = entries.get(it.key)
                        if want:
                            if got is None:
                                a.bad(r1, site, f"a node with {len(want)} relationship(s) ({desc(f, dF)}) has no entry in the index", v)
                            elif want - got:
                                a.bad(r1, site, f"{len(want - got)} of the relationships of a node ({desc(f, dF)}) are not in its entry", v)
                            elif got - want:
                                a.bad(r3, site, f"the entry of a node ({desc(f, dF)}) holds {len(got - want)} number(s) that are none of its relationships", v)
                            else:
                                a.ok(r1, f"{desc(f, dF)} {short(it.key)}: {len(want)}")
                                a.ok(r3, f"{desc(f, dF)} {short(it.key)}: {len(want)}")
                        elif got:
                            a.bad(r3, site, f"the entry of a node without relationships ({desc(f, dF)}) holds numbers", v)
                    for k in entries:
                        if k not in keys:
                            if counter_of(k.args[0] if isinstance(k, Sym) and k.op == "str" else k):
                                a.bad(r3, site, f"the index gets an entry under {short(k)}, which is no node of the pattern ({desc(f, dF)})", v)
                            else:
                                a.und(r3, site, "entry under " + short(k))
            if not matched:
                a.und(r1, site, "no case of the index fits a case of the database")


def had_entry(F, key):
    for at, p in F.items():
        if at.op in ("has", "contains") and at.args[1] is key:
            return p
        if at.op == "isnone" and isinstance(at.args[0], Sym) and at.args[0].op == "get" and at.args[0].args[1] is key:
            return not p
    return None


# -------------------------------------------------------------------- C24
def c24(a):
    r1, r2, r3 = "taken-at-creation", "taken-for-each", "no-update-time"
    a.rules[r1] = "The stored creation time is the result of a clock read that the query itself makes (not one made when a module is loaded)."
    a.rules[r2] = "The clock is read once for each item: inside the loops over statements and patterns, and by a different read for each item of a pattern."
    a.rules[r3] = "An item created by a MAKE has no update time."
    for S in stored(a):
        f = S.f
        if not isinstance(S.doc, Doc):
            a.und(r1, S.site, "the database text written is not understood")
            continue
        for path, F, items, others in S.cases:
            seen = {}
            srcs = [s for s, _, _ in path if s is not None]
            for it in items:
                for what, md in [("node", get(it.doc, "node_metadata"))] + [("relationship", get(r.doc, "relationship_metadata")) for r in it.rels]:
                    t, u = get(md, "created_at"), get(md, "updated_at")
                    for g, x in alts(t) if t is not None else ():
                        nows = [d for d in deps(x) if d.op == "now"]
                        if not nows:
                            if isinstance(x, Const) or not has_op(x, ("unk",)) and not any(d.op in ("opaque", "call") for d in deps(x)):
                                a.bad(r1, S.site, f"the creation time stored with a {what} is {short(x)}, which is no time that was read", x)
                            else:
                                a.und(r1, S.site, f"creation time of a {what}: {short(x)}")
                            continue
                        if len(nows) > 1:
                            a.und(r1, S.site, f"creation time of a {what}: {short(x)}")
                            continue
                        n = nows[0]
                        if n.args[1] != "run":
                            a.bad(r1, S.site, f"the creation time stored with a {what} was read when a module was loaded", x)
                            continue
                        a.ok(r1, f"{what}: {desc(f, F)}")
                        ctx = n.args[2]
                        missing = [s for s in srcs if s not in ctx]
                        if missing:
                            a.bad(r2, S.site, f"the creation time stored with a {what} is read once for all of {short(missing[-1])}", x)
                        elif n in seen:
                            a.bad(r2, S.site, f"the creation time stored with a {what} is that of another item of the same pattern ({seen[n]})", x)
                        else:
                            a.ok(r2, f"{what}: {desc(f, F)}")
                        seen[n] = what
                    if t is None:
                        a.bad(r1, S.site, f"no creation time is stored with a {what}", it.doc)
                    if u is None or u == NONE:
                        a.ok(r3, what)
                    elif isinstance(u, Phi) or has_op(u, ("unk",)):
                        a.und(r3, S.site, f"update time of a {what}: {short(u)}")
                    else:
                        a.bad(r3, S.site, f"a {what} that was only created is stored with the update time {short(u)}", u)


# -------------------------------------------------------------------- C25
def c25(a):
    r1, r2, r3 = "number-from-file", "unreadable-fails", "nothing-stored"
    a.rules[r1] = "On every path on which a MAKE completes, counting starts at the integer value of the whole text of the counter file, read in that query."
    a.rules[r2] = "There is an outcome in which the text of the counter file makes the MAKE fail."
    a.rules[r3] = "On every path that fails because of the text of the counter file no file has changed."
    good, bad = runs(a)
    st0 = a._q["st0"]
    cont = sym("content", store.path(WN), typ="str")
    if not good:
        a.und(r1, MAKE.rsplit(".", 1)[-1], "no MAKE completes")
    all_runs = list(stored(a))
    if a.ip.glob_mut and not a.violations:
        # a later query of the same process
        all_runs += stored(a, True)
    for S in all_runs:
        t, site = S.r.file(WN)
        for e, _ in flat_effects(S.r.s.effects):
            if e[0] in ("cached", "shared") and any(cont in deps(x) for x in e[1:] if isinstance(x, Val)):
                a.bad(r1, site, "the number is kept from an earlier query", S.r.s)
        if isinstance(t, Sym) and t.op in ("str", "jsonof"):
            final, off = base_off(t.args[0])
            n = len(a.violations)
            if count_chain(a, a.ip.loopinfo, final, off, r1, "counter-followed", site, S) is not None:
                a.ok(r1, site)
        else:
            a.und(r1, site, "the counter written is not understood")
        e = quick(S.r.s.facts, truthy(cont))
        if e is False:
            a.bad(r2, site, "a MAKE completes although the counter file is empty", S.r.s)
    fails = 0
    for s, v in bad:
        mine = mentions(v.cause, {cont}) if isinstance(v.cause, tuple) else False
        if not mine:
            mine = any(cont in deps(at) for at in s.facts) and not any(cont in deps(at) for at in (good[0].s.facts if good else ()) if s.facts.get(at) == good[0].s.facts.get(at))
        if not mine:
            continue
        fails += 1
        ch = store.changed(s, st0)
        a.need(not ch, r3, a.site(v), a.site(v), "a file has changed when the counter turns out to be unreadable: " + ", ".join(short(p) for p in ch), s)
    if fails:
        a.ok(r2, f"{fails} outcomes")
    elif good:
        a.und(r2, MAKE.rsplit(".", 1)[-1], "no outcome depends on the text of the counter file")


# -------------------------------------------------------------------- C31
def c31(a):
    r1, r2 = "counted-before-stored", "indexed-before-stored"
    a.rules[r1] = "When the first byte of the database is changed the counter file already has its final content."
    a.rules[r2] = "When the first byte of the database is changed the index file already has its final content."
    good, _ = runs(a)
    for r in good:
        site = None
        last = {}
        n = 0
        for e, loops in flat_effects(r.s.effects):
            if e[0] not in CHANGING:
                continue
            n += 1
            p = e[1]
            role = store.role_of(p)
            if role == DB and site is None:
                site = (n, fmt_site(e[-1]))
            elif role is None:
                continue
            else:
                last[role] = (n, fmt_site(e[-1]))
        if site is None:
            a.und(r1, MAKE.rsplit(".", 1)[-1], "a MAKE completes without changing the database")
            continue
        for role, rule, what in ((WN, r1, "the numbers of the nodes are counted as used"), (IDX, r2, "the nodes are in the indexes")):
            if role not in last:
                a.bad(rule, site[1], f"nodes are stored and {what} at no time", r.s)
            else:
                a.need(last[role][0] < site[0], rule, f"{last[role][1]} before {site[1]}", last[role][1],
                       f"the database is written ({site[1]}) before {what} ({last[role][1]})", r.s)
