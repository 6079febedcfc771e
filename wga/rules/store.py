"""Rules about the storage functions (database, indexes, counter)."""
from ..ana import *

B = "wiggle_query_language.graph.database."
IX = B + "indexes."
ADDS = [
    (B + "database.add_item_to_database", DB, "dict", None),
    (IX + "node_labels_index.add_items_to_node_labels_index", IDX, "set", "node_labels"),
    (IX + "relationship_names_index.add_items_to_relationship_names_index", IDX, "set", "relationship_names"),
    (IX + "node_relationships_index.add_items_to_node_relationships_index", IDX, "dict", "node_relationships"),
]
WIPES = [
    (B + "database.wipe_database", DB, None),
    (IX + "node_labels_index.wipe_node_labels_index", IDX, "node_labels"),
    (IX + "relationship_names_index.wipe_relationship_names_index", IDX, "relationship_names"),
    (IX + "node_relationships_index.wipe_node_relationships_index", IDX, "node_relationships"),
]
LOADS = [
    (B + "database.load_database", DB, None),
    (IX + "node_labels_index.load_node_labels_index", IDX, "node_labels"),
    (IX + "relationship_names_index.load_relationship_names_index", IDX, "relationship_names"),
    (IX + "node_relationships_index.load_node_relationships_index", IDX, "node_relationships"),
]
GETWN = "wiggle_query_language.graph.state.wiggle_number.get_current_wiggle_number"
SETWN = "wiggle_query_language.graph.state.wiggle_number.update_wiggle_number"
INDEXES = ("node_labels", "node_relationships", "relationship_names")


def path(role):
    return sym("arg", role, typ="path")


def content(p):
    return sym("content", p, typ="str")


def parsed(p):
    return sym("json", content(p), typ="dict")


def changed(s, st0):
    """The files that do not hold what they held -> {path: what}."""
    out = {}
    for p, c in s.files.items():
        o = st0.files.get(p)
        if c == o:
            continue
        if o is None and c[0] == "clean" and c[1] is sym("content", p):
            continue
        out[p] = c
    return out


def json_doc(text):
    """The document a text is the JSON form of, or None."""
    if isinstance(text, Sym) and text.op == "jsonof":
        return text.args[0]
    if isinstance(text, Sym) and text.op == "fstr":
        docs = [p for p in text.args[0] if not (isinstance(p, Const) and str(p.v).strip() == "")]
        if len(docs) == 1:
            return json_doc(docs[0])
    return None


def well_formed(c, role):
    """None if the file holds one document, else what is wrong."""
    if c[0] == "over":
        return "the rest of a longer earlier version stays behind the new text"
    if c[0] != "clean":
        return "the file does not hold one whole document"
    t = c[1]
    if isinstance(t, Const):
        v = t.v
        if role == WN:
            return None if isinstance(v, str) and v.strip().isdigit() else f"the counter file holds {v!r}"
        try:
            import json as J

            J.loads(v)
            return None
        except Exception:
            return f"the file holds {v!r}, which is no JSON document"
    if role == WN:
        if isinstance(t, Sym) and t.op in ("str", "content"):
            return None
        if isinstance(t, Sym) and t.op == "fstr":
            parts = [p for p in t.args[0] if not (isinstance(p, Const) and str(p.v).strip() == "")]
            if len(parts) == 1 and isinstance(parts[0], Sym):
                return None
        if isinstance(t, Sym) and t.op == "jsonof":
            return None
        return None if isinstance(t, Sym) and t.op in ("unk", "fileout") else "the counter file does not hold one number"
    if json_doc(t) is not None or isinstance(t, Sym) and t.op in ("content", "copyof"):
        return None
    if isinstance(t, Sym) and t.op in ("unk", "fileout", "filehead"):
        return "?"
    if isinstance(t, Sym) and t.op == "fstr":
        if any(isinstance(p, Sym) and p.op in ("jsonof", "content") for p in t.args[0]):
            return "the file holds more than one document"
    if isinstance(t, Sym) and t.op in ("partialjson", "str", "repr"):
        return "the file does not hold a JSON document"
    return "?"


def role_of(p):
    return p.args[0] if isinstance(p, Sym) and p.op == "arg" and p.args[0] in FILES else None


def items_arg(kind):
    return sym("arg", "items", typ=kind)


def with_file(a):
    st, g = a.gdb()
    return st


def run_all(a, which):
    """-> (function, its file, index name, start state, outcomes, arguments)"""
    for t in which:
        q, role = t[0], t[1]
        try:
            f = a.fn(q)
        except Undecided as e:
            a.und("entry", q, str(e))
            continue
        st = with_file(a)
        st0 = st.fork()
        if which is ADDS:
            args = [path(role), items_arg(t[2])]
        elif which is WIPES:
            args = [path(role), sym("arg", "im_sure", typ="bool")]
        else:
            args = [path(role)]
        yield f, role, t[-1], st0, a.run(f, args, st=st), args


KEPT, DROPPED = object(), object()


def parts_of(doc, base):
    """What each part of the indexes is in the document written: name -> [(facts, KEPT / DROPPED / value)], or None."""
    if not isinstance(doc, Doc) or doc.kind != "dict":
        return None
    got = {n: [(frozenset(), DROPPED)] for n in INDEXES}
    for s in doc.segs:
        if s == ("base", base):
            got = {n: [(frozenset(), KEPT)] for n in INDEXES}
        elif s[0] in ("one", "upd", "kid"):
            if isinstance(s[1], Const):
                got[s[1].v] = [(frozenset(), _part(s[2], base, s[1]))]
            else:
                return None
        elif s[0] == "del" and isinstance(s[1], Const):
            got[s[1].v] = [(frozenset(), DROPPED)]
        elif s[0] == "star" and not s[3]:
            ks = _keys_over(s[1], base)
            if ks is None:
                return None
            key, val = ks
            for n in list(got):
                new = []
                for f, x in s[2]:
                    if not _key_case(f, key, n):
                        continue
                    if not x:
                        new.extend((f | g, v) for g, v in got[n])
                        continue
                    if len(x) != 1 or x[0][0] not in ("one", "upd", "kid"):
                        return None
                    k = x[0][1]
                    if k is key or isinstance(k, Const) and k.v == n:
                        v = x[0][2]
                        new.append((f, KEPT if v is val or isinstance(v, Doc) and v.segs == (("base", val),) else _part(v, base, const(n))))
                    elif isinstance(k, Const):
                        new.extend((f | g, v) for g, v in got[n])
                    else:
                        return None
                if isinstance(s[1], (Doc, Tup)) or s[1] is base or new:
                    if s[1] is base or _covers(s[1], n):
                        got[n] = new or got[n]
        elif s[0] == "alt":
            opts = [parts_of(Doc("dict", (("base", base),) + tuple(x)), base) for _, x in s[1]]
            if any(o is None for o in opts):
                return None
            return None
        else:
            return None
    return got


def _covers(src, n):
    return True


def _keys_over(src, base):
    if src is base:
        return sym("key", base), sym("val", base)
    return None


def _key_case(f, key, n):
    """Can the case be one of this key?"""
    for z, p in f:
        if z.op == "eq" and key in z.args:
            o = z.args[0] if z.args[1] is key else z.args[1]
            if isinstance(o, Const) and (o.v == n) is not p:
                return False
        if z.op == "isinst" and isinstance(z.args[0], Sym) and z.args[0].op == "val" and z.args[0].args[0] is key.args[0]:
            names = {getattr(c, "name", None) for c in (z.args[1].items if isinstance(z.args[1], Tup) else (z.args[1],))}
            if None not in names and (("dict" if n == "node_relationships" else "list") in names) is not p:
                return False
        if z.op in ("contains", "has") and z.args[1] is key:
            c = z.args[0]
            items = None
            if isinstance(c, Const) and isinstance(c.v, (tuple, frozenset)):
                items = set(c.v)
            elif isinstance(c, Tup) and all(isinstance(q, Const) for q in c.items):
                items = {q.v for q in c.items}
            if items is not None and (n in items) is not p:
                return False
    return True


def _part(v, base, name):
    at = sym("at", base, name)
    if v is at or isinstance(v, Doc) and v.segs == (("base", at),):
        return KEPT
    return v


def kept_parts(doc, name, base):
    """The document is the loaded one with only this part replaced -> None / what is wrong / '?'."""
    if not isinstance(doc, Doc):
        return None if doc is base else "?"
    if doc.kind != "dict":
        return "what is written is not the kind of document that was read"
    got = parts_of(doc, base)
    if got is None:
        return "?"
    for n, vs in got.items():
        for f, v in vs:
            if v is DROPPED:
                return f"the part {n} of the document is dropped" + (" if " + cond(f) if f else "")
            if v is KEPT or n == name:
                continue
            if has_op(v, ("unk",)) or any(has_op(z, ("unk",)) for z, _ in f):
                return "?"
            return f"the part {n} is changed by an operation on {name}" + (" if " + cond(f) if f else "")
    return None


def _copies_all(s, base):
    return s[1] is base and all(len(x) == 1 and x[0][0] == "one" and x[0][1] is sym("key", base) and x[0][2] is sym("val", base) for _, x in s[2])


# -------------------------------------------------------------------- C07
def c07(a):
    r1, r2 = "one-document", "other-parts-kept"
    a.rules[r1] = "After every completed storage operation each file it changed holds exactly one serialised document, from its start to its end."
    a.rules[r2] = "The document written back is the one that was read with only the part the operation is about replaced."
    for which in (ADDS, WIPES):
        for f, role, name, st0, outs, args in run_all(a, which):
            w = a.where(f)
            for s, v in outs:
                if isinstance(v, Raise):
                    continue
                _written(a, s, st0, w, role, name, r1, r2)
    a.rules["counter-written"] = "Every normal end of writing the counter leaves the number given in the counter file."
    f = a.fn(SETWN)
    st = with_file(a)
    st0 = st.fork()
    for s, v in a.run(f, [path(WN), sym("arg", "n", typ="int")], st=st):
        if not isinstance(v, Raise):
            ch = changed(s, st0)
            _written(a, s, st0, a.where(f), WN, None, r1, r2)
            c = ch.get(path(WN))
            if c is None:
                a.bad("counter-written", a.where(f), "the counter is not written on some path")
            elif c[0] == "clean" and isinstance(c[1], Sym) and sym("arg", "n") in deps(c[1]):
                a.ok("counter-written", "update")
    fresh_database(a, r1)


def _written(a, s, st0, w, role, name, r1, r2):
    for p, c in changed(s, st0).items():
        rl = role_of(p)
        if rl is None:
            a.bad(r1, w, f"another file is written: {show(p, 3)}", p)
            continue
        e = well_formed(c, rl)
        if e == "?":
            a.und(r1, w, "the text written is not understood: " + show(c[1] if len(c) > 1 else None, 3))
            continue
        a.need(e is None, r1, f"{w} {rl}", w, f"{rl}: {e}", *[x for x in c[1:] if isinstance(x, Val)])
        if rl == IDX and e is None and c[0] == "clean":
            d = json_doc(c[1])
            if d is None:
                continue
            k = kept_parts(d, name, parsed(p))
            if k == "?":
                a.und(r2, w, "the document written is not understood: " + show(d, 3)[:200])
            else:
                a.need(k is None, r2, f"{w} {name}", w, k or "", d)


def fresh_database(a, r1):
    from . import select as S

    for s, st0, w in S.created(a):
        for p, c in s.files.items():
            if c[0] == "absent" or st0.files.get(p) == c:
                continue
            n = S.file_name(p) or show(p, 3)
            if c[0] != "clean":
                a.bad(r1, w, f"{n}: the file is not written whole", p)
                continue
            t = c[1]
            if "wiggle" in n or "number" in n:
                e = well_formed(c, WN)
            else:
                e = well_formed(c, IDX)
            if e == "?":
                a.und(r1, w, f"{n}: text not understood")
            else:
                a.need(e is None, r1, f"{w} {n}", w, f"{n}: {e}", t)


# -------------------------------------------------------------------- C08
def c08(a):
    r = "failure-leaves-file"
    a.rules[r] = "On every path on which a storage operation ends in an exception every file holds what it held before."
    for which in (ADDS, WIPES, LOADS):
        for f, role, name, st0, outs, args in run_all(a, which):
            _unchanged_on_raise(a, r, f, st0, outs)
    for q, args in ((SETWN, [path(WN), sym("arg", "n", typ="int")]), (GETWN, [path(WN)])):
        f = a.fn(q)
        st = with_file(a)
        st0 = st.fork()
        _unchanged_on_raise(a, r, f, st0, a.run(f, args, st=st))


def _unchanged_on_raise(a, r, f, st0, outs):
    n = 0
    for s, v in outs:
        if not isinstance(v, Raise):
            continue
        n += 1
        ch = changed(s, st0)
        w = a.where(f)
        if ch and any(has_op(c, ("unk",)) for c in v.cause):
            a.und(r, a.site(v), "a failure of something not modelled")
            continue
        if ch:
            a.bad(r, a.site(v), f"{a.exc_name(s, v)} raised here (in {f.name}) after {', '.join(show(p, 2) for p in ch)} was already changed")
        else:
            a.ok(r, f"{w}: {a.exc_name(s, v)} at {a.site(v)}")
    a.ok(r, f"{a.where(f)}: {n} failing paths")


# -------------------------------------------------------------------- C06
def norm_adds(doc, base):
    """The changes to the loaded dict -> [(source, facts, kind, key, value, partial)] or None."""
    if not isinstance(doc, Doc) or doc.kind != "dict" or not doc.segs:
        return None
    segs = list(doc.segs)
    kept = segs[0] == ("base", base)
    if kept:
        segs = segs[1:]
    else:
        for i, s in enumerate(segs):
            if s == ("base", base) or s[0] == "star" and _copies_all(s, base):
                return ("late", i)
        return ("lost", None)
    out = []
    for s in segs:
        if not _norm(s, None, frozenset(), False, out):
            return None
    return out


def _norm(s, src, facts, partial, out):
    if s[0] in ("one", "upd", "kid"):
        out.append((src, facts, s[0], s[1], s[2], partial))
        return True
    if s[0] == "base":
        b = s[1]
        out.append((b, facts, "upd", sym("key", b), sym("val", b, typ="any"), partial))
        return True
    if s[0] == "star":
        for f, x in s[2]:
            if not x:
                out.append((s[1], facts | f, "none", None, None, s[3]))
            for y in x:
                if not _norm(y, s[1], facts | f, s[3] or partial, out):
                    return False
        return True
    if s[0] == "alt":
        for f, x in s[1]:
            for y in x:
                if not _norm(y, src, facts | f, partial, out):
                    return False
        return True
    if s[0] == "perm":
        for y in s[2]:
            if not _norm(y, src, facts, partial, out):
                return False
        return True
    if s[0] == "del":
        out.append((src, facts, "del", s[1], None, partial))
        return True
    return False


def key_absent(an, facts, statefacts, src, key, db):
    """Is it known that this key is not in the database yet?"""
    def absent(x, p):
        return x.op == "has" and not p and x.args[1] is key and grown_from(an, x.args[0], db)

    def apart(x, p):
        # no key of the database is one of the items'
        return x.op == "has" and not p and x.args[1] in (sym("key", db), sym("elem", db)) and all_keys(x.args[0], src, key)

    if any(absent(x, p) for x, p in facts):
        return True
    for a, p in statefacts.items():
        if a.op == "forall" and p or a.op == "exists" and not p:
            one = (lambda x, q: absent(x, q is p)) if a.args[0] is src else (lambda x, q: apart(x, q is p)) if a.args[0] is db else None
            if one and (all if p else any)(any(one(x, q) for x, q in d) for d in a.args[1]):
                return True
    return False


def grown_from(a, x, db):
    """Does this container have everything of db (at any iteration of the loop that adds to it)?"""
    if has_base(x, db):
        return True
    return isinstance(x, Doc) and any(
        s[0] == "prev" and any(grown_from(a, Doc(x.kind, (y,)), db) for y in a.ip.contfrom.get((s[1], s[2]), ()))
        for s in x.segs)


def all_keys(x, src, key):
    """Does this container have every key of src?"""
    if x is src or x is sym("keys", src):
        return True
    return isinstance(x, Doc) and any(
        g == ("base", src) or g[0] == "star" and g[1] is src and not (len(g) > 3 and g[3]) and all(any(e[0] == "one" and (e[1] is key or e[1] is None and e[2] is key) for e in c) for _, c in g[2])
        for g in x.segs)


def c06(a):
    r1, r2, r3, r4 = "existing-kept", "all-added", "taken-number-refused", "refusal-leaves-file"
    a.rules[r1] = "What is written back starts from everything that was loaded; no entry of it is removed or replaced."
    a.rules[r2] = "Every one of the given items is added under its own key with its own value, none is left out."
    a.rules[r3] = "The addition goes through only on paths on which no given number is in the loaded database; the others raise NodeExistsError."
    a.rules[r4] = "On every failing path the database file is as before."
    f = a.fn(ADDS[0][0])
    st = with_file(a)
    st0 = st.fork()
    items = items_arg("dict")
    P = path(DB)
    outs = a.run(f, [P, items], st=st)
    w = a.where(f)
    raised = False
    for s, v in outs:
        if isinstance(v, Raise):
            nm = a.exc_name(s, v)
            ch = changed(s, st0)
            if not any(has_op(c, ("unk",)) for c in v.cause):
                a.need(not ch, r4, f"{nm} at {a.site(v)}", a.site(v), f"{nm} is raised after the database file was changed")
            if nm == "NodeExistsError":
                raised = True
            elif any(x.op == "has" and p and has_base(x, parsed(P)) for x, p in s.facts.items()) and not _json_fail(v):
                a.bad(r3, a.site(v), f"{nm} instead of NodeExistsError when a number is taken")
            continue
        ch = changed(s, st0)
        if P not in ch:
            if quick(s.facts, truthy(items)) is False:
                a.ok(r2, "nothing to add")
                continue
            a.bad(r2, w, "a path ends normally without writing the items to the database")
            continue
        c = ch[P]
        d = json_doc(c[1]) if c[0] in ("clean", "over") else None
        if d is None:
            a.und(r1, w, "text written not understood")
            continue
        n = norm_adds(d, parsed(P))
        if n is None:
            a.und(r1, w, "document not understood: " + show(d, 3)[:160])
            continue
        if isinstance(n, tuple):
            if n[0] == "lost":
                if has_op(d, ("unk",)):
                    a.und(r1, w, "document not tracked")
                else:
                    a.bad(r1, w, "what the database held is not part of what is written back", d)
            else:
                # items first, then what was there: items lose against existing ones unless disjoint
                if key_absent(a, (), s.facts, items, sym("key", items), parsed(P)):
                    a.ok(r1, "kept")
                else:
                    a.bad(r2, w, "an existing entry replaces the new one", d)
            continue
        a.ok(r1, f"base of {w}")
        got = False
        for src, facts, kind, key, val, partial in n:
            if kind == "del":
                a.bad(r1, w, f"an entry is removed: {show(key, 3)}", d)
                continue
            if src is items:
                got = True
                if kind == "none":
                    a.bad(r2, w, "some items are skipped: " + cond(facts), *[x for x, _ in facts])
                    continue
                if partial:
                    a.bad(r2, w, "not all of the items are added", d)
                    continue
                k, vv = sym("key", items), sym("val", items)
                if strip_str(key) is not k:
                    a.need(has_op(key, ("unk",)) and a.und(r2, w, "key not tracked"), r2, "key", w, f"an item is stored under {show(key, 3)}", key)
                    continue
                if not same_value(val, vv):
                    a.bad(r2, w, f"an item is stored as {show(val, 3)}", val)
                    continue
                a.ok(r2, f"item case {len(facts)}")
                if key_absent(a, facts, s.facts, items, k, parsed(P)):
                    a.ok(r3, "no number taken")
                else:
                    a.bad(r3, w, "an item is stored although its number may be in the database already (it replaces what is there)", d)
                continue
            a.bad(r1, w, f"an entry that was not asked for is written: {show(key, 3)}", d)
        if not got:
            a.bad(r2, w, "the items are not added", d)
    a.need(raised, r3, "NodeExistsError", w, "no path refuses a number that is taken with NodeExistsError")


def _json_fail(v):
    return any(isinstance(c, Sym) and c.op in ("jsonof",) for c in v.cause)


def has_base(atom, base):
    return base in deps(atom)


def strip_str(k):
    if isinstance(k, Sym) and k.op == "str" and len(k.args) == 1:
        return k.args[0]
    return k


def same_value(v, want):
    if v is want:
        return True
    if isinstance(v, Doc) and v.segs == (("base", want),):
        return True
    return False


def cond(facts):
    return ", ".join(("" if p else "not ") + show(x, 3)[:80] for x, p in sorted(facts, key=lambda y: y[0].id)[:4])


# -------------------------------------------------------------------- C18
def c18(a):
    r1, r2, r3 = "needs-confirmation", "wipes-its-own", "says-so"
    a.rules[r1] = "On every path on which the confirmation is not given no file is opened for writing or changed."
    a.rules[r2] = "With the confirmation exactly the database, or the one index of that name, becomes empty; every other part of the indexes stays."
    for t in WIPES:
        q, role, name = t
        f = a.fn(q)
        w = a.where(f)
        sure = sym("arg", "im_sure", typ="bool")
        for args in ([path(role), sure], [path(role)], [path(role), const(False)], [path(role), NONE], [path(role), const(0)], [path(role), const(True)]):
            st = with_file(a)
            st0 = st.fork()
            for s, v in a.run(f, args, st=st):
                given = quick(s.facts, truthy(args[1])) if len(args) > 1 else False
                if len(args) > 1 and given is None:
                    given = quick(s.facts, args[1])
                ch = changed(s, st0)
                if given is not True:
                    ops = [e for e, _ in file_ops(s.effects) if e[0] in CHANGING or e[0] == "open" and _writes(e[2])]
                    if given is None and (ch or ops) or given is False and (ch or ops):
                        a.bad(r1, w, "a file is changed although the confirmation is missing")
                    else:
                        a.ok(r1, f"{w} {len(args)}")
                    if given is False:
                        continue
                if isinstance(v, Raise):
                    if not (any(about_content(c) for c in v.cause) or "ok" in {x.op for x in s.facts}):
                        a.bad(r2, a.site(v), f"the wipe fails with {a.exc_name(s, v)}", *v.cause)
                    continue
                P = path(role)
                if given is not True:
                    continue
                if P not in ch:
                    a.bad(r2, w, "confirmed, but nothing is wiped")
                    continue
                for p in ch:
                    if p is not P:
                        a.bad(r2, w, f"another file is changed: {show(p, 3)}", p)
                c = ch[P]
                e = well_formed(c, role)
                d = json_doc(c[1]) if c[0] in ("clean", "over") else None
                if d is None and c[0] == "clean" and isinstance(c[1], Const):
                    a.need(role == DB and c[1].v.strip() == "{}", r2, f"{w}", w, f"the file holds {c[1].v!r} afterwards", c[1])
                    continue
                if d is None:
                    a.und(r2, w, "text not understood")
                    continue
                if role == DB:
                    a.need(isinstance(d, Doc) and d.kind == "dict" and not d.segs, r2, w, w, f"the database is not empty afterwards: {show(d, 3)[:120]}", d)
                    continue
                k = kept_parts(d, name, parsed(P))
                if k == "?":
                    a.und(r2, w, "document not understood " + show(d, 3)[:120])
                    continue
                a.need(k is None, r2, f"{w} others kept", w, k or "", d)
                got = parts_of(d, parsed(P)) or {}
                want = "dict" if name == "node_relationships" else "list"
                for fc, m in got.get(name, [(frozenset(), KEPT)]):
                    if m is KEPT:
                        a.bad(r2, w, f"the index {name} is not emptied" + (" if " + cond(fc) if fc else ""), d)
                    elif m is DROPPED:
                        a.bad(r2, w, f"the index {name} is removed", d)
                    else:
                        a.need(isinstance(m, Doc) and m.kind == want and not m.segs, r2, f"{w} {name} empty", w, f"the index {name} is {show(m, 3)[:100]} afterwards", m)


def _writes(mode):
    m = mode.v if isinstance(mode, Const) else None
    return m is None or any(c in str(m) for c in "wax+")


# -------------------------------------------------------------------- C30
def c30(a):
    r1, r2, r3 = "loads-all", "file-unchanged", "always-fresh"
    a.rules[r1] = "The value returned is the whole of the stored part, neither filtered nor extended."
    a.rules[r2] = "Loading changes no file."
    a.rules[r3] = "Two loads with a change in between: the second returns the changed content (nothing is remembered)."
    for f, role, name, st0, outs, args in run_all(a, LOADS):
        w = a.where(f)
        P = path(role)
        good = 0
        for s, v in outs:
            a.need(not changed(s, st0), r2, w, w, "loading changes a file")
            for e, _ in flat_effects(s.effects):
                if e[0] in ("cached", "shared", "global_write"):
                    a.bad(r3, w, f"what was loaded is kept in the process ({e[0]})")
            if isinstance(v, Raise):
                ok = quick(s.facts, sym("ok", content(P)))
                if ok is not False and not any(about_content(c) for c in v.cause):
                    a.bad(r1, a.site(v), f"loading a well-formed file fails with {a.exc_name(s, v)}", *v.cause)
                continue
            for s2, v2 in a.ip.resolve(s, v):
                ok = quick(s2.facts, sym("ok", content(P)))
                if ok is False:
                    continue
                k = loaded_as(a.ip.lib.freeze(s2, v2), parsed(P), name)
                if k == "?":
                    a.und(r1, w, "value not understood: " + show(v2, 4)[:160])
                else:
                    good += 1
                    a.need(k is None, r1, f"{w} {len(s2.facts)}", w, k or "", a.ip.lib.freeze(s2, v2))
        if not good and not any(r == r1 for r, _ in a.undecided):
            a.bad(r1, w, "no path returns what the file holds")
        # a second load after a change
        for s, v in outs:
            if isinstance(v, Raise):
                continue
            new = sym("content2", P, typ="str")
            t = s.fork()
            t.files[P] = ("clean", new)
            a.ip.json_roles[new] = a.ip.json_roles.get(content(P))
            if a.ip.json_roles[new] is None:
                del a.ip.json_roles[new]
            for s2, v2 in a.run(f, args, st=t):
                if isinstance(v2, Raise):
                    continue
                if quick(s2.facts, sym("ok", new)) is False:
                    continue
                x = a.ip.lib.freeze(s2, v2)
                if sym("content", P) in deps(x):
                    a.bad(r3, w, "a second load still returns the earlier content")
                elif new in deps(x):
                    a.ok(r3, w)
            break


def loaded_as(v, J, name):
    want = J if name is None else sym("at", J, const(name))
    if v is want:
        return None if name is None else "the index is returned as it is in the file, not as a set"
    if not isinstance(v, Doc):
        return "?"
    if name is None:
        if v.kind == "dict" and v.segs == (("base", J),):
            return None
        if v.kind == "dict" and len(v.segs) == 1 and v.segs[0][0] == "star" and v.segs[0][1] is J:
            return _entries(v.segs[0], J, lambda x: x is sym("val", J) or isinstance(x, Doc) and x.segs == (("base", sym("val", J)),))
        if not v.segs:
            return "nothing is returned for a well-formed file"
        return _not(v)
    if name != "node_relationships":
        if v.kind not in ("set", "frozenset"):
            return f"the index is returned as a {v.kind}"
        if v.segs == (("base", want),):
            return None
        if len(v.segs) == 1 and v.segs[0][0] == "star" and v.segs[0][1] is want:
            el = sym("elem", want)
            for f, x in v.segs[0][2]:
                if not (len(x) == 1 and x[0][0] == "one" and x[0][2] is el):
                    return "some entries of the index are left out or changed: " + cond(f)
            return None
        if not v.segs:
            return "an empty index is returned for a well-formed file"
        return _not(v)
    if v.kind != "dict":
        return f"the index is returned as a {v.kind}"
    if len(v.segs) == 1 and v.segs[0][0] == "star" and v.segs[0][1] is want:
        el = sym("val", want)
        return _entries(v.segs[0], want, lambda x: isinstance(x, Doc) and x.kind in ("set", "frozenset") and (
            x.segs == (("base", el),)
            or len(x.segs) == 1 and x.segs[0][0] == "star" and x.segs[0][1] is el and all(len(y) == 1 and y[0][2] is sym("elem", el) for _, y in x.segs[0][2])))
    if v.segs == (("base", want),):
        return "the numbers of a node are not returned as a set"
    if not v.segs:
        return "an empty index is returned for a well-formed file"
    return _not(v)


def _not(v):
    return "?"


def _entries(star, src, okval):
    if star[3]:
        return "not all entries are returned"
    for f, x in star[2]:
        if not x:
            return "some entries are left out: " + cond(f)
        if len(x) != 1 or x[0][0] not in ("one", "upd"):
            return "?"
        k = strip_str(x[0][1])
        if isinstance(k, Sym) and k.op == "int":
            k = k.args[0]
        if k is not sym("key", src):
            return "an entry is returned under another key"
        if not okval(x[0][2]):
            return "the value of an entry is not the one stored" if not has_op(x[0][2], ("unk",)) else "?"
    return None
