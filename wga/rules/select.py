"""Rules about creating, listing, choosing and deleting databases, and about the shell."""
from .. import rx, strlang
from ..ana import *

S = "wiggle_shell.core.select_gdbms."
NEW = [S + "select_database_file.create_new_database", S + "select_index_file.create_new_indexes_file",
       S + "select_wiggle_number_file.create_new_wiggle_number_file"]
GET = [S + "select_database_file.get_existing_db_file_path", S + "select_index_file.get_existing_indexes_file_path",
       S + "select_wiggle_number_file.get_existing_wn_file_path"]
NEWALL = S + "select_gdbms.get_new_gdbms_file_paths"
DELETE = S + "select_gdbms.delete_gdbms"
LIST = S + "select_gdbms.list_existing_dbms"
SHOW = S + "select_gdbms.get_and_display_available_dbms"
CHOOSE = S + "select_gdbms.get_existing_gdbms"
CREATE = S + "select_gdbms.create_new_dbms"
SELECT = S + "select_gdbms.select_gdbms"
SHELL = "wiggle_shell.wiggleshell.start_wiggle_shell"
RESERVED = {"tests", "__pycache__"}
N = sym("arg", "name", typ="str")
D = sym("arg", "dir", typ="path")
LISTS = ("listdir", "glob", "rglob", "scandir", "walk")


# -------------------------------------------------------------------- paths
def locate(p, root):
    """The components of a path below the root, None if it is not below it, '?' if not known."""
    out = []
    while p is not root:
        if not isinstance(p, Sym):
            return None
        if p.op == "join":
            out.append(p.args[1])
            p = p.args[0]
        elif p.op == "elem" and isinstance(p.args[0], Sym) and p.args[0].op in LISTS:
            out.append(p)
            p = p.args[0].args[0]
        elif p.op in ("wit", "at", "pick", "head") and isinstance(p.args[0], Sym) and p.args[0].op in LISTS:
            out.append(p)
            p = p.args[0].args[0]
        elif p.op in ("path", "arg"):
            return None
        elif p.op == "pathattr" and p.args[1] == "parent":
            q = p.args[0]
            if isinstance(q, Sym) and q.op == "join":
                p = q.args[0]
                continue
            return "?"
        else:
            return "?"
    return list(reversed(out))


def file_name(p):
    """A readable name for a path of a database."""
    if isinstance(p, Sym) and p.op == "join":
        c = p.args[1]
        if isinstance(c, Const):
            return str(c.v)
        if isinstance(c, Sym) and c.op == "fstr":
            return "".join(str(x.v) if isinstance(x, Const) else "<name>" for x in c.args[0])
    return None


SEP = rx.contains(rx.lit("/"))
DOTS = rx.union(rx.lit(""), rx.lit("."), rx.lit(".."))


def text_lang(facts, x):
    """The texts a value can be, under the facts (as the language of the text it derives from) -> (root, chain, lang, unknown)"""
    root, chain = strlang.root_of(x)
    lang, unknown = strlang.lang_of_facts(facts, root)
    return root, chain, lang, unknown


def other_facts(facts, root):
    """Facts about a text that are no facts about a language."""
    out = []
    it = facts.items() if isinstance(facts, dict) else facts
    for x, p in it:
        if x.op in ("isfile", "isdir", "pexists", "returns", "ok"):
            continue
        if x.op in ("forall", "exists", "truth") and isinstance(x.args[0], Sym) and x.args[0].op in LISTS:
            continue
        if strlang.text_root(x) is root:
            continue
        if x.op == "has" and root not in deps(x.args[0]):
            if x.args[1] is root:
                out.append((x, p))
            continue
        if root in deps(x):
            out.append((x, p))
    return out


def component_ok(facts, c, folder):
    """Is this one component for certain? -> None / what can be wrong / '?'"""
    if isinstance(c, Const):
        t = str(c.v)
        return None if "/" not in t and t not in ("", ".", "..") else f"the path component {t!r}"
    if isinstance(c, Sym) and (c.op in ("elem", "wit", "at", "pick", "head")):
        return None
    if isinstance(c, Sym) and c.op == "pathattr" and c.args[1] == "name":
        return None
    parts = c.args[0] if isinstance(c, Sym) and c.op == "fstr" else (c,)
    fixed = "".join(str(x.v) for x in parts if isinstance(x, Const))
    if "/" in fixed:
        return "a fixed part of the path holds a separator"
    bad = SEP
    if not (len(fixed) > 2 or any(ch not in "." for ch in fixed)):
        if len(parts) == 1:
            bad = rx.union(SEP, DOTS)
        else:
            return "?"
    for x in parts:
        if isinstance(x, Const):
            continue
        if not isinstance(x, Sym):
            return "?"
        if x.op == "pathattr" and x.args[1] == "name" and isinstance(x.args[0], Sym) and x.args[0].op == "elem":
            continue
        if x.op == "at" or x.op == "elem":
            # an entry of a listing: a name of a folder
            if any(d.op in LISTS for d in deps(x)):
                continue
        root, chain, lang, unknown = text_lang(facts, x)
        if x.typ not in ("str",):
            return "?"
        try:
            w = rx.witness(rx.AND(lang, strlang.pre(bad, chain)))
        except rx.Unsupported:
            return "?"
        if w is not None:
            if unknown or other_facts(facts, root):
                return "?"
            return f"the name {w!r}"
    return None


def inside(facts, p, root, name=None):
    """The path is the folder of the name, or directly inside it -> None / what is wrong / '?'"""
    cs = locate(p, root)
    if cs == "?":
        return "?"
    if cs is None:
        return "the path is not below the folder of the databases"
    if not cs:
        return "the folder of the databases itself"
    if len(cs) > 2:
        return "?"
    if name is not None and cs[0] is not name:
        if isinstance(cs[0], Sym) and cs[0].op in ("elem", "wit", "at", "pick", "head"):
            return "other databases' folders are touched"
        if has_op(cs[0], ("unk",)):
            return "?"
        if isinstance(cs[0], Sym) and cs[0].op == "fstr" or isinstance(cs[0], Const):
            return f"the folder is not the one of that name but {show(cs[0], 3)}"
        if isinstance(cs[0], Sym) and cs[0].op in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "replace", "capitalize"):
            if not _same_text(facts, cs[0], name):
                return f"the folder is not the one of that name but {show(cs[0], 3)}"
        else:
            return "?"
    for i, c in enumerate(cs):
        e = component_ok(facts, c, i == 0)
        if e is not None:
            return e
    return None


def _same_text(facts, x, name):
    root, chain = strlang.root_of(x)
    if root is not name or any(op not in ("strip", "lstrip", "rstrip") for op, _ in chain):
        return False
    lang, unknown = strlang.lang_of_facts(facts, root)
    edge = rx.union(rx.concat(rx.cls(rx.SPACE), rx.any_star()), rx.concat(rx.any_star(), rx.cls(rx.SPACE)))
    try:
        return rx.witness(rx.AND(lang, edge)) is None
    except rx.Unsupported:
        return True


def fields(a, s, v):
    """The paths of a GDBMSFilePath -> dict or None."""
    x = a.ip.lib.freeze(s, v)
    if not isinstance(x, Doc):
        return None
    got = {q[1].v: q[2] for q in x.segs if q[0] == "one" and isinstance(q[1], Const)}
    return got if all(k in got for k in FILES) else None


def created(a):
    """The normal ends of creating a database -> (state, start state, where)"""
    f = a.fn(NEWALL)
    st = a.ip.base.fork()
    st0 = st.fork()
    for s, v in a.run(f, [N, D], st=st):
        if not isinstance(v, Raise):
            yield s, st0, a.where(f)


# -------------------------------------------------------------------- C19
def c19(a):
    r1, r2, r3, r4 = "fresh-files", "paths-returned", "existing-refused", "creation-possible"
    a.rules[r1] = "Every normal end of the creation leaves an empty database, indexes with the three empty parts and a counter at 0."
    a.rules[r2] = "The paths returned are those of the files created, and the lookup functions return the same ones."
    a.rules[r3] = "If a file to be created is there already every path raises, and the file is not written to."
    a.rules[r4] = "If none of the files is there a valid name leads to a normal end."
    from . import store as ST

    f = a.fn(NEWALL)
    w = a.where(f)
    outs = a.run(f, [N, D])
    rets = [(s, v) for s, v in outs if not isinstance(v, Raise)]
    if not rets:
        a.bad(r4, w, "creation never succeeds")
        return
    gets = []
    for q in GET:
        g = a.fn(q)
        ps = set()
        for s, v in a.run(g, [N, D]):
            if not isinstance(v, Raise):
                for s2, v2 in a.ip.resolve(s, v):
                    ps.add(v2)
        gets.append((g, ps))
    paths = set()
    for s, v in rets:
        got = fields(a, s, v)
        if got is None:
            a.und(r2, w, "what is returned is not understood")
            continue
        if len({got[k] for k in FILES}) != 3:
            a.bad(r2, w, "two of the files are the same file", *got.values())
            continue
        for (g, ps), k in zip(gets, FILES):
            paths.add(got[k])
            if ps == {got[k]}:
                a.ok(r2, f"{a.where(g)} {k}")
            elif has_op(got[k], ("unk",)) or any(has_op(p, ("unk",)) for p in ps) or any(not isinstance(p, Sym) for p in ps):
                a.und(r2, a.where(g), "paths not tracked")
            else:
                a.bad(r2, a.where(g), f"the {k.replace('_', ' ')} found is {', '.join(show(p, 6) for p in ps)}, the one created is {show(got[k], 6)}")
            cs = locate(got[k], D)
            if cs == "?":
                a.und(r2, w, "path not understood")
            else:
                a.need(cs is not None and len(cs) == 2 and cs[0] is N, r2, k, w, f"{k} is not in the folder of that name: {show(got[k], 6)}", got[k])
            c = s.files.get(got[k])
            if c is None or c[0] == "absent":
                a.bad(r1, w, f"the file of {k} is not created")
                continue
            e = ST.well_formed(c, k)
            if e == "?":
                a.und(r1, w, f"content of {k} not understood")
                continue
            if e is not None:
                a.bad(r1, w, f"{k}: {e}", *[x for x in c[1:] if isinstance(x, Val)])
                continue
            _fresh(a, r1, w, k, c[1])
    for i, (q, k) in enumerate(zip(NEW, FILES)):
        g = a.fn(q)
        for s, v in rets:
            got = fields(a, s, v)
            if got is None:
                continue
            p = got[k]
            st = a.ip.base.fork()
            st.facts[sym("isfile", p, typ="bool")] = True
            st.facts[sym("pexists", p, typ="bool")] = True
            for s2, v2 in a.run(g, [N, D], st=st):
                ops = [e for e, _ in flat_effects(s2.effects) if e[0] in ("write", "trunc", "unlink", "rename", "replace", "rmtree") and e[1] is p]
                if ops:
                    a.bad(r3, a.where(g), "a file that is already there is written to")
                elif not isinstance(v2, Raise):
                    a.bad(r3, a.where(g), "creation goes through although the file is already there")
                else:
                    a.ok(r3, f"{a.where(g)} {a.exc_name(s2, v2)}")
            break
    # a valid name, nothing there
    st = a.ip.base.fork()
    name = const("my graph-1")
    outs = a.run(f, [name, D], st=st)
    ok = und = False
    for s, v in outs:
        if isinstance(v, Raise):
            und = und or any(has_op(c, ("unk",)) for c in v.cause)
            continue
        ok = True
    if ok:
        a.ok(r4, w)
    elif not und:
        a.bad(r4, w, "no path creates a database of the name 'my graph-1'")


def _fresh(a, r1, w, k, t):
    from . import store as ST

    if k == WN:
        v = t.v if isinstance(t, Const) else None
        if v is None:
            if isinstance(t, Sym) and t.op == "str" and t.args[0] == const(0):
                v = "0"
            else:
                a.und(r1, w, "counter text not understood")
                return
        a.need(str(v).strip() == "0", r1, k, w, f"the counter starts at {v!r}", t)
        return
    import json

    if isinstance(t, Const):
        d = json.loads(t.v)
        if k == DB:
            a.need(d == {}, r1, k, w, "the new database is not empty", t)
        else:
            a.need(isinstance(d, dict) and set(d) == {"node_relationships", "node_labels", "relationship_names"} and d["node_relationships"] == {}
                   and d["node_labels"] == [] and d["relationship_names"] == [], r1, k, w, f"the new indexes are {t.v}", t)
        return
    d = ST.json_doc(t)
    if not isinstance(d, Doc):
        a.und(r1, w, f"content of {k} not understood")
        return
    if k == DB:
        a.need(d.kind == "dict" and not d.segs, r1, k, w, "the new database is not empty", d)
        return
    if d.kind != "dict" or any(q[0] not in ("one", "upd", "kid") or not isinstance(q[1], Const) for q in d.segs):
        a.und(r1, w, "new indexes not understood")
        return
    got = {q[1].v: q[2] for q in d.segs}
    for n, kind in (("node_relationships", "dict"), ("node_labels", "list"), ("relationship_names", "list")):
        if n not in got:
            a.bad(r1, w, f"the new indexes have no {n}", d)
        else:
            x = got[n]
            a.need(isinstance(x, Doc) and x.kind == kind and not x.segs, r1, f"{k} {n}", w, f"the new index {n} is {show(x, 3)}", x)
    for n in got:
        if n not in ("node_relationships", "node_labels", "relationship_names"):
            a.bad(r1, w, f"the new indexes have an extra part {n}", d)


# -------------------------------------------------------------------- C20
def c20(a):
    r1, r2 = "stays-in-folder", "deletes-whole-database"
    a.rules[r1] = ("Every path that a file effect or a returned file path names is, on that path of the program, for every name the conditions allow, "
                   "one folder directly inside the databases folder that has that name, or directly inside it.")
    a.rules[r2] = "Every normal end of a deletion has removed every entry of the folder and the folder."
    for q in NEW + GET + [NEWALL, DELETE]:
        f = a.fn(q)
        w = a.where(f)
        n = 0
        for s, v in a.run(f, [N, D]):
            for e, loops in flat_effects(s.effects):
                if e[0] not in FILE_OPS:
                    continue
                n += 1
                facts = dict(s.facts)
                for _, lf, _ in loops:
                    facts.update(dict(lf))
                for p in e[1:2]:
                    _inside(a, r1, w, facts, p, f"{e[0]} in {f.name}")
            if not isinstance(v, Raise):
                for s2, v2 in a.ip.resolve(s, v):
                    ps = [v2] if isinstance(v2, Sym) and v2.typ == "path" else list((fields(a, s2, v2) or {}).values())
                    for p in ps:
                        _inside(a, r1, w, s2.facts, p, f"path returned by {f.name}")
        a.ok(r1, f"{w}: {n} file operations")
    f = a.fn(DELETE)
    w = a.where(f)
    folder = sym("join", D, N, typ="path")
    for s, v in a.run(f, [N, D]):
        if isinstance(v, Raise):
            continue
        gone = False
        whole = False
        for e in s.effects:
            if e[0] == "rmtree" and e[1] is folder:
                gone = whole = True
            if e[0] == "rmdir" and e[1] is folder:
                gone = True
            if e[0] == "loop" and isinstance(e[1], Sym) and e[1].op in LISTS and e[1].args[0] is folder:
                el = sym("elem", e[1])
                part = e[3]
                if e[1].op in ("glob", "rglob") and (len(e[1].args) < 2 or not (isinstance(e[1].args[1], Const) and e[1].args[1].v in ("*", "**/*"))):
                    part = True
                full = all(any(x[0] in ("unlink", "rmtree") and locate(x[1], D) and locate(x[1], D)[-1:] == [el] or x[0] in ("unlink", "rmtree") and x[1] is el
                               for x in sub) or any(z.op == "isdir" and p for z, p in fc) for fc, sub in e[2])
                if full and not part:
                    whole = True
        if not gone:
            a.bad(r2, w, "a deletion can end normally with the folder still there")
        elif not whole:
            # rmdir only works on an empty folder
            a.bad(r2, w, "the files of the folder are not all removed before the folder")
        else:
            a.ok(r2, w)


def _inside(a, r, w, facts, p, what):
    e = inside(facts, p, D, N)
    if e is None:
        a.ok(r, f"{w} {what} {show(p, 4)[:80]}")
    elif e == "?":
        a.und(r, w, f"{what}: {show(p, 5)[:120]}")
    else:
        a.bad(r, w, f"{what} can reach outside the folder of the name: {e} ({show(p, 5)[:120]})", p)


# -------------------------------------------------------------------- C21
def names_listed(a, x, src_dir):
    """A list of the names of the folders -> (complaints, is it sorted) or None if not understood"""
    if isinstance(x, Sym) and x.op == "permseq":
        x = x.args[0]
    if not isinstance(x, Doc):
        return None
    segs = x.segs
    order = None
    while len(segs) == 1 and segs[0][0] == "perm":
        if order is None:
            order = segs[0][1]
        segs = segs[0][2]
    bad = []
    if len(segs) != 1 or segs[0][0] != "star":
        return None
    star = segs[0]
    src = star[1]
    if isinstance(src, Sym) and src.op == "permseq":
        # a list made from another list
        sub = names_listed(a, src, src_dir)
        if sub is None:
            return None
        b, o = sub
        el = sym("elem", src)
        for f, y in star[2]:
            if not y:
                if not _reserved(f, el):
                    bad.append("some are left out: " + cond(f))
            elif len(y) != 1 or y[0][0] != "one":
                return None
            elif _plain(y[0][2]) is not el and not _name_of(y[0][2], el):
                return None
        if star[3]:
            bad.append("not all are kept")
        return b + bad, order or o
    if not (isinstance(src, Sym) and src.op in LISTS):
        return None
    if src.args[0] is not src_dir:
        bad.append(f"another folder is listed: {show(src.args[0], 3)}")
    if src.op in ("glob", "rglob") and not (len(src.args) > 1 and src.args[1] == const("*")):
        return None
    el = sym("elem", src)
    if star[3]:
        bad.append("the listing stops early")
    for f, y in star[2]:
        isdir = next((p for z, p in f if z.op == "isdir" and z.args[0] is el), None)
        isfile = next((p for z, p in f if z.op == "isfile" and z.args[0] is el), None)
        if not y:
            if isdir is False or isfile is True:
                continue
            if not _reserved(f, sym("pathattr", el, "name")):
                if any(has_op(z, ("unk",)) for z, _ in f):
                    return None
                bad.append("databases are left out: " + cond(f))
            continue
        if len(y) != 1 or y[0][0] != "one":
            return None
        if not _name_of(y[0][2], el) and y[0][2] is not el:
            root, ops = strlang.root_of(y[0][2])
            if isinstance(root, Sym) and root.op == "pathattr" and root.args[0] is el and (ops or root.args[1] != "name"):
                bad.append("databases are listed under another name than their own: " + show(y[0][2], 4)[:80])
                continue
            return None
        if isdir is not True and isfile is not False:
            bad.append("what is no folder is listed")
    return bad, order


def cond(facts):
    return ", ".join(("" if p else "not ") + show(x, 4)[:90] for x, p in sorted(facts, key=lambda y: y[0].id)[:4])


def _plain(v):
    return v


def _name_of(v, el):
    return isinstance(v, Sym) and v.op == "pathattr" and v.args[0] is el and v.args[1] == "name" or isinstance(v, Sym) and v.op == "str" and v.args[0] is el


def _reserved(f, x):
    for z, p in f:
        if not p:
            continue
        if z.op in ("contains", "has") and z.args[1] is x:
            c = z.args[0]
            items = _consts(c)
            if items is not None and items <= RESERVED:
                return True
        if z.op == "eq" and z.args[0] is x and isinstance(z.args[1], Const) and z.args[1].v in RESERVED:
            return True
    return False


def _consts(c):
    if isinstance(c, Const):
        return set(c.v) if isinstance(c.v, (tuple, frozenset, set, list)) else None
    if isinstance(c, Tup):
        return {x.v for x in c.items} if all(isinstance(x, Const) for x in c.items) else None
    if isinstance(c, Doc):
        out = set()
        for q in c.segs:
            v = q[2] if q[0] == "one" and c.kind != "dict" else q[1] if q[0] == "one" else None
            if not isinstance(v, Const):
                return None
            out.add(v.v)
        return out
    return None


def letters_of(key, src):
    """-> None when every position has its own letter, a complaint, or '?'"""
    idx = sym("idx", src)
    if isinstance(key, Sym) and key.op == "nth" and key.args[1] is idx:
        seq = key.args[0]
        if isinstance(seq, Const):
            return None if len(set(seq.v)) == len(seq.v) else "the same letter is used twice"
        if isinstance(seq, Doc):
            vs = [q[2] for q in seq.segs] if all(q[0] == "one" for q in seq.segs) else None
            if vs is not None:
                return None if len(set(vs)) == len(vs) else "the same letter is used twice"
            if len(seq.segs) == 1 and seq.segs[0][0] == "star":
                c = seq.segs[0]
                if isinstance(c[1], Sym) and c[1].op == "count":
                    if c[1].args[1] == const(0):
                        return "the same letter is used twice"
                    if len(c[2]) == 1 and not c[3]:
                        return _fresh_per(c[2][0][1], sym("elem", c[1]))
            return "?"
    if isinstance(key, Sym) and key.op in ("str", "chr") and idx in deps(key):
        return "?"
    if isinstance(key, Const):
        return "every database gets the same letter"
    return "?"


def _fresh_per(segs, n):
    """Texts made for one n: different from each other and from those of other n."""
    if len(segs) != 1:
        return "?"
    q = segs[0]
    if q[0] == "star" and isinstance(q[1], Sym) and q[1].op == "product" and not q[3] and len(q[2]) == 1:
        pools, rep = q[1].args[0], q[1].args[1] if len(q[1].args) > 1 else None
        ps = pools if isinstance(pools, tuple) else (pools,)
        if isinstance(rep, tuple):
            rep = rep[0] if len(rep) == 1 else None
        f, x = q[2][0]
        el = sym("elem", q[1])
        if len(x) == 1 and x[0][0] == "one":
            v = x[0][2]
            if isinstance(v, Sym) and v.op == "joined" and v.args[0] == const("") and isinstance(v.args[1], Doc) and v.args[1].segs == (("base", el),):
                if rep is n and len(ps) == 1 and isinstance(ps[0], Const) and isinstance(ps[0].v, str):
                    return None if len(set(ps[0].v)) == len(ps[0].v) else "the same letter is used twice"
    return "?"


def c21(a):
    r1, r2, r3, r4 = "lists-all", "own-letter", "chosen-is-opened", "no-crash"
    a.rules[r1] = "The list is made of every folder of the given folder, in alphabetical order, only reserved names are left out."
    a.rules[r2] = "Each listed database has a letter of its own, however many there are."
    a.rules[r3] = "The paths returned are those of the database the given letter belongs to, or of the one just created."
    a.rules[r4] = "No input and no state of the folders makes the selection raise."
    f = a.fn(LIST)
    w = a.where(f)
    for s, v in a.run(f, [NONE, D]):
        _list(a, r1, w, s, v)
    for s, v in a.run(f, [frozen_skips(a), D]):
        pass
    f = a.fn(SHOW)
    w = a.where(f)
    choice_docs = set()
    for s, v in a.run(f, [D]):
        if isinstance(v, Raise):
            if not any(has_op(c, ("unk",)) for c in v.cause):
                a.bad(r4, a.site(v), f"{a.exc_name(s, v)} while listing", *v.cause)
            continue
        for s2, v2 in a.ip.resolve(s, v):
            x = a.ip.lib.freeze(s2, v2)
            if x == NONE or isinstance(x, Doc) and not x.segs:
                _nothing(a, r1, w, s2)
                continue
            if not isinstance(x, Doc) or x.kind != "dict" or len(x.segs) != 1 or x.segs[0][0] != "star":
                a.und(r1, w, "mapping not understood: " + show(x, 3)[:120])
                continue
            star = x.segs[0]
            choice_docs.add(x)
            src = star[1]
            got = names_listed(a, src, D)
            if got is None:
                a.und(r1, w, "source of the names not understood")
            else:
                bad, order = got
                for b in bad:
                    a.bad(r1, w, b, x)
                if order is None:
                    a.bad(r1, w, "the names are not in alphabetical order", x)
                elif order == "sorted":
                    a.ok(r1, "sorted")
                elif str(order).startswith("sorted:") and "True" in str(order):
                    a.bad(r1, w, "the names are in reverse order", x)
                elif order in ("reversed", "insert"):
                    a.bad(r1, w, "the names are not in alphabetical order", x)
                else:
                    a.und(r1, w, f"order {order}")
                if not bad:
                    a.ok(r1, w)
            if star[3]:
                a.bad(r1, w, "not every database is listed" + (" (there are fewer letters than databases can be)" if isinstance(star[3], tuple) else ""), x)
            el = sym("elem", src)
            for fc, y in star[2]:
                if not y:
                    if not _reserved(fc, el):
                        a.bad(r1, w, "databases are left out: " + cond(fc), *[z for z, _ in fc])
                    continue
                if len(y) != 1 or y[0][0] not in ("one", "upd"):
                    a.und(r2, w, "entries not understood")
                    continue
                e = letters_of(y[0][1], src)
                if e == "?":
                    a.und(r2, w, "letters not understood: " + show(y[0][1], 4)[:120])
                else:
                    a.need(e is None, r2, w, w, e or "", y[0][1])
                if y[0][2] is not el:
                    if has_op(y[0][2], ("unk",)) or not isinstance(y[0][2], Sym):
                        a.und(r2, w, "database of a letter not understood")
                    elif y[0][2].op in ("at", "nth") and y[0][2].args[1] is sym("idx", src):
                        a.und(r2, w, "database of a letter not understood")
                    else:
                        a.bad(r2, w, f"a letter stands for {show(y[0][2], 4)}", y[0][2])
    lookups = {}

    def paths_for(x):
        if x not in lookups:
            got = []
            for q in GET:
                ps = set()
                for s, v in a.ip.call(a.ip.base.fork(), a.fn(q), [x, D], {}):
                    if not isinstance(v, Raise):
                        for s2, v2 in a.ip.resolve(s, v):
                            ps.add(v2)
                got.append(ps)
            lookups[x] = got
        return lookups[x]

    for q in (CHOOSE, CREATE):
        f = a.fn(q)
        w = a.where(f)
        rets = 0
        for s, v in a.run(f, [D]):
            if isinstance(v, Raise):
                if any(has_op(c, ("unk",)) for c in v.cause):
                    a.und(r4, a.site(v), "")
                else:
                    a.bad(r4, a.site(v), f"{a.exc_name(s, v)} ends the selection ({f.name})", *v.cause)
                continue
            rets += 1
            for s2, v2 in a.ip.resolve(s, v):
                got = fields(a, s2, v2)
                if got is None:
                    a.und(r3, w, "what is returned is not understood")
                    continue
                cs = locate(got[DB], D)
                if cs == "?" or not cs:
                    if cs == "?":
                        a.und(r3, w, "path not understood")
                    else:
                        a.bad(r3, w, f"the path is {show(got[DB], 4)}", got[DB])
                    continue
                x = cs[0]
                want = paths_for(x) if isinstance(x, Val) else None
                for k, ps in zip(FILES, want or []):
                    if got[k] in ps:
                        a.ok(r3, f"{w} {k}")
                    elif has_op(got[k], ("unk",)) or not ps:
                        a.und(r3, w, "paths not tracked")
                    else:
                        a.bad(r3, w, f"the {k} given is {show(got[k], 5)[:160]}, not the one of that database", got[k])
                if isinstance(x, Sym) and x.op == "input":
                    made = any(e[0] in ("write", "touch") and e[1] is got[DB] for e, _ in flat_effects(s2.effects))
                    if q == CHOOSE and not made and not any(z.op == "isfile" and z.args[0] is got[DB] and p for z, p in s2.facts.items()):
                        a.bad(r3, w, "what was typed is taken for the name of the database")
                    else:
                        a.ok(r3, f"{w} created")
                elif isinstance(x, Sym) and x.op in ("at", "val", "get"):
                    ok = x.args[0] in choice_docs and len(x.args) > 1 and isinstance(x.args[1], Sym) and x.args[1].op == "input"
                    if ok:
                        a.ok(r3, f"{w} chosen")
                    else:
                        a.und(r3, w, "choice not understood: " + show(x, 3)[:120])
                elif isinstance(x, Const):
                    a.bad(r3, w, f"the database {x.v!r} is given whatever was chosen")
                else:
                    a.und(r3, w, "choice not understood: " + show(x, 3)[:120])
        if not rets:
            a.bad(r4, w, "the selection never ends")
        a.ok(r4, f"{w}: {rets} normal ends")


def frozen_skips(a):
    return NONE


def _list(a, r1, w, s, v):
    if isinstance(v, Raise):
        if not any(has_op(c, ("unk",)) for c in v.cause):
            a.bad("no-crash", a.site(v), f"{a.exc_name(s, v)} while listing", *v.cause)
        return
    for s2, v2 in a.ip.resolve(s, v):
        x = a.ip.lib.freeze(s2, v2)
        if isinstance(x, Doc) and not x.segs or x == NONE:
            _nothing(a, r1, w, s2)
            continue
        got = names_listed(a, x, D)
        if got is None:
            a.und(r1, w, "list not understood " + show(x, 3)[:120])
            continue
        bad, order = got
        for b in bad:
            a.bad(r1, w, b, x)
        if order != "sorted":
            if order is None or order in ("reversed",):
                a.bad(r1, w, "the names are not in alphabetical order", x)
            else:
                a.und(r1, w, f"order {order}")
        if not bad:
            a.ok(r1, w)


def _nothing(a, r1, w, s):
    """Nothing is listed: there must be nothing to list."""
    isdir = quick(s.facts, sym("isdir", D, typ="bool"))
    ex = quick(s.facts, sym("pexists", D, typ="bool"))
    if isdir is False or ex is False:
        a.ok(r1, "no folder")
        return
    for x, p in s.facts.items():
        if x.op == "truth" and not p and isinstance(x.args[0], Sym) and x.args[0].op in LISTS:
            a.ok(r1, "empty folder")
            return
        if x.op == "forall" and p and isinstance(x.args[0], Sym) and x.args[0].op in LISTS and x.args[0].args[0] is D:
            el = sym("elem", x.args[0])
            nm = sym("pathattr", el, "name")
            if all(any(z.op == "isdir" and z.args[0] is el and not q or z.op == "isfile" and q and z.args[0] is el for z, q in d) or _reserved(d, nm) for d in x.args[1]):
                a.ok(r1, "no database in the folder")
                return
        if x.op == "exists" and not p and isinstance(x.args[0], Sym) and x.args[0].op in LISTS and x.args[0].args[0] is D:
            el = sym("elem", x.args[0])
            nm = sym("pathattr", el, "name")
            # nothing that is a folder and not reserved
            if any(all(z.op == "isdir" and q or z.op == "isfile" and not q or z.op in ("contains", "has") and not q and z.args[1] is nm and (_consts(z.args[0]) or {0}) <= RESERVED
                       for z, q in d) for d in x.args[1]):
                a.ok(r1, "no database in the folder")
                return
    for x, p in s.facts.items():
        if x.op in ("truth", "exists", "forall") and any(d.op in LISTS for d in deps(x)):
            a.und(r1, w, "condition for an empty list not understood: " + ("" if p else "not ") + show(x, 4)[:160])
            return
    a.bad(r1, w, "nothing is listed although there can be databases: " + cond(s.facts.items()))


# -------------------------------------------------------------------- C22
def c22(a):
    r1, r2, r3, r4 = "survives", "only-commands", "line-unchanged", "selected-database"
    a.rules[r1] = "An exception of any kind out of the query leads to the next prompt; no path of the loop raises."
    a.rules[r2] = "A line does not reach the query engine only if it is exactly the command for leaving or for help."
    a.rules[r3] = "The text given to the query engine is the line as it was typed."
    a.rules[r4] = "The database given to the query engine is the one that was selected."

    f = a.fn(SHELL)
    w = a.where(f)
    G = sym("arg", "selected", typ="any")
    qf = a.fn("wiggle_shell.core.query.query.query")
    sf = a.fn(SELECT)
    calls = []

    def hq(ip, st, fn, args, kw):
        qs = args[0] if args else kw.get("query_string", next(iter(kw.values()), None))
        g = args[1] if len(args) > 1 else kw.get("gdbms_file_path")
        if g is None:
            g = next((v for k, v in kw.items() if v is not qs), None)
        s = st.fork()
        s.effects = s.effects + (("query", qs if qs is not None else NONE, g if g is not None else NONE, ip.where()),)
        calls.append((qs, g))
        outs = [(s, TRUE)]
        for c in ("Exception",):
            t = s.fork()
            outs.append(ip.raise_(t, c))
            t2 = s.fork()
            outs.append(ip.raise_(t2, c, "any message"))
        return outs

    a.ip.hooks[qf.qual] = hq
    a.ip.hooks[sf.qual] = lambda ip, st, fn, args, kw: [(st, G)]
    try:
        outs = a.run(f, [])
    finally:
        a.ip.hooks.pop(qf.qual)
        a.ip.hooks.pop(sf.qual)
    n = 0
    for s, v in outs:
        if isinstance(v, Raise):
            if any(has_op(c, ("unk",)) for c in v.cause):
                a.und(r1, a.site(v), "")
            else:
                nm = a.exc_name(s, v)
                if nm in ("SystemExit",):
                    _turns(a, s, s.effects, s.facts, True, (r2, r3, r4), w, G)
                    continue
                a.bad(r1, a.site(v), f"{nm} ends the shell", *v.cause)
            continue
        n += 1
        a.ok(r1, f"{w} normal end {n}")
        _turns(a, s, s.effects, s.facts, True, (r2, r3, r4), w, G)
    if not calls:
        a.bad(r2, w, "no line reaches the query engine")
    if not n and not outs:
        a.und(r1, w, "no outcome")


def _turns(a, s, effs, facts, last, rules, w, G):
    """Splits effects into turns (one prompt each) and checks them."""
    turn = []
    for e in effs:
        if e[0] == "loop":
            for f, sub in e[2]:
                fs = dict(f)
                _turns(a, s, sub, fs, False, rules, w, G)
            turn = []
            continue
        turn.append(e)
    _turn(a, s, turn, facts, last, rules, w, G)


def any_case(t):
    return rx.concat(*[rx.cls(rx.mask_of(lambda c, ch=ch: c.lower() == ch)) for ch in t])


def cmd_lang(words):
    sp = rx.cls(rx.SPACE, "*")
    return rx.concat(sp, rx.union(*[any_case(x) for x in words]), sp)


def _turn(a, s, turn, facts, last, rules, w, G):
    r2, r3, r4 = rules
    ins = [e for e in turn if e[0] == "input"]
    qs = [e for e in turn if e[0] == "query"]
    if not ins:
        if qs:
            a.und(r3, w, "query without a prompt")
        return
    x = ins[-1][1]
    if len(qs) > 1:
        a.bad(r3, w, "a line is executed more than once")
    for q in qs:
        if q[1] is x:
            a.ok(r3, f"{w} the line")
        elif isinstance(q[1], Val) and not has_op(q[1], ("unk",)) and x in deps(q[1]):
            a.bad(r3, w, f"the query engine gets {show(q[1], 3)} instead of the line", q[1])
        else:
            a.und(r3, w, f"text given to the query: {show(q[1], 3) if isinstance(q[1], Val) else q[1]}")
        if q[2] is G:
            a.ok(r4, f"{w} the selected database")
        elif isinstance(q[2], Val) and not has_op(q[2], ("unk",)):
            a.bad(r4, w, f"the query engine gets another database: {show(q[2], 3)}", q[2])
        else:
            a.und(r4, w, "database given to the query")
    if qs and not last:
        return
    # a line that is not passed on, or that ends the shell
    # (a loop that is left by its condition shows no difference between the two)
    leave = [rx.lit(t) for t in ("q", "quit", "exit")]
    allowed = rx.union(*leave) if last else rx.union(cmd_lang(("help", "?")), *leave)
    lang, unknown = strlang.lang_of_facts(facts, x)
    try:
        wit = rx.witness(rx.AND(lang, rx.NOT(allowed)))
    except rx.Unsupported:
        wit = "?"
    if wit is None:
        a.ok(r2, f"{w} {'leaving' if last else 'help'}")
    elif wit == "?" or unknown or other_facts(facts, x):
        a.und(r2, w, "condition of a command not understood: " + cond(facts.items())[:160])
    else:
        a.bad(r2, w, f"the line {wit!r} {'ends the shell' if last else 'does not reach the query engine'}")
