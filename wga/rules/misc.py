"""Rules about imports, model constructors and the cost of patterns."""
from .. import rx
from ..ana import *
from ..interp import RegexV

TOUCH = {"open", "read", "write", "trunc", "touch", "unlink", "rename", "replace", "rmtree", "rmdir", "copy"}
HARMLESS = (".log", ".md", ".toml", ".cfg", ".ini", ".yml", ".yaml", ".txt.tmp")
PARSE = "wiggle_shell.core.query.query.parse_query_string"


# -------------------------------------------------------------------- C23
def c23(a):
    r1, r2, r3 = "import-touches-nothing", "import-starts-nothing", "script-only"
    a.rules[r1] = "No statement executed by importing a module opens, reads, changes or removes a file of a database."
    a.rules[r2] = "No statement executed by importing a module reads a line from the user, runs a query or starts the shell."
    from . import select as S

    for m, effs in sorted({**a.ip.import_effects, **_other_names(a)}.items()):
        if m == "!":
            for name, what in effs:
                a.und(r1, name, f"importing it has more than one outcome: {what}")
            continue
        n = 0
        for e, _ in flat_effects(effs):
            n += 1
            if e[0] in TOUCH:
                p = e[1]
                nm = _last(p)
                if nm is not None and nm.endswith(HARMLESS):
                    continue
                a.bad(r1, _mod(a, m), f"importing it does: {e[0]} {show(p, 4)[:120]}" + _at(e), p)
            elif e[0] == "input":
                a.bad(r2, _mod(a, m), "importing it asks for input" + _at(e))
        a.ok(r1, f"{m}: {n} effects")
    for q in ("wiggle_shell.core.query.query.query", "wiggle_shell.core.query.query.execute_query", S.SHELL, S.SELECT, S.CREATE, S.NEWALL, S.DELETE,
              "wiggle_query_language.clauses.make.make.make", "wiggle_query_language.clauses.find.find.find"):
        try:
            f = a.fn(q)
        except Undecided:
            continue
        if f.qual in a.ip.funcs_seen:
            a.bad(r2, a.where(f), "the function runs when the program's modules are imported")
        else:
            a.ok(r2, a.where(f))


def _other_names(a):
    """What the parts of a module that ask for its name do when it is imported by its own name alone."""
    import ast
    res = {}
    for m, fid in sorted(a.ip.modfid.items()):
        last = m.rsplit(".", 1)[-1]
        if last == m or m not in a.ip.src.files:
            continue
        for n in a.ip.src.files[m][1].body:
            if not (isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))):
                continue
            st = a.ip.base.fork()
            st.frames[fid] = {**st.frames[fid], "__name__": const(last)}
            k = len(st.effects)
            saved = (a.ip.site, a.ip.stack)
            a.ip.stack = [("import", m)]
            try:
                outs = a.ip.block([n], st, fid)
            except Undecided:
                continue
            finally:
                a.ip.site, a.ip.stack = saved
            res[m + " as " + last] = tuple(e for s, _ in outs for e in s.effects[k:])
    return res


def _mod(a, m):
    m = m.split(" as ")[0]
    for rel in a.ip.src.files:
        if rel[:-3].replace("/", ".").replace(".__init__", "") == m:
            return rel
    return m


def _last(p):
    if isinstance(p, Const):
        return str(p.v)
    if isinstance(p, Sym) and p.op == "join":
        return _last(p.args[1])
    if isinstance(p, Sym) and p.op == "fstr":
        return _last(p.args[0][-1])
    return None


def _at(e):
    w = e[-1]
    try:
        s = w[0] if isinstance(w[0], tuple) else w
        return f" (at {s[0]}:{s[1]})"
    except Exception:
        return ""


# -------------------------------------------------------------------- C29
def c29(a):
    r = "no-exponential-pattern"
    a.rules[r] = ("The automaton of the pattern has no state with two different loops over one text (exponential ambiguity), "
                  "so that a backtracking matcher is bounded by a polynomial.")
    pats = {}
    for m, fid in sorted(a.ip.modfid.items()):
        for n, v in a.ip.base.frames[fid].items():
            if isinstance(v, RegexV):
                pats.setdefault((v.pattern, v.flags), f"{_mod(a, m)} {n}")
    try:
        for q in (PARSE,):
            a.run(q, [a.Q])
        for cls in ("ParsedMake", "ParsedFind", "ParsedReport", "ParsedPattern"):
            c = a.fn("models.wql.parsing.parsed_query." + cls)
            for n, spec in c.fields.items():
                pass
    except (Undecided, Budget) as e:
        a.und(r, "parsing", str(e))
    for R, name, symb in a.ip.regex_used:
        pats.setdefault((R.pattern, R.flags), f"pattern used with {name}")
    done = set()
    for (p, f), w in sorted(pats.items(), key=lambda x: x[1]):
        key = (p, f)
        if key in done:
            continue
        done.add(key)
        try:
            why = rx.exponential(rx.pattern(p, f).expr)
        except rx.Unsupported as e:
            a.und(r, w, f"pattern not supported: {e}")
            continue
        a.need(why is None, r, f"{w}: {p[:60]}", w, f"{why} in {p[:160]!r}")


# -------------------------------------------------------------------- C26
def has_eq(d, x, y, pol):
    for z, p in d.items() if isinstance(d, dict) else d:
        if z.op == "eq" and p is pol and {z.args[0], z.args[1]} == {x, y}:
            return True
    return False


def c26(a):
    r1, r2, r3, r4 = "no-self-relationship", "no-foreign-relationship", "no-repeated-handle", "rest-accepted"
    a.rules[r4] = "Apart from those refusals the constructors complete."
    a.rules[r1] = "A Relationship is constructed exactly on the paths on which its two nodes differ; else RelationshipToFromError."
    a.rules[r2] = "A Node is constructed exactly if every relationship in its list starts or ends at it; else NodeHasUnrelatedRelationship."
    a.rules[r3] = "A ParsedPattern with one handle at any two of its five places is refused with MakeDuplicateHandlesError; others are constructed."
    ip = a.ip
    R = a.fn("models.wql.data.relationship.Relationship")
    M = a.fn("models.wql.data.wiggle_metadata.WiggleGraphMetalData")
    ND = a.fn("models.wql.data.node.Node")
    PP = a.fn("models.wql.parsing.parsed_query.ParsedPattern")
    wn = sym("arg", "wn", typ="int")

    def meta(st):
        outs = [(s, v) for s, v in ip.call(st, M, [], {"wn": wn}) if not isinstance(v, Raise)]
        if len(outs) != 1:
            raise Undecided("metadata of an item")
        return outs[0]

    A, B = sym("arg", "from_node", typ="int"), sym("arg", "to_node", typ="int")
    eq = sym("eq", *sorted([A, B], key=lambda x: x.id), typ="bool")
    w = "models/wql/data/relationship.py Relationship"
    base = dict(relationship_name=sym("arg", "rel_name", typ="ostr"), properties=NONE)

    def same(s):
        if has_eq(s.facts, A, B, True):
            return True
        if has_eq(s.facts, A, B, False):
            return False
        return None

    st, m = meta(ip.base.fork())
    good = False
    for s, v in a.run(R, [], {**base, "relationship_metadata": m, "wn_from_node": A, "wn_to_node": B}, st=st):
        e = same(s)
        unk = any(has_op(x, ("unk",)) for x in s.facts)
        if isinstance(v, Raise):
            nm = a.exc_name(s, v)
            if e is True:
                a.need(nm == "RelationshipToFromError", r1, "refused", w, f"a relationship from a node to itself raises {nm}", *v.cause)
            elif unk or any(has_op(c, ("unk",)) for c in v.cause):
                a.und(r4, w, f"{nm} on a condition that is not understood")
            else:
                a.bad(r4, a.site(v), f"{nm} although the two nodes may differ", *s.facts)
        else:
            if e is False:
                good = True
                a.ok(r1, "constructed for different nodes")
            elif unk:
                a.und(r1, w, "condition not understood")
            else:
                a.bad(r1, w, "a relationship from a node to itself is constructed", *s.facts)
    # the same number given twice
    st, m = meta(ip.base.fork())
    for s, v in a.run(R, [], {**base, "relationship_metadata": m, "wn_from_node": A, "wn_to_node": A}, st=st):
        if not isinstance(v, Raise):
            a.bad(r1, w, "a relationship from a node to itself is constructed", *s.facts)
        else:
            a.need(a.exc_name(s, v) == "RelationshipToFromError", r1, "refused", w, f"a self relationship raises {a.exc_name(s, v)}", *v.cause)

    # --- nodes
    w = "models/wql/data/node.py Node"
    n = ip.pyd.symbolic("any_node", ND)
    rels = ip.pyd.sym_field(n, ND, "relations")
    el = sym("elem", rels)
    st, m = meta(ip.base.fork())
    nb = dict(node_metadata=m, node_label=sym("arg", "label", typ="str"), properties=NONE)
    own = ("wn_from_node", "wn_to_node")

    def about(x):
        """which end of which relationship -> (object, field)"""
        for z in deps(x):
            if z.op == "attr" and isinstance(z.args[1], Const) and z.args[1].v in own:
                yield z.args[0], z.args[1].v

    def related(d):
        # (of the relationship at hand, not merely of some relationship)
        return any(z.op == "eq" and p and wn in z.args and any(isinstance(y, Sym) and y.op == "attr" and y.args[1].v in own
                                                               and not (isinstance(y.args[0], Sym) and y.args[0].op == "wit") for y in z.args) for z, p in d)

    def unrelated(facts):
        """a relationship for which both ends are known to be others"""
        ends = {}
        for z, p in facts.items():
            if z.op == "eq" and not p and wn in z.args:
                for y in z.args:
                    if isinstance(y, Sym) and y.op == "attr" and y.args[1].v in own:
                        ends.setdefault(y.args[0], set()).add(y.args[1].v)
        return any(len(v) == 2 for v in ends.values())

    for n_, p_ in ((sym("isnone", rels, typ="bool"), False), (truthy(rels), True)):
        st.facts[n_] = p_
    for s, v in a.run(ND, [], {**nb, "relations": rels}, st=st):
        if isinstance(v, Raise):
            nm = a.exc_name(s, v)
            if any(z.op == "coerces" and not p for z, p in s.facts.items()):
                continue
            if unrelated(s.facts):
                a.need(nm == "NodeHasUnrelatedRelationship", r2, "refused", w, f"a relationship of another node raises {nm}", *v.cause)
            elif any(has_op(x, ("unk",)) for x in s.facts) or any(has_op(c, ("unk",)) for c in v.cause):
                a.und(r4, w, f"{nm} on a condition that is not understood")
            elif any(z.op in ("exists", "forall") and z.args[0] is rels for z in s.facts):
                # is the condition one that related relationships cannot meet?
                ex = [z for z, p in s.facts.items() if z.op == "exists" and p and z.args[0] is rels]
                if ex and all(_unrel(d, wn, own) for z in ex for d in z.args[1]):
                    a.need(nm == "NodeHasUnrelatedRelationship", r2, "refused", w, f"a relationship of another node raises {nm}")
                else:
                    a.und(r4, w, "condition not understood")
            else:
                a.bad(r4, a.site(v), f"{nm} although every relationship may be one of this node", *s.facts)
        else:
            f = s.facts
            if f.get(sym("isnone", rels, typ="bool")) is True or quick(f, sym("isnone", rels, typ="bool")) is True or quick(f, truthy(rels)) is False:
                a.ok(r2, "no relationships")
                continue
            al = [z for z, p in f.items() if z.op == "forall" and p and z.args[0] is rels]
            ex = [z for z, p in f.items() if z.op == "exists" and not p and z.args[0] is rels]
            if any(all(related(d) for d in z.args[1]) for z in al):
                a.ok(r2, "every relationship checked")
            elif any(any(_unrel_exact(d, wn, own) for d in z.args[1]) for z in ex):
                a.ok(r2, "every relationship checked")
            elif any(has_op(x, ("unk",)) for x in f):
                a.und(r2, w, "condition not understood")
            elif al and any(any(wn in deps(z) for z, _ in d) for y in al for d in y.args[1]) and all(any(wn in deps(z) and z.op != "eq" for z, _ in d) or related(d) for y in al for d in y.args[1]):
                a.und(r2, w, "condition not understood")
            else:
                a.bad(r2, w, "a node is constructed although not every relationship in its list is known to be one of its own", *f)

    for x in (NONE, "empty"):
        st, m = meta(ip.base.fork())
        v0 = NONE if x is NONE else ip.new_list(st, [])
        for s, v in ip.call(st, ND, [], {**nb, "node_metadata": m, "relations": v0}):
            if isinstance(v, Raise):
                a.bad(r4, a.site(v), f"a node without relationships raises {a.exc_name(s, v)}", *v.cause)
            else:
                a.ok(r4, "no relationships")

    # --- patterns
    w = "models/wql/parsing/parsed_query.py ParsedPattern"
    hs = [k for k in PP.fields if k.endswith("_handle")]
    labels = [k for k in PP.fields if k.endswith(("_label", "_props"))]
    if len(hs) < 5:
        a.und(r3, w, f"handle fields: {hs}")
    h = sym("arg", "handle", typ="str")
    for i, x in enumerate(hs):
        for y in hs[i + 1:]:
            for others in (None, "distinct", "labels"):
                st = ip.base.fork()
                st.facts[truthy(h)] = True
                kw = {k: NONE for k in PP.fields}
                if others == "distinct":
                    kw.update({k: const(f"o{j}") for j, k in enumerate(hs)})
                elif others == "labels":
                    kw.update({k: sym("arg", "v_" + k, typ="ostr") for k in labels})
                kw[x] = kw[y] = h
                for s, v in ip.call(st, PP, [], kw):
                    if isinstance(v, Raise):
                        nm = a.exc_name(s, v)
                        if any(has_op(c, ("unk",)) for c in v.cause):
                            a.und(r3, w, "")
                        else:
                            a.need(nm == "MakeDuplicateHandlesError", r3, f"{x} {y}", w, f"the same handle at {x} and {y} raises {nm}")
                    elif any(has_op(z, ("unk",)) for z in s.facts):
                        a.und(r3, w, "condition not understood")
                    else:
                        a.bad(r3, w, f"a pattern with the same handle at {x} and {y} is constructed" + (" (there are others)" if others == "distinct" else ""), *s.facts)
    for kw in ({k: NONE for k in PP.fields}, {k: const(f"h{i}") for i, k in enumerate(PP.fields)},
               {k: const("h%d" % i) if k in hs else const("same") for i, k in enumerate(PP.fields)},
               {k: const("h0") if k == hs[0] or k in labels else NONE for k in PP.fields}):
        for s, v in ip.call(ip.base.fork(), PP, [], dict(kw)):
            if isinstance(v, Raise):
                if any(has_op(c, ("unk",)) for c in v.cause) or any(has_op(z, ("unk",)) for z in s.facts):
                    a.und(r3, w, "")
                else:
                    a.bad(r4, a.site(v), f"a pattern whose handles all differ raises {a.exc_name(s, v)}")
            else:
                a.ok(r4, "handles that differ")


def _unrel(d, wn, own):
    n = set()
    for z, p in d:
        if z.op == "eq" and not p and wn in z.args:
            for y in z.args:
                if isinstance(y, Sym) and y.op == "attr" and y.args[1].v in own:
                    n.add(y.args[1].v)
    return len(n) == 2


def _unrel_exact(d, wn, own):
    return _unrel(d, wn, own) and len(d) == 2
