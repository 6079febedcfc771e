"""Facts about texts as regular languages.

A condition on a text that came out of the program (`x.strip() == ""`,
`x[-1] == ">"`, `"/" in x`, a pattern that matched, ...) is the regular language
of the texts for which it is true.  Questions about conditions become questions
about languages and are answered on automata.
"""
from . import rx
from .terms import *

MAXSTATES = 260


def _state():
    from . import state

    return state


def root_of(v):
    """The text a chain of simple operations starts from."""
    chain = []
    while isinstance(v, Sym):
        if v.op in ("strip", "lstrip", "rstrip"):
            if len(v.args) > 1 and not (isinstance(v.args[1], Const) and (v.args[1].v is None or isinstance(v.args[1].v, str))):
                return v, chain
            chain.append((v.op, v.args[1].v if len(v.args) > 1 else None))
            v = v.args[0]
        elif v.op in ("lower", "upper", "casefold"):
            chain.append((v.op, None))
            v = v.args[0]
        else:
            break
    return v, chain


def _charmap_pre(n, f):
    maps = []
    for c in rx.ALPHABET:
        d = f(c)
        maps.append(d)

    def m2(mask):
        out = 0
        for i, d in enumerate(maps):
            if len(d) == 1 and d in rx._INDEX and mask >> rx._INDEX[d] & 1:
                out |= 1 << i
        return out

    r = rx.NFA([[(m2(m), t) for m, t in ts if m2(m)] for ts in n.trans], set(n.final), n.exact)
    return r


def pre(lang, chain):
    """The language of the root, given the language of root.chain()."""
    for op, arg in chain:
        n = rx.determinise(lang) if not isinstance(lang, rx.NFA) else lang
        if op in ("strip", "lstrip", "rstrip"):
            mask = rx.SPACE if arg is None else rx.mask_of(lambda c: c in arg)
            if op in ("strip", "rstrip"):
                n = rx.rstrip_pre(n, mask)
            if op in ("strip", "lstrip"):
                n = rx.lstrip_pre(n, mask)
            lang = n
        else:
            f = {"lower": str.lower, "upper": str.upper, "casefold": str.casefold}[op]
            lang = _charmap_pre(n, f)
    return lang


def _lits(v):
    """Constant texts of a constant or of a collection of constants."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return [v.v]
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            if not (isinstance(x, Const) and isinstance(x.v, str)):
                return None
            out.append(x.v)
        return out
    if isinstance(v, Doc):
        out = []
        for s in v.segs:
            if s[0] != "one":
                return None
            x = s[1] if v.kind in ("set", "dict") else s[2]
            if not (isinstance(x, Const) and isinstance(x.v, str)):
                return None
            out.append(x.v)
        return out
    return None


def _all_of(pred, nonempty=True):
    return rx.cls(rx.mask_of(pred), "+" if nonempty else "*")


LOWERC = rx.mask_of(lambda c: c.islower())
UPPERC = rx.mask_of(lambda c: c.isupper())


def atom_lang(atom):
    """-> (root, language of the root for which the atom is true) or None."""
    try:
        return _atom_lang(atom)
    except rx.Unsupported:
        return None


BOOLS = ("contains", "startswith", "endswith", "isupper", "islower", "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isidentifier", "isascii", "istitle")
CHANGES = {"upper": str.upper, "lower": str.lower, "casefold": str.casefold}


def _pair(a, b):
    """The text two compared values are about, if it is one."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and x.op in CHANGES and x.args[0] is y:
            return y
    if isinstance(a, Sym) and isinstance(b, Sym) and a.op in BOOLS and b.op in BOOLS:
        r, q = text_root(a), text_root(b)
        if r is not None and r is q:
            return r
    if isinstance(b, Const) and type(b.v) is int and isinstance(a, Sym):
        if a.op == "ccount" and 0 <= b.v <= 3:
            return a.args[0]
        if a.op == "plus":
            r = {text_root(x) if isinstance(x, Sym) and x.op in BOOLS else None for x in a.args}
            if len(r) == 1:
                return r.pop()
    return None


def _two(a, b):
    t = _pair(a, b)
    if t is None:
        return None
    root, chain = root_of(t)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and x.op in CHANGES and x.args[0] is y:
            f = CHANGES[x.op]
            return root, pre(rx.cls(rx.mask_of(lambda c: f(c) == c), "*"), chain)
    if isinstance(a, Sym) and a.op == "ccount":
        one, rest = rx.cls(a.args[1]), rx.cls(rx.FULL & ~a.args[1], "*")
        return root, pre(rx.concat(rest, *[y for _ in range(b.v) for y in (one, rest)]), chain)
    bools = [a, b] if not isinstance(b, Const) else list(a.args)
    ls = []
    for x in bools:
        r = atom_lang(x)
        if r is None:
            return None
        ls.append(r[1])
    out = []
    for n in range(1 << len(ls)):
        on = [bool(n >> i & 1) for i in range(len(ls))]
        if on[0] != on[-1] if not isinstance(b, Const) else sum(on) != b.v:
            continue
        out.append(rx.AND(*[l if p else rx.NOT(l) for l, p in zip(ls, on)]))
    return (bools and text_root(bools[0])), rx.OR(*out)


def _atom_lang(atom):
    op = atom.op
    if op == "truth":
        x = atom.args[0]
        if isinstance(x, Sym) and x.op in ("search", "match", "fullmatch", "finditer"):
            R, s = x.args[0], x.args[1]
            st = _state()
            p = st.pat(R)
            if p is None:
                return None
            root, chain = root_of(s)
            n = p.nfa()
            if len(n.trans) > MAXSTATES:
                return None
            if not n.exact:
                return None
            if x.op in ("search", "finditer"):
                l = rx.contains(n)
            elif x.op == "match":
                l = rx.concat(n, rx.any_star())
            else:
                l = n
            return root, pre(l, chain)
        if isinstance(x, Sym) and x.op == "slice":
            return None
        root, chain = root_of(x)
        if not isinstance(root, Sym) or root.typ not in ("str", "ostr", "any"):
            return None
        return root, pre(rx.concat(rx.cls(rx.FULL), rx.any_star()), chain)
    if op == "eq":
        a, b = atom.args
        two = _two(a, b)
        if two is not None:
            return two
        if not (isinstance(b, Const) and isinstance(b.v, str)) or not isinstance(a, Sym):
            return None
        if a.op == "item" and isinstance(a.args[1], Const) and a.args[1].v in (0, -1) and type(a.args[1].v) is int:
            root, chain = root_of(a.args[0])
            if len(b.v) != 1:
                return None
            l = rx.concat(rx.lit(b.v), rx.any_star()) if a.args[1].v == 0 else rx.concat(rx.any_star(), rx.lit(b.v))
            return root, pre(l, chain)
        root, chain = root_of(a)
        if not isinstance(root, Sym) or root.typ not in ("str", "ostr", "any"):
            return None
        return root, pre(rx.lit(b.v), chain)
    if op == "contains":  # args: container, item
        a, b = atom.args
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Sym):
            root, chain = root_of(a)
            if root.typ not in ("str", "ostr"):
                return None
            return root, pre(rx.contains(rx.lit(b.v)), chain)
        ls = _lits(a)
        if ls is None:
            return None
        if isinstance(a, Const):
            # `x in "abc"`: every substring
            subs = {a.v[i:j] for i in range(len(a.v) + 1) for j in range(i, len(a.v) + 1)}
            ls = sorted(subs)
            if len(ls) > 200:
                return None
        if isinstance(b, Sym) and b.op == "item" and isinstance(b.args[1], Const) and b.args[1].v in (0, -1) and type(b.args[1].v) is int:
            root, chain = root_of(b.args[0])
            m = rx.mask_of(lambda c: c in ls)
            l = rx.concat(rx.cls(m), rx.any_star()) if b.args[1].v == 0 else rx.concat(rx.any_star(), rx.cls(m))
            return root, pre(l, chain)
        if not isinstance(b, Sym):
            return None
        root, chain = root_of(b)
        return root, pre(rx.union(*[rx.lit(x) for x in ls]), chain)
    if op in ("startswith", "endswith"):
        a, b = atom.args
        ls = _lits(b)
        if ls is None or not isinstance(a, Sym):
            return None
        root, chain = root_of(a)
        u = rx.union(*[rx.lit(x) for x in ls])
        l = rx.concat(u, rx.any_star()) if op == "startswith" else rx.concat(rx.any_star(), u)
        return root, pre(l, chain)
    if op in ("isupper", "islower"):
        a = atom.args[0]
        root, chain = root_of(a)
        good, bad = (UPPERC, LOWERC) if op == "isupper" else (LOWERC, UPPERC)
        rest = rx.FULL & ~bad
        l = rx.concat(rx.cls(rest, "*"), rx.cls(good), rx.cls(rest, "*"))
        return root, pre(l, chain)
    if op in ("isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isascii"):
        a = atom.args[0]
        root, chain = root_of(a)
        return root, pre(_all_of(lambda c: getattr(c, op)(), op != "isascii"), chain)
    if op == "istitle":
        root, chain = root_of(atom.args[0])
        u, l, n = UPPERC, LOWERC, rx.FULL & ~(UPPERC | LOWERC)
        return root, pre(rx.NFA([[(n, 0), (u, 2)], [(n, 1), (u, 2)], [(l, 2), (n, 1)]], {1, 2}), chain)
    if op == "isidentifier":
        root, chain = root_of(atom.args[0])
        w = rx.mask_of(lambda c: c == "_" or c.isalnum())
        f = rx.mask_of(lambda c: c == "_" or c.isalpha())
        return root, pre(rx.concat(rx.cls(f), rx.cls(w, "*")), chain)
    return None


_BASE = {}


def base_lang(root):
    """(language, is it exactly the possible texts) of a text taken from a match."""
    if isinstance(root, Sym) and root.op == "group":
        st = _state()
        R, _ = st.match_regex(root.args[0])
        k = (R, root.args[1])
        if k not in _BASE:
            p = st.pat(R) if R is not None else None
            try:
                n = (p.nfa() if root.args[1] == 0 else p.group_nfa(root.args[1])) if p is not None else None
                if n is not None and len(n.trans) > MAXSTATES:
                    n = None
            except Exception:
                n = None
            _BASE[k] = n
        return _BASE[k]
    return None


def changed(op):
    """Texts that the operation alters."""
    if op[0] in ("strip", "lstrip", "rstrip"):
        mask = rx.SPACE if op[1] is None else rx.mask_of(lambda c: c in op[1])
        l = []
        if op[0] != "rstrip":
            l.append(rx.concat(rx.cls(mask), rx.any_star()))
        if op[0] != "lstrip":
            l.append(rx.concat(rx.any_star(), rx.cls(mask)))
        return rx.union(*l)
    if op[0] in ("lower", "upper", "casefold"):
        f = {"lower": str.lower, "upper": str.upper, "casefold": str.casefold}[op[0]]
        return rx.concat(rx.any_star(), rx.cls(rx.mask_of(lambda c: f(c) != c)), rx.any_star())
    if op[0] == "replace":
        if op[1] == op[2]:
            return rx.cls(0)
        return rx.contains(rx.lit(op[1]))
    if op[0] == "slice":
        a, b, step = op[1:]
        if (a, b, step) == (None, None, None):
            return rx.cls(0)
        return rx.concat(rx.cls(rx.FULL), rx.any_star())
    raise rx.Unsupported(op[0])


_KEEPS = {}


def keeps(x, op):
    """Does the operation leave a text of a match as it is, whatever was matched?"""
    k = (x, op)
    if k not in _KEEPS:
        _KEEPS[k] = False
        try:
            b = base_lang(x)
            if b is not None:
                _KEEPS[k] = rx.witness(rx.AND(b, changed(op))) is None
        except rx.Unsupported:
            pass
    return _KEEPS[k]


HOLE = sym("hole", typ="str")
_CACHE = {}
_LANGS = {}


_NORMS = {}


def _norm(atom, root):
    k = (atom, root)
    r = _NORMS.get(k)
    if r is None:
        r = _NORMS[k] = Subst({root: HOLE})(atom)
    return r


def lang_of_normal(atom):
    """Language of an atom whose text is HOLE (cached)."""
    if atom not in _LANGS:
        r = atom_lang(atom)
        _LANGS[atom] = r[1] if r is not None and r[0] is HOLE else None
    return _LANGS[atom]


TEXTOPS = (
    "truth", "eq", "contains", "startswith", "endswith", "isupper", "islower",
    "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isidentifier", "isascii", "istitle",
)


_ROOTS = {}


def text_root(atom):
    """The text an atom is about, if it is about one."""
    try:
        return _ROOTS[atom]
    except KeyError:
        r = _ROOTS[atom] = _text_root(atom)
        return r


def _text_root(atom):
    if atom.op not in TEXTOPS:
        return None
    x = atom.args[0]
    if atom.op == "contains":
        a, b = atom.args
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Sym):
            x = a
        elif _lits(a) is not None:
            x = b
        else:
            return None
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[1], Const) and type(x.args[1].v) is int:
            x = x.args[0]
    elif atom.op == "truth":
        if isinstance(x, Sym) and x.op in ("search", "match", "fullmatch", "finditer"):
            x = x.args[1]
    elif atom.op == "eq" and _pair(*atom.args) is not None:
        x = _pair(*atom.args)
    elif atom.op == "eq":
        if not (isinstance(atom.args[1], Const) and isinstance(atom.args[1].v, str)):
            return None
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[1], Const) and type(x.args[1].v) is int:
            x = x.args[0]
    r, _ = root_of(x)
    if isinstance(r, Sym) and r.typ in ("str", "ostr", "any"):
        return r
    return None


def facts_on(facts, root):
    """Normalised facts on a text."""
    roots = _ROOTS
    out = []
    for a, p in facts.items() if isinstance(facts, dict) else facts:
        try:
            r = roots[a]
        except KeyError:
            r = text_root(a)
        if r is root:
            out.append((_norm(a, root), p))
    return out


def lang_of_facts(facts, root, skip=()):
    """(language allowed by the facts on the text, facts that have none)"""
    parts = []
    unknown = []
    b = base_lang(root)
    if b is not None:
        parts.append(b)
    for a, p in facts_on(facts, root):
        if (a, p) in skip:
            continue
        l = lang_of_normal(a)
        if l is None:
            unknown.append((a, p))
        else:
            parts.append(l if p else rx.NOT(l))
    if not parts:
        parts = [rx.any_star()]
    return rx.AND(*parts), unknown


def decide_atom(facts, atom):
    root = text_root(atom)
    if root is None:
        return None
    n = _norm(atom, root)
    bkey = None
    if root.op == "group":
        st = _state()
        R, _ = st.match_regex(root.args[0])
        bkey = (R, root.args[1])
    fs = frozenset(facts_on(facts, root))
    if bkey is None and not fs:
        return None
    key = (bkey, n, fs)
    if key in _CACHE:
        return _CACHE[key]
    _CACHE[key] = None  # while computing
    res = None
    try:
        l = lang_of_normal(n)
        if l is not None:
            parts = []
            b = base_lang(root)
            if b is not None:
                parts.append(b)
            for a, p in fs:
                la = lang_of_normal(a)
                if la is not None:
                    parts.append(la if p else rx.NOT(la))
            tries = [parts]
            if len(parts) > 1:
                # the simplest sufficient reason first
                tries = [[p] for p in parts] + [parts]
            for ps in tries:
                if not ps:
                    continue
                try:
                    if rx.witness(rx.AND(*(ps + [l])), limit=60000) is None:
                        res = False
                    elif rx.witness(rx.AND(*(ps + [rx.NOT(l)])), limit=60000) is None:
                        res = True
                except rx.Unsupported:
                    pass
                if res is not None:
                    break
    except rx.Unsupported:
        res = None
    _CACHE[key] = res
    return res


def decide_truth(facts, x):
    if not isinstance(x, Sym) or x.typ not in ("str", "ostr"):
        return None
    st = _state()
    atom = st.truthy(x)
    if x.typ == "ostr" and facts.get(st.isnone(x)) is not False and st.quick(facts, st.isnone(x)) is not False:
        return None
    return decide_atom(facts, atom)
