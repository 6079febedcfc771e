"""Rules about property values: the type a value is read as, and its text.

The reading of the properties is interpreted on an unknown text with every
path kept apart.  Each path that stores a value comes with conditions on the
text matched for the value; these are turned into a regular language (the
language of the group in its pattern, less what earlier alternatives take,
cut down by the conditions pulled back through strip/slice/...), and the
language is compared with the one the kind of value is written in.
"""
from .. import rx, strlang
from ..ana import *
from ..interp import RegexV
from ..methods import ISX
from ..state import match_regex, pat
from .query import handed

PROPS = "wiggle_query_language.clauses.parsing_helpers.parse_properties.get_property_dict"

MARK = "\x01"
MARKM = rx.mask_of(lambda c: c == MARK)
ANY = rx.FULL & ~MARKM
QUOTES = "'\""
QM = rx.mask_of(lambda c: c in QUOTES)
DIGIT = rx.mask_of(lambda c: c in "0123456789")
UDIGIT = rx.mask_of(str.isdecimal)
WORD = rx.mask_of(lambda c: c == "_" or c.isalnum())
LETTER = rx.mask_of(lambda c: c.isascii() and c.isalpha())
ASCIIWORD = rx.mask_of(lambda c: c.isascii() and (c == "_" or c.isalnum()))


def re_(p, flags=0):
    return rx.pattern(p, flags).nfa()


NULL = re_(r"null")
TRUE = re_(r"true")
FALSE = re_(r"false")
INT = re_(r"\d+")
FLOAT = re_(r"\d+\.\d+")
AINT = re_(r"[0-9]+")
AFLOAT = re_(r"[0-9]+\.[0-9]+")
LIST = re_(r"\[(?s:.)*\]")
QUOTED = re_(r"'(?s:.)*'|\"(?s:.)*\"")
HALF = re_(r"['\"](?s:.)*|(?s:.)*['\"]")
EMPTY = rx.lit("")

# what is certainly well formed, and must be read
L_KINDS = {
    "null": re_(r"null"),
    "true": re_(r"true"),
    "false": re_(r"false"),
    "whole number": re_(r"[0-9]+"),
    "decimal": re_(r"[0-9]+\.[0-9]+"),
    "list": re_(r"\[ ?([0-9]+|[0-9]+\.[0-9]+|true|false|null|'[a-zA-Z0-9_ .@]*'|\"[a-zA-Z0-9_ .@]*\")( ?, ?([0-9]+|[0-9]+\.[0-9]+|true|false|null|'[a-zA-Z0-9_ .@]*'|\"[a-zA-Z0-9_ .@]*\"))* ?\]"),
}
WORDS = re_(r"(?i:null|none|true|false)")


def legal_text():
    q = rx.AND(
        re_(r"'[a-zA-Z0-9_ .@]+'|\"[a-zA-Z0-9_ .@]+\""),
        rx.NOT(rx.concat(rx.cls(QM), rx.cls(rx.SPACE, "*"), WORDS, rx.cls(rx.SPACE, "*"), rx.cls(QM))),
        rx.NOT(re_(r".\s+.")),
    )
    u = rx.AND(re_(r"[a-zA-Z0-9_]*[a-zA-Z_][a-zA-Z0-9_]*"), rx.NOT(WORDS))
    return {"quoted text": rx.determinise(q), "text": rx.determinise(u)}


# ------------------------------------------------------------ texts and chains
OPS = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "slice", "replace", "sub"}


def chain(t):
    """(root, operations from the root outwards) of a text."""
    ops = []
    while isinstance(t, Sym):
        if t.op in ("strip", "lstrip", "rstrip"):
            arg = t.args[1].v if len(t.args) > 1 and isinstance(t.args[1], Const) else None
            if len(t.args) > 1 and not isinstance(t.args[1], Const):
                break
            ops.append((t.op, arg))
        elif t.op in ("lower", "upper", "casefold"):
            ops.append((t.op,))
        elif t.op == "slice" and all(isinstance(x, Const) for x in t.args[1:]):
            a, b = t.args[1].v, t.args[2].v
            step = t.args[3].v if len(t.args) > 3 else None
            ops.append(("slice", a or None, b, step))
        elif t.op == "replace" and all(isinstance(x, Const) for x in t.args[1:3]):
            ops.append(("replace", t.args[1].v, t.args[2].v))
        else:
            break
        t = t.args[0]
    return t, tuple(reversed(ops))


def pull_slice(n, a, b):
    """Texts w for which w[a:b] is in the language."""
    one = rx.cls(rx.FULL)
    null = rx.witness(rx.AND(n, EMPTY)) is not None

    def times(k):
        return rx.concat(*[one] * k) if k else EMPTY

    def less(k):
        return [times(i) for i in range(k)]

    a = a or 0
    if any(x is not None and not (type(x) is int and -12 <= x <= 12) for x in (a, b)):
        raise rx.Unsupported("slice")
    if a >= 0 and b is None:
        l, short = [rx.concat(times(a), n)], less(a)
    elif a >= 0 and b < 0:
        l, short = [rx.concat(times(a), n, times(-b))], less(a - b)
    elif a >= 0 and b <= a:
        l, short = [], [rx.any_star()]
    elif a >= 0:
        l = [rx.concat(times(a), rx.determinise(rx.AND(n, times(b - a))), rx.any_star())]
        l += [rx.concat(times(a), rx.determinise(rx.AND(n, rx.union(*less(b - a)))))]
        short = less(a)
    elif b is None:
        l = [rx.concat(rx.any_star(), rx.determinise(rx.AND(n, times(-a)))), rx.determinise(rx.AND(n, rx.union(*less(-a))))]
        short = []
    else:
        raise rx.Unsupported("slice")
    return rx.union(*l, *(short if null else [])) if l or null and short else rx.cls(0)


def pull(lang, ops):
    """Texts whose image under the operations is in the language."""
    for op in reversed(ops):
        n = rx.determinise(lang) if isinstance(lang, rx.Lang) else lang
        if op[0] in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold"):
            lang = strlang.pre(n, [(op[0], op[1] if len(op) > 1 else None)])
        elif op[0] == "slice":
            a, b, step = op[1:]
            if step not in (None, 1):
                raise rx.Unsupported("slice")
            lang = pull_slice(n, a, b)
        else:
            raise rx.Unsupported(op[0])
    return lang


changed = strlang.changed


_INTS = re_(r"\s*[+-]?\d+(_\d+)*\s*")
_FLOATS = re_(r"\s*[+-]?((\d+(_\d+)*)(\.(\d+(_\d+)*)?)?|\.\d+(_\d+)*)([eE][+-]?\d+(_\d+)*)?\s*|\s*[+-]?(?i:nan|inf|infinity)\s*")


def atom_text(atom):
    """The text an atom is about."""
    if atom.op in ("isint", "isfloat"):
        return atom.args[0]
    if atom.op == "lt" and isinstance(atom.args[0], Sym) and atom.args[0].op == "len":
        return atom.args[0].args[0]
    if atom.op == "lt" and isinstance(atom.args[1], Sym) and atom.args[1].op == "len":
        return atom.args[1].args[0]
    if atom.op == "eq":
        a, b = atom.args
        if isinstance(a, Sym) and a.op == "len" and isinstance(b, Const):
            return a.args[0]
        if isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op == "item" and a.args[0] is b.args[0]:
            return a.args[0]
        if isinstance(b, Const):
            return a.args[0] if isinstance(a, Sym) and a.op == "item" and isinstance(a.args[1], Const) else a
        return None
    if atom.op == "contains":
        a, b = atom.args
        if isinstance(b, Const) and isinstance(a, Sym):
            return a
        if strlang._lits(a) is not None:
            return b.args[0] if isinstance(b, Sym) and b.op == "item" and isinstance(b.args[1], Const) else b
        return None
    if atom.op in strlang.TEXTOPS:
        x = atom.args[0]
        if atom.op == "truth" and isinstance(x, Sym) and x.op in ("search", "match", "fullmatch", "finditer"):
            return x.args[1]
        return x
    return None


def atom_langs(atom, y):
    """Texts for which the atom may be true / may be false (of y)."""
    one = rx.cls(rx.FULL)
    if atom.op == "isint":
        return _INTS, rx.NOT(_INTS)
    if atom.op == "isfloat":
        return _FLOATS, rx.NOT(_FLOATS)

    def upto(k):
        l = EMPTY
        for i in range(1, k + 1):
            l = rx.union(l, rx.concat(*([one] * i)))
        return l

    if atom.op == "lt" and isinstance(atom.args[1], Const) and type(atom.args[1].v) is int and atom.args[1].v <= 8:
        k = atom.args[1].v
        l = upto(k - 1) if k > 0 else rx.cls(0)
        return l, rx.NOT(l)
    if atom.op == "lt" and isinstance(atom.args[0], Const) and type(atom.args[0].v) is int and 0 <= atom.args[0].v <= 8:
        l = upto(atom.args[0].v)
        return rx.NOT(l), l
    if atom.op == "eq" and isinstance(atom.args[0], Sym) and atom.args[0].op == "len":
        k = atom.args[1].v
        if type(k) is int and 0 <= k <= 8:
            l = rx.concat(*([one] * k)) if k else EMPTY
            return l, rx.NOT(l)
        return None
    if atom.op == "eq" and isinstance(atom.args[1], Sym):
        ix = {x.args[1].v for x in atom.args if isinstance(x.args[1], Const)}
        if ix != {0, -1}:
            return None
        same, diff = [], []
        star = rx.any_star()
        for q in QUOTES:
            c = rx.lit(q)
            o = rx.cls(rx.FULL & ~rx.mask_of(lambda d: d == q))
            same += [c, rx.concat(c, star, c)]
            diff.append(rx.concat(c, star, o))
        n = rx.cls(rx.FULL & ~QM)
        same += [n, rx.concat(n, star, n)]
        diff += [rx.concat(n, star, one)]
        return rx.union(*same), rx.union(*diff)
    l = strlang.lang_of_normal(Subst({y: strlang.HOLE})(atom))
    if l is None:
        return None
    return l, rx.NOT(l)


# ----------------------------------------------------- languages of the groups
def _has_group(e):
    if e[0] == "group":
        return True
    if e[0] in ("cat", "alt"):
        return any(_has_group(x) for x in e[1])
    if e[0] in ("star", "plus", "opt", "look"):
        return _has_group(e[1])
    return False


def variants(P, e):
    """Ways through an expression: (expression, groups that take part, groups
    that span all of it, alternatives that were tried before)."""
    if not _has_group(e):
        if e[0] == "alt":
            return [(e, frozenset(), frozenset(), ())]
        return [(e, frozenset(), frozenset(), ())]
    k = e[0]
    if k == "group":
        g = P.key(e[2])
        return [(x, gs | {g}, full | {g}, ex) for x, gs, full, ex in variants(P, e[3])]
    if k == "alt":
        out, before = [], ()
        for x in e[1]:
            for y, gs, full, ex in variants(P, x):
                out.append((y, gs, full, before + ex))
            before = before + (x,)
        return out
    if k == "cat":
        out = [([], frozenset(), frozenset(), ())]
        for x in e[1]:
            vs = variants(P, x)
            out = [(a + [b], g1 | g2, frozenset(), ()) for a, g1, _, _ in out for b, g2, _, _ in vs]
            if len(out) > 400:
                raise rx.Unsupported("groups")
        if len(e[1]) == 1:
            return variants(P, e[1][0])
        return [(("cat", a), g, f, x) for a, g, f, x in out]
    if k == "opt":
        return variants(P, e[1]) + [(("eps",), frozenset(), frozenset(), ())]
    raise rx.Unsupported("groups")


def all_groups(P):
    return {P.key(g) for g in P._ginfo}


_CTX = {}


class Value:
    """The text matched for a value, with what is known on one path."""

    def __init__(self, m, R, P, key):
        self.m, self.R, self.P, self.key = m, R, P, key
        k = (P.pattern, P.flags, key)
        if k not in _CTX:
            _CTX[k] = self._context()
        self.lead, self.trail = _CTX[k]

    def _context(self):
        """(can the text not begin with white space that the pattern could have
        taken before it; does what must follow let white space come first)"""
        try:
            pre, val, post = after_value(self.P, self.P.group_index(self.key))
            last = pre[-1] if pre else None
            lead = bool(last) and last[0] == "star" and last[1][0] == "chr" and not rx.SPACE & ~last[1][1]
            K = follow(post, True)
            trail = rx.included(rx.concat(rx.cls(rx.SPACE, "*"), K), K) is None
            return lead, trail
        except rx.Unsupported:
            return False, False

    def lang(self, facts, extra=()):
        """(language of the group's text, reasons it may be too large)"""
        P = self.P
        unknown = []
        pol = {}
        texts = []
        for a, p in list(facts) + list(extra):
            if a.op == "isnone" and self._group(a.args[0]) is not None:
                pol[self._group(a.args[0])] = not p
            elif a.op == "truth" and self._group(a.args[0]) is not None and self._group(a.args[0]) != self.key and p:
                pol[self._group(a.args[0])] = True
            y = atom_text(a)
            if y is None:
                if a.op in ("forall", "exists", "returns", "isnone", "dup", "has"):
                    continue
                if any(self._group(x) is not None and isinstance(x, Sym) for x in walk(a)):
                    unknown.append((a, p))
                continue
            r, ops = chain(y)
            g = self._group(r)
            if g is not None:
                texts.append((a, p, y, g, ops))
            elif any(self._group(x) is not None for x in walk(a) if isinstance(x, Sym)):
                if not (isinstance(r, Sym) and r.op in ("elem", "wit", "sub", "leval")):
                    unknown.append((a, p))
        parts = []
        ways = variants(P, P.group_expr(self.key))
        sp = rx.cls(rx.SPACE, "*")
        for expr, gs, full, before in ways:
            if any((g in gs) != v for g, v in pol.items() if g != self.key and self._inside(g)):
                continue
            l = [rx.NFA.of(expr)]
            for b in before:
                n = rx.NFA.of(b)
                if n.exact:
                    l.append(rx.NOT(rx.concat(n, sp) if self.trail else n))
            if self.lead:
                # where it begins with white space, it does not fit without
                for x, _, _, _ in ways:
                    n = rx.NFA.of(x)
                    if n.exact:
                        l.append(rx.NOT(rx.concat(rx.cls(rx.SPACE, "+"), n)))
            ok = True
            for a, p, y, g, ops in texts:
                if g != self.key and g not in full:
                    if (a, p) not in unknown:
                        unknown.append((a, p))
                    continue
                try:
                    ls = atom_langs(a, y)
                    if ls is None:
                        raise rx.Unsupported("atom")
                    l.append(pull(ls[0 if p else 1], ops))
                except rx.Unsupported:
                    if (a, p) not in unknown:
                        unknown.append((a, p))
            if ok:
                parts.append(rx.determinise(rx.AND(*l)))
        return (rx.union(*parts) if parts else rx.cls(0)), unknown

    def _group(self, x):
        if isinstance(x, Sym) and x.op == "group" and x.args[0] is self.m:
            k = x.args[1]
            k = k.v if isinstance(k, Const) else k
            return self.P.key(k)
        return None

    def _inside(self, g):
        if g == self.key:
            return True
        i = self.P.group_index(g)
        try:
            return self.P.group_index(self.key) in self.P.enclosing(g)
        except KeyError:
            return False

    def same(self, g, facts):
        """Does the group span the whole value on this path?"""
        if g == self.key:
            return True
        pol = {}
        for a, p in facts:
            if a.op == "isnone" and self._group(a.args[0]) is not None:
                pol[self._group(a.args[0])] = not p
        n = 0
        for expr, gs, full, before in variants(self.P, self.P.group_expr(self.key)):
            if any((h in gs) != v for h, v in pol.items() if h != self.key and self._inside(h)):
                continue
            n += 1
            if g not in full:
                return False
        return n > 0


def groups_in(xs):
    out = []
    for x in xs:
        for y in walk(x):
            if isinstance(y, Sym) and y.op == "group" and y not in out:
                out.append(y)
    return out


def value_of(facts, key, val):
    """The value group a stored value (or the choice of it) depends on."""
    gs = groups_in([val])
    if not gs:
        gs = groups_in([a for a, _ in facts])
    best = None
    for g in gs:
        m, k = g.args[0], g.args[1]
        k = k.v if isinstance(k, Const) else k
        R, _ = match_regex(m)
        P = pat(R) if R is not None else None
        if P is None or g is key or k == 0:
            continue
        k = P.key(k)
        depth = len(P.enclosing(k)) if P.group_index(k) in P._ginfo else 99
        if best is None or depth < best[0]:
            best = (depth, m, R, P, k)
    if best is None:
        return None
    _, m, R, P, k = best
    # up to the outermost group that is the value
    kk = None
    if isinstance(key, Sym) and key.op == "group":
        kk = key.args[1].v if isinstance(key.args[1], Const) else key.args[1]
        kk = P.key(kk)
    for o in P.enclosing(k):
        o = P.key(o)
        if kk is not None and kk != o and P.group_index(o) in P.enclosing(kk):
            continue
        k = o
        break
    return Value(m, R, P, k)


def flat(val, facts=()):
    """A value with its alternatives apart."""
    if isinstance(val, Phi):
        for f, v in val.alts:
            yield from flat(v, tuple(facts) + tuple(f))
    else:
        yield val, tuple(facts)


def some(lang):
    w = rx.witness(lang, limit=200000)
    return w


# ------------------------------------------------------------------ the reading
class Reading:
    """All ways the reading of properties can end."""

    def __init__(self, a):
        self.a = a
        a.ip.merge = False
        self.text = sym("arg", "props", typ="str")
        self.fn = a.fn(PROPS)
        self.outs = a.run(self.fn, [self.text])
        self.stored = []  # (state, source, case facts, key, value, facts)
        self.empty = []
        self.raises = []
        self.odd = []
        for s, v in self.outs:
            if isinstance(v, Raise):
                self.raises.append((s, v))
                continue
            d = a.ip.lib.freeze(s, v)
            if isinstance(d, Const) and d.v is None:
                self.empty.append((s, d))
                continue
            if not (isinstance(d, Doc) and d.kind == "dict"):
                self.odd.append((s, d))
                continue
            if not d.segs:
                self.empty.append((s, d))
                continue
            for seg in d.segs:
                if seg[0] != "star":
                    self.odd.append((s, seg))
                    continue
                for f, y in seg[2]:
                    if not y:
                        self.odd.append((s, ("dropped", seg[1], f)))
                    for z in y:
                        if z[0] != "one":
                            self.odd.append((s, z))
                            continue
                        for val, more in split_bools(flat(z[2]), f):
                            self.stored.append((s, seg, f, z[1], val, tuple(f) + more))


def number(val):
    return isinstance(val, Sym) and val.op in ("int", "float")


def split_bools(vals, facts):
    """A value that is the outcome of a test is one of two."""
    for val, more in vals:
        if isinstance(val, Sym) and val.typ == "bool" and val.op in strlang.TEXTOPS:
            d = quick(dict(tuple(facts) + tuple(more)), val)
            for p in (True, False) if d is None else (d,):
                yield const(p), tuple(more) + ((val, p),)
        else:
            yield val, more


def describe(w):
    return "nothing" if w is None else repr(w)


def kind_of(val):
    if isinstance(val, Const):
        if val.v is None:
            return "null"
        if val.v is True:
            return "true"
        if val.v is False:
            return "false"
        if isinstance(val.v, str):
            return "fixed text"
        return "fixed value"
    if isinstance(val, Sym):
        if val.op == "int":
            return "whole number"
        if val.op == "float":
            return "decimal"
        if val.op == "leval":
            return "list"
        if val.typ in ("str", "ostr"):
            return "text"
    if isinstance(val, Doc) and val.kind in ("list", "tuple"):
        return "list"
    return None


WANTED = {"null": NULL, "true": TRUE, "false": FALSE, "whole number": INT, "decimal": FLOAT, "list": LIST}


def trimmed(l):
    return rx.rstrip_pre(rx.lstrip_pre(l))


def c13(a):
    r_type, r_all, r_whole, r_key, r_ref = "type-as-written", "nothing-skipped", "whole-value", "own-name", "refused-properly"
    a.rules[r_type] = "Each value is stored as the type its text is written in: the language of the value's text, on every path that stores a given type, lies within the way that type is written."
    a.rules[r_all] = "When a set of properties is accepted, what lies between the properties is only braces, commas and white space."
    a.rules[r_whole] = "For every well-formed value the pattern takes the whole value: no earlier alternative takes a beginning of it, none goes on into the next property."
    a.rules[r_key] = "Every property matched is stored, under its own name."
    a.rules[r_ref] = "A value is only refused with a WiggleGraph error, and no well-formed value is refused."
    rd = Reading(a)
    where = a.where(rd.fn)
    if not rd.stored:
        a.und(r_type, where, "the reading of properties has no known form")
        return
    values = {}
    for s, seg, case, key, val, facts in rd.stored:
        src = seg[1]
        site = where
        if not _whole_source(rd, src):
            a.und(r_key, site, f"the properties come from {show(src, 3)[:120]}")
        if seg[3] not in (False, None):
            a.und(r_key, site, "the properties stored are a part of those matched")
        # ---- the name
        kr, kops = chain(key)
        if isinstance(kr, Sym) and kr.op == "group":
            a.ok(r_key, f"key {show(key, 2)[:80]}")
            for i, op in enumerate(kops):
                lossless(a, r_key, site, base(kr), kops[:i], op, "the name of a property")
        else:
            a.und(r_key, site, f"a property is stored under {show(key, 3)[:100]}")
        v = value_of(facts, key, val)
        if v is None:
            a.und(r_type, site, f"a value is stored that is not known to come from the text: {show(val, 3)[:100]}")
            continue
        values[(v.R, v.key)] = v
        try:
            lang, unknown = v.lang(facts)
            w0 = some(lang)
        except rx.Unsupported as e:
            a.und(r_type, site, f"conditions of a value out of reach: {e}")
            continue
        if w0 is None:
            continue  # no text takes this path
        kind = kind_of(val)
        if kind is None or kind.startswith("fixed"):
            if kind == "fixed text" or kind == "fixed value":
                _report(a, r_type, site, f"a value written {describe(w0)} is stored as the fixed {val.v!r}", unknown)
            elif isinstance(val, Sym) and val.op in ("round", "floor", "ceil", "trunc", "abs", "neg", "mul", "div", "mod", "fmt"):
                _report(a, r_type, site, f"a number is stored after {val.op}, not as written", unknown, v, facts, lang)
            else:
                a.und(r_type, site, f"a value is stored as {show(val, 3)[:100]}")
            continue
        if kind in ("whole number", "decimal", "list"):
            inner = val.args[0] if isinstance(val, Sym) else None
            if inner is not None and kind == "list":
                inner = _list_text(inner)
            if inner is not None:
                r, ops = chain(inner)
                g = v._group(r)
                if g is None or not v.same(g, facts):
                    if isinstance(r, Sym) and (r.op in ("int", "float", "round") or r.op in LOSSY):
                        _report(a, r_type, site, f"a {kind} is read through {r.op}, not from the text as written", unknown, v, facts, lang)
                    else:
                        a.und(r_type, site, f"a {kind} is read from {show(inner, 3)[:100]}")
                    continue
                if not number_text(a, r_type, site, v, lang, ops, kind, unknown):
                    continue
        try:
            if kind == "text":
                bad = rx.AND(lang, trimmed(rx.union(NULL, TRUE, FALSE, AINT, AFLOAT, LIST)))
            else:
                bad = rx.AND(lang, rx.NOT(trimmed(WANTED[kind])))
            w = some(bad)
        except rx.Unsupported as e:
            a.und(r_type, site, f"{kind}: {e}")
            continue
        if w is None:
            a.ok(r_type, f"{kind} <- texts such as {w0!r}")
        else:
            _report(a, r_type, site, f"a value written {w.strip()!r} is stored as {kind}", unknown, v, facts, bad)
    # ---- dropped / strange
    for s, x in rd.odd:
        if isinstance(x, tuple) and x and x[0] == "dropped":
            _dropped(a, r_key, where, x, rd)
        else:
            a.und(r_key, where, f"properties end as {show(x, 3)[:100] if isinstance(x, Val) else x[0]}")
    for s, d in rd.empty:
        # nothing stored: only if there is no text
        t = a.ip.lib and s.facts.get(sym("truth", rd.text, typ="bool"))
        l, unk = strlang.lang_of_facts(s.facts, rd.text)
        w = _nonblank(l)
        if w is None:
            a.ok(r_key, "no properties only for no text")
        elif not _reads(s, rd):
            _report(a, r_key, where, f"properties written {w!r} end as none", unk)
    # ---- nothing skipped
    for s, v in rd.outs:
        if isinstance(v, Raise):
            continue
        d = a.ip.lib.freeze(s, v)
        if not (isinstance(d, Doc) and d.segs):
            continue
        residual(a, r_all, where, s, rd)
    # ---- the pattern
    for (R, key), v in values.items():
        try:
            pattern_rules(a, r_whole, where, v)
        except rx.Unsupported as e:
            a.und(r_whole, where, f"pattern out of reach: {e}")
    # ---- refusals
    lt = dict(L_KINDS)
    lt.update(legal_text())
    for s, r in rd.raises:
        cls = a.exc_name(s, r)
        if not a.exc_is(s, r, "WiggleGraphBaseException"):
            a.bad(r_ref, a.site(r), f"a property can fail with {cls}, no WiggleGraph error")
            continue
        ms = {g.args[0] for g in groups_in([x for x in s.facts if x.op not in ("forall", "exists")])}
        hit = False
        for (R, key), v in values.items():
            for m in ms:
                if match_regex(m)[0] is not R:
                    continue
                hit = True
                v2 = Value(m, R, v.P, key)
                try:
                    lang, unknown = v2.lang(s.facts.items())
                    for kind, l in lt.items():
                        if kind == "list":
                            continue  # C14
                        w = some(rx.AND(lang, trimmed(l)))
                        if w is None:
                            continue
                        if unknown:
                            a.und(r_ref, a.site(r), f"refusal of {kind} {w.strip()!r} depends on {show(unknown[0][0], 3)[:100]}")
                        else:
                            a.bad(r_ref, a.site(r), f"a {kind} written {w.strip()!r} is refused ({cls})")
                except rx.Unsupported as e:
                    a.und(r_ref, a.site(r), f"{e}")
        a.ok(r_ref, f"{cls} at {a.site(r)}" + (" on a value" if hit else ""))


def _report(a, rule, site, msg, unknown, v=None, facts=None, lang=None):
    if unknown and v is not None and (w := meets(v, facts, lang, unknown)) is not None:
        unknown = None
        msg += f" (such as {w!r})"
    if unknown:
        a.und(rule, site, msg + f" unless {show(unknown[0][0], 3)[:100]}")
    else:
        a.bad(rule, site, msg)


def meets(v, facts, lang, unknown):
    """A text of the language that the conditions which are no language are true of, if one is easily found."""
    try:
        for n in (0, 4, 9, 16, 20, 32):
            w = some(rx.AND(lang, rx.concat(*[rx.cls(rx.FULL)] * n, rx.any_star())) if n else lang)
            if w is not None and all(_true_of(at, v, facts, w) is p for at, p in unknown):
                return w
    except rx.Unsupported:
        pass
    return None


class _Unknown(Exception):
    pass


def _true_of(at, v, facts, w):
    """Is the condition true when the value is written as w? -> True / False / None"""
    def ev(t):
        if isinstance(t, Const):
            return t.v
        if isinstance(t, Tup):
            return tuple(ev(x) for x in t.items)
        if isinstance(t, Doc) and t.kind in ("list", "set", "tuple") and all(s[0] == "one" for s in t.segs):
            return tuple(ev(s[1] if t.kind == "set" else s[2]) for s in t.segs)
        if not isinstance(t, Sym):
            raise _Unknown
        if t.op == "group":
            g = v._group(t)
            if g is None or not v.same(g, facts):
                raise _Unknown
            return w
        if t.op in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "startswith", "endswith", "replace", *ISX):
            x = [ev(y) for y in t.args]
            if not isinstance(x[0], str):
                raise _Unknown
            return getattr(x[0], t.op)(*x[1:])
        if t.op in ("len", "str"):
            return (len if t.op == "len" else str)(ev(t.args[0]))
        if t.op in ("item", "at"):
            return ev(t.args[0])[ev(t.args[1])]
        if t.op == "slice":
            return ev(t.args[0])[slice(*[ev(y) for y in t.args[1:]])]
        if t.op in ("contains", "has"):
            return ev(t.args[1]) in ev(t.args[0])
        if t.op == "eq":
            return ev(t.args[0]) == ev(t.args[1])
        if t.op == "lt":
            return ev(t.args[0]) < ev(t.args[1])
        if t.op == "truth":
            return bool(ev(t.args[0]))
        if t.op in ("isint", "isfloat"):
            try:
                (int if t.op == "isint" else float)(ev(t.args[0]))
                return True
            except ValueError:
                return False
        if t.op == "isnone":
            return ev(t.args[0]) is None
        raise _Unknown

    try:
        return bool(ev(at))
    except (_Unknown, IndexError, TypeError, ValueError, KeyError):
        return None


def _whole_source(rd, src):
    if isinstance(src, Sym) and src.op in ("finditer", "findall") and src.args[1] is rd.text:
        return True
    return False


def _reads(s, rd):
    return False


def _nonblank(l):
    try:
        return some(rx.AND(l, rx.concat(rx.any_star(), rx.cls(ASCIIWORD), rx.any_star())))
    except rx.Unsupported:
        return None


def _dropped(a, rule, where, x, rd):
    _, src, facts = x
    ms = {g.args[0] for g in groups_in([f for f, _ in facts])}
    msg = "a property that is matched is not stored"
    if not facts:
        a.bad(rule, where, msg)
        return
    # the value texts for which it is dropped
    for s, seg, case, key, val, fs in rd.stored:
        v = value_of(fs, key, val)
        if v is None:
            continue
        try:
            lang, unknown = v.lang(facts)
            w = some(lang)
        except rx.Unsupported:
            break
        if w is None:
            return
        if unknown:
            break
        a.bad(rule, where, f"a property with the value {w!r} is not stored")
        return
    a.und(rule, where, msg + " on some condition")


def base(r):
    b = strlang.base_lang(r)
    return b if b is not None else rx.any_star()


def lossless(a, rule, site, lang, before, op, what, unknown=()):
    """An operation that must not alter the text."""
    try:
        w = some(rx.AND(lang, pull(changed(op), before)))
    except rx.Unsupported:
        a.und(rule, site, f"{what} goes through {op[0]}")
        return False
    if w is None:
        return True
    _report(a, rule, site, f"{what} is altered by {op[0]}{tuple(x for x in op[1:] if x is not None)!r}, as in {w!r}", unknown)
    return False


def number_text(a, rule, site, v, lang, ops, kind, unknown):
    state = "raw"
    for i, op in enumerate(ops):
        if op == ("strip", None) or op[0] in ("lstrip", "rstrip") and op[1] is None:
            continue
        if not lossless(a, rule, site, lang, ops[:i], op, f"the text of a {kind}", unknown):
            return False
    return True


def _list_text(t):
    while isinstance(t, Sym) and t.op in ("sub", "replace"):
        t = t.args[2] if t.op == "sub" else t.args[0]
    return t


def residual(a, rule, where, s, rd):
    """What is left of the text between the properties."""
    subs = []
    other = []
    for at, p in s.facts.items():
        for y in walk(at):
            if isinstance(y, Sym) and y.op == "sub" and y.args[2] is rd.text:
                subs.append(y)
            elif isinstance(y, Sym) and y.op in ("mstart", "mend", "span", "resplit"):
                other.append(y)
    fine = rx.cls(rx.mask_of(lambda c: c in "{}," or c.isspace()), "*")
    best = None
    for y in dict.fromkeys(subs):
        if not (isinstance(y.args[1], Const) and y.args[1].v.strip("{}, \t\r\n") == ""):
            continue
        lang = [rx.any_star()]
        unk = []
        for at, p in s.facts.items():
            t = atom_text(at)
            if t is None:
                continue
            r, ops = chain(t)
            if r is not y:
                continue
            try:
                ls = atom_langs(at, t)
                if ls is None:
                    raise rx.Unsupported("")
                lang.append(pull(ls[0 if p else 1], ops))
            except rx.Unsupported:
                unk.append((at, p))
        w = some(rx.AND(*lang, rx.NOT(fine)))
        if w is None:
            a.ok(rule, f"what is left after {show(y.args[0], 2)[:60]} is taken out")
            return
        best = (w, unk) if best is None or not unk else best
    if best is not None:
        _report(a, rule, where, f"text such as {best[0]!r} may be left between the properties unnoticed", best[1])
    elif other:
        a.und(rule, where, "the text between the properties is followed by positions")
    else:
        a.bad(rule, where, "text between the properties is skipped without an error")


# ------------------------------------------------------------- the pattern
def with_mark(n):
    """Words of the language with one mark put in anywhere."""
    k = len(n.trans)
    trans = [list(ts) for ts in n.trans] + [[(m, t + k) for m, t in ts] for ts in n.trans]
    for s in range(k):
        trans[s] = trans[s] + [(MARKM, s + k)]
    return rx.NFA(trans, {f + k for f in n.final}, n.exact)


def unmarked(n):
    trans = [[(m & ANY, t) for m, t in ts if m & ANY] for ts in n.trans]
    return rx.NFA(trans, set(n.final), n.exact)


def open_ends(e):
    """The expression without the ways that need the end of the text."""
    k = e[0]
    if k == "at":
        return None if "END" in str(e[1]) else ("eps",)
    if k == "group":
        x = open_ends(e[3])
        return None if x is None else ("group", e[1], e[2], x)
    if k == "alt":
        xs = [x for x in (open_ends(x) for x in e[1]) if x is not None]
        if not xs:
            return None
        return xs[0] if len(xs) == 1 else ("alt", xs)
    if k == "cat":
        xs = [open_ends(x) for x in e[1]]
        if any(x is None for x in xs):
            return None
        return ("cat", xs)
    if k == "opt" or k == "star":
        x = open_ends(e[1])
        return ("eps",) if x is None else (k, x)
    if k == "plus":
        x = open_ends(e[1])
        return None if x is None else (k, x)
    return e


def after_value(P, idx):
    """(what comes before, the value, what must follow) of the pattern."""
    e = P.expr
    pre, post = [], []
    while True:
        if e[0] == "group" and e[2] == idx:
            return pre, e[3], post
        if e[0] == "group":
            e = e[3]
            continue
        if e[0] != "cat":
            raise rx.Unsupported("form of the pattern")
        for i, x in enumerate(e[1]):
            if _holds(x, idx):
                pre = pre + list(e[1][:i])
                post = list(e[1][i + 1:]) + post
                e = x
                break
        else:
            raise rx.Unsupported("form of the pattern")


def _holds(e, idx):
    if e[0] == "group":
        return e[2] == idx or _holds(e[3], idx)
    if e[0] in ("cat", "alt"):
        return any(_holds(x, idx) for x in e[1])
    if e[0] in ("star", "plus", "opt", "look"):
        return _holds(e[1], idx)
    return False


def closed_ends(e):
    """The expression as matched where the text ends."""
    k = e[0]
    if k == "at":
        return ("eps",)
    if k == "group":
        return closed_ends(e[3])
    if k in ("alt", "cat"):
        return (k, [closed_ends(x) for x in e[1]])
    if k in ("opt", "star", "plus"):
        return (k, closed_ends(e[1]))
    return e


def follow(post, ends=False):
    """What must follow the value, as a language of the rest of the text."""
    n = _follow(post)
    if not ends:
        return n
    post = [x[1] if x[0] == "look" else x for x in post]
    c = rx.NFA.of(closed_ends(("cat", post))) if post else EMPTY
    return rx.union(n, c)


def _follow(post):
    out = []
    for i, e in enumerate(post):
        if e[0] == "look":
            if not e[2] or e[3] or i != len(post) - 1:
                raise rx.Unsupported("look-around")
            x = open_ends(e[1])
            if x is None:
                return rx.cls(0)
            out.append(x)
        else:
            x = open_ends(e)
            if x is None:
                return rx.cls(0)
            out.append(x)
    n = rx.NFA.of(("cat", out)) if out else EMPTY
    if not n.exact:
        raise rx.Unsupported("look-around")
    return rx.concat(n, rx.any_star())


def branches(e):
    while e[0] in ("group",) or (e[0] == "cat" and len(e[1]) == 1):
        e = e[3] if e[0] == "group" else e[1][0]
    if e[0] == "alt":
        return [b for x in e[1] for b in branches(x)]
    return [e]


def pattern_rules(a, rule, where, v):
    P = v.P
    idx = P.group_index(v.key)
    pre, val, post = after_value(P, idx)
    name = rx.NFA.of(("cat", pre)) if pre else EMPTY
    w = rx.included(re_(r"[a-zA-Z_][a-zA-Z0-9_]* ?: ?"), name)
    if w is not None:
        a.bad(rule, where, f"the name of a property and its colon, written {w!r}, are not taken by the pattern")
    else:
        a.ok(rule, "names of properties")
    K = follow(post)
    SUF = re_(r"[ ]?[,}](?s:.)*")
    bs = [rx.NFA.of(b) for b in branches(val)]
    if not all(b.exact for b in bs):
        raise rx.Unsupported("look-around in the value")
    w = rx.included(unmarked(SUF), K)
    if w is not None:
        a.bad(rule, where, f"a value that is followed by {w!r} is not taken")
        return
    kinds = dict(L_KINDS)
    kinds.update(legal_text())
    mark = rx.lit(MARK)
    suf, anys = unmarked(SUF), rx.cls(ANY, "*")
    sp = rx.cls(rx.SPACE, "*")
    for kind, l in kinds.items():
        whole = []
        done = False
        left = l
        w = some(rx.AND(l, *[rx.NOT(rx.concat(b, EMPTY)) for b in bs]))
        if w is not None:
            a.bad(rule, where, f"a {kind} written {w!r} is not taken as a value")
            continue
        for i, b in enumerate(bs):
            ub = unmarked(b)
            # a beginning of the value, the rest of which is let pass: only
            # where neither this nor an earlier alternative takes it whole
            rest = rx.determinise(rx.AND(l, *[rx.NOT(x) for x in bs[: i + 1]]))
            short = rx.AND(
                rx.concat(with_mark(rest), mark, suf),
                rx.concat(ub, mark, with_mark(unmarked(K))),
                rx.NOT(rx.concat(anys, mark, sp, mark, anys)),
            )
            w = some(short)
            if w is not None:
                x = w.split(MARK)
                a.bad(rule, where, f"only {x[0]!r} of the {kind} {x[0] + x[1]!r} is taken as the value")
                continue
            rest = rx.determinise(rx.AND(l, *[rx.NOT(x) for x in bs[:i]]))
            long = rx.AND(
                rx.concat(rest, mark, with_mark(suf)),
                rx.concat(with_mark(ub), mark, unmarked(K)),
                rx.NOT(rx.concat(anys, mark, sp, mark, anys)),
            )
            w = some(long)
            if w is not None:
                x = w.split(MARK)
                a.bad(rule, where, f"the {kind} {x[0]!r} is taken together with {x[1]!r} that follows it")
                continue
            a.ok(rule, f"{kind}: alternative {i + 1} of {len(bs)}")


# ==================================================================== C14
PLAIN = {"int", "float", "bool", "str", "NoneType"}


def c14(a):
    r_text, r_quote, r_list, r_kw, r_el = "text-as-written", "quotes-as-a-pair", "list-as-written", "keywords-outside-quotes", "plain-elements"
    a.rules[r_text] = "Text is stored as matched, less the white space around it and one pair of quotes: no other operation on the way alters a text that can get there."
    a.rules[r_quote] = "Quotes are only taken off as a pair, and no text with one quote is stored."
    a.rules[r_list] = "A list is what literal_eval makes of the text as matched, with keywords replaced; nothing is done to its elements."
    a.rules[r_kw] = "In a list, true, false and null are replaced by Python's words, never inside quotes."
    a.rules[r_el] = "A list is only stored when every element is null, a number, a boolean or text; all of these are accepted, and an element is one quoted text or has no quotes."
    handed(a, True)
    rd = Reading(a)
    where = a.where(rd.fn)
    n = 0
    for s, seg, case, key, val, facts in rd.stored:
        v = value_of(facts, key, val)
        if v is None:
            a.und(r_text, where, f"a value is stored that is not known to come from the text: {show(val, 3)[:100]}")
            continue
        try:
            lang, unknown = v.lang(facts)
            if some(lang) is None:
                continue
        except rx.Unsupported as e:
            a.und(r_text, where, f"conditions of a value out of reach: {e}")
            continue
        n += 1
        if _quoted_list(val, v):
            lists(a, where, rd, s, v, val, facts, lang, unknown, r_list, r_kw, r_el)
        elif isinstance(val, Sym) and (val.typ in ("str", "ostr") or val.op in ("joined", "fstr", "slice", "strip")):
            text(a, where, v, val, facts, lang, unknown, r_text, r_quote)
        elif isinstance(val, Const) or number(val):
            pass  # C13
        else:
            a.und(r_text, where, f"a value is stored as {show(val, 3)[:100]}")
    if not n:
        a.und(r_text, where, "the reading of properties has no known form")


def _quoted_list(val, v):
    for y in walk(val):
        if isinstance(y, Sym) and y.op == "leval":
            return True
    return isinstance(val, Doc) and val.kind in ("list", "tuple")


LOSSY = {"strmeth", "joined", "title", "capitalize", "swapcase", "translate", "expandtabs", "normalize", "encode", "decode", "zfill", "center", "ljust", "rjust", "removeprefix", "removesuffix", "sub", "json", "repr"}


def text(a, where, v, val, facts, lang, unknown, r_text, r_quote):
    r, ops = chain(val)
    g = v._group(r)
    if g is None or not v.same(g, facts):
        gs = groups_in([r])
        if isinstance(r, Sym) and r.op in ("strip", "lstrip", "rstrip") and gs:
            # characters taken from the text itself: as many as there are
            r2, ops2 = chain(r.args[0])
            try:
                more = rx.AND(lang, pull(re_(r"''(?s:.)*'|\"\"(?s:.)*\""), ops2))
                w = some(more) if v._group(r2) == v.key else None
            except rx.Unsupported:
                w = None
            if w is not None:
                _report(a, r_quote, where, f"more than the pair of quotes is taken off {w!r}", unknown, v, facts, more)
                return
        if gs and isinstance(r, Sym) and r.op in LOSSY:
            _report(a, r_text, where, f"text goes through {r.op} before it is stored", unknown)
        else:
            a.und(r_text, where, f"text is stored as {show(val, 3)[:100]}")
        return
    try:
        quoted = rx.AND(lang, trimmed(QUOTED))
        wq = some(quoted)
        half = some(rx.AND(lang, trimmed(rx.determinise(rx.AND(HALF, rx.NOT(QUOTED))))))
        if half is not None:
            _report(a, r_quote, where, f"a text with one quote, {half!r}, is stored", unknown)
        state = "raw"
        for i, op in enumerate(ops):
            before = ops[:i]
            if state == "raw" and op[0] in ("strip", "lstrip", "rstrip") and op[1] is None:
                continue
            if state == "raw" and op[:3] == ("slice", 1, -1):
                w = some(rx.AND(lang, rx.NOT(pull(QUOTED, before))))
                if w is not None:
                    _report(a, r_quote, where, f"the ends of {w!r} are cut off, which is not in a pair of quotes", unknown)
                    return
                state = "inner"
                continue
            if state == "raw" and op[0] == "strip" and op[1] and set(op[1]) <= set(QUOTES):
                m = rx.mask_of(lambda c: c in op[1])
                out = rx.AND(lang, rx.NOT(pull(QUOTED, before)), pull(changed(op), before))
                w = some(out)
                if w is not None:
                    _report(a, r_quote, where, f"a quote of {w!r} is taken off that is not one of a pair", unknown)
                    return
                q = rx.cls(QM)
                more = rx.union(rx.concat(q, rx.cls(m), rx.any_star(), q), rx.concat(q, rx.any_star(), rx.cls(m), q))
                w = some(rx.AND(lang, pull(more, before)))
                if w is not None:
                    _report(a, r_quote, where, f"more than the pair of quotes is taken off {w!r}", unknown)
                    return
                state = "inner"
                continue
            if not lossless(a, r_text, where, lang, before, op, "text", unknown):
                return
        if state == "raw" and wq is not None:
            _report(a, r_quote, where, f"text such as {wq!r} is stored with its quotes", unknown)
        elif state == "raw":
            sp = rx.union(rx.concat(rx.cls(rx.SPACE), rx.any_star()), rx.concat(rx.any_star(), rx.cls(rx.SPACE)))
            if not any(o[0] == "strip" for o in ops) and some(rx.AND(lang, sp)) is not None:
                _report(a, r_text, where, f"text such as {some(rx.AND(lang, sp))!r} is stored with the spaces around it", unknown)
            else:
                a.ok(r_text, "text without quotes")
        else:
            a.ok(r_quote, "text in quotes")
            a.ok(r_text, f"text in quotes: {len(ops)} operations")
    except rx.Unsupported as e:
        a.und(r_text, where, f"{e}: {show(val, 3)[:80]}")


KW = {"true": "True", "false": "False", "null": "None"}


def lists(a, where, rd, s, v, val, facts, lang, unknown, r_list, r_kw, r_el):
    lev = [y for y in dict.fromkeys(walk(val)) if isinstance(y, Sym) and y.op == "leval"]
    if len(lev) != 1:
        a.und(r_list, where, f"a list is made as {show(val, 3)[:100]}")
        return
    lev = lev[0]
    # ---- what is done to the elements
    if val is not lev:
        segs = val.segs if isinstance(val, Doc) else None
        if segs is not None and len(segs) == 1 and segs[0][0] == "base" and segs[0][1] is lev:
            pass
        elif segs is not None and len(segs) == 1 and segs[0][0] == "star" and segs[0][1] is lev:
            for f, y in segs[0][2]:
                if not y:
                    a.bad(r_list, where, "an element of a list is left out")
                    return
                for z in y:
                    for x, more in flat(z[2] if z[0] == "one" else z[1]):
                        if not (isinstance(x, Sym) and x.op == "elem"):
                            a.bad(r_list, where, f"an element of a list is stored as {show(x, 3)[:80]}")
                            return
        elif isinstance(val, Sym) or segs is not None and all(sg[0] in ("perm", "star", "one") for sg in segs):
            a.bad(r_list, where, f"a list is stored as {show(val, 3)[:100]}")
            return
        else:
            a.und(r_list, where, f"a list is stored as {show(val, 3)[:100]}")
            return
    # ---- the text it is made of
    t = lev.args[0]
    maps = {}
    while isinstance(t, Sym) and t.op in ("sub", "replace"):
        if t.op == "replace":
            inner = t.args[0]
            if not all(isinstance(x, Const) for x in t.args[1:3]):
                a.und(r_kw, where, f"replaced in a list: {show(t, 3)[:80]}")
                return
            x, y = t.args[1].v, t.args[2].v
            bad = _quoted_with(rx.contains(rx.lit(x)))
            r, ops = chain(_list_text(inner))
            try:
                w = some(rx.AND(lang, pull(bad, ops))) if x else None
            except rx.Unsupported:
                w = None
                a.und(r_kw, where, "replaced in a list")
            if w is not None and x != y:
                _report(a, r_kw, where, f"{x!r} is replaced by {y!r} inside quotes too, as in {w!r}", unknown)
            maps[x] = y
            t = inner
        else:
            R, repl, inner = t.args[0], t.args[1], t.args[2]
            if isinstance(R, Const):
                R = None
            m = _sub_map(a, where, r_kw, R, repl, t, v, lang, unknown)
            if m is None:
                return
            maps.update(m)
            t = inner
    r, ops = chain(t)
    g = v._group(r)
    if g is None or not v.same(g, facts):
        a.und(r_list, where, f"a list is read from {show(t, 3)[:100]}")
        return
    number_text(a, r_list, where, v, lang, ops, "list", unknown)
    a.ok(r_list, f"list <- {show(t, 2)[:80]}")
    for k, want in KW.items():
        if maps.get(k) == want:
            a.ok(r_kw, f"{k} -> {want}")
        elif k in maps:
            a.bad(r_kw, where, f"{k} in a list is read as {maps[k]}")
        else:
            a.bad(r_kw, where, f"a list with {k} cannot be read: it is not replaced by {want}")
    # ---- its elements
    elements(a, where, s, lev, facts, r_el)
    # ---- one quoted text, or none, to an element
    strange = re_(r"\[(?s:.)*(['\"]\s+['\"]|['\"]{2}['\"])(?s:.)*\]")
    q = r"(?:'[^']*'|\"[^\"]*\")"
    fine = re_(r"\[(?:[^'\",]*|\s*%s\s*)(?:,(?:[^'\",]*|\s*%s\s*))*\]" % (q, q))
    # texts that literal_eval accepts with quotes joined or prefixed
    joined = re_(r"\[\s*(?:[bBuUrR]?%s|[0-9]+)\s*(?:(?:,\s*|\s*)[bBuUrR]?%s\s*)*\]" % (q, q))
    try:
        extra = rx.AND(lang, pull(rx.determinise(rx.AND(joined, rx.NOT(fine))), ops))
        w = some(extra)
    except rx.Unsupported as e:
        a.und(r_el, where, str(e))
        return
    if w is not None:
        _report(a, r_el, where, f"{w!r} has an element that is more than one quoted text, and is stored as something else", unknown)
    else:
        a.ok(r_el, "one quoted text to an element")


def _quoted_with(n):
    """Lists with a text of the kind inside a quoted element."""
    e = "[^'\"]*"
    out = []
    for q in QUOTES:
        c = rx.lit(q)
        inside = rx.determinise(rx.AND(n, rx.cls(rx.mask_of(lambda d: d not in QUOTES), "*")))
        out.append(rx.concat(rx.lit("["), rx.cls(rx.FULL & ~QM, "*"), c, inside, c, rx.cls(rx.FULL & ~QM, "*"), rx.lit("]")))
    return rx.union(*out)


def _sub_map(a, where, rule, R, repl, t, v, lang, unknown):
    """What a substitution maps the keywords to; None if not understood."""
    P = pat(R) if R is not None else None
    if P is None:
        a.und(rule, where, "a substitution with an unknown pattern")
        return None
    n = P.nfa()
    # texts taken by one match: in quotes, or without any quote
    inq = re_(r"'[^']*'|\"[^\"]*\"")
    w = some(rx.AND(n, rx.NOT(rx.union(inq, rx.cls(rx.FULL & ~QM, "*")))))
    cases = _repl_cases(repl)
    if cases is None:
        a.und(rule, where, f"replaced by {show(repl, 3)[:80]}")
        return None
    # does it alter a match without quotes, and can such a match be inside quotes?
    covers = all(some(rx.AND(re_(q), rx.NOT(n))) is None for q in (r"'[^'\"]*'", r"\"[^'\"]*\""))
    mixed = all(some(rx.AND(re_(q), rx.NOT(n))) is None for q in (r"'[^']*'", r"\"[^\"]*\""))
    maps = {}
    alters_quoted = None
    for f, res in cases:
        keys = _keys(f, n)
        if isinstance(res, Const):
            for k in KW:
                if keys is None or k in keys:
                    if rx.witness(rx.AND(rx.lit(k), n)) is not None and _allows(f, k):
                        maps.setdefault(k, res.v)
            if keys is None and not isinstance(repl, Const):
                a.und(rule, where, f"a match is replaced by {res.v!r} on conditions out of reach")
        elif isinstance(res, Sym) and res.op == "group" or res is None:
            pass
        else:
            l = [n, re_(r"'[^']*'|\"[^\"]*\"")]
            w2 = some(rx.AND(*l))
            if w2 is not None:
                alters_quoted = (w2, res)
    if w is not None:
        a.bad(rule, where, f"one match of the substitution takes {w!r}, a part of quoted text")
        return maps
    if alters_quoted is not None:
        a.und(rule, where, f"quoted text is replaced by {show(alters_quoted[1], 3)[:80]}")
        return maps
    if maps and not (covers and mixed):
        _report(a, rule, where, f"{sorted(maps)[0]} is replaced inside quotes too: the pattern does not take quoted text first", unknown)
    elif maps:
        a.ok(rule, "quoted text is taken first and put back")
    return maps


def _repl_cases(repl):
    if isinstance(repl, Const):
        return [(frozenset(), repl)]
    if isinstance(repl, Sym) and repl.op == "fn":
        out = []
        for f, res in repl.args[0]:
            for x, more in flat(res):
                out.append((tuple(f) + tuple(more), x))
        return out
    return None


def _keys(f, n):
    """The matches of a case, where they are given one by one."""
    ks = None
    for at, p in f:
        if at.op == "eq" and p and isinstance(at.args[1], Const) and isinstance(at.args[0], Sym) and at.args[0].op == "group":
            ks = {at.args[1].v}
        elif at.op == "contains" and p and strlang._lits(at.args[0]) is not None:
            ks = set(strlang._lits(at.args[0]))
        elif at.op == "isnone":
            return ks
    return ks


def _allows(f, k):
    for at, p in f:
        if at.op == "eq" and isinstance(at.args[1], Const) and isinstance(at.args[0], Sym) and at.args[0].op == "group":
            if (at.args[1].v == k) is not p:
                return False
    return True


def _types_of(at, p):
    """Types of an element for which an atom has the polarity, if about types."""
    def names(x):
        if isinstance(x, Doc):
            x = [sg[1] if x.kind in ("set", "dict") else sg[2] for sg in x.segs if sg[0] == "one"]
        elif isinstance(x, Tup):
            x = x.items
        else:
            x = [x]
        out = set()
        for y in x:
            nm = getattr(y, "name", None) or getattr(y, "qual", None) or str(y).strip("<>")
            out.add(str(nm).split(".")[-1].strip("<>"))
        return out

    if at.op == "isnone":
        s = {"NoneType"}
    elif at.op == "contains" and isinstance(at.args[1], Sym) and at.args[1].op == "typeof":
        s = names(at.args[0])
    elif at.op in ("eq", "is") and any(isinstance(x, Sym) and x.op == "typeof" for x in at.args):
        s = names([x for x in at.args if not (isinstance(x, Sym) and x.op == "typeof")][0])
    elif at.op == "isinst":
        s = names(at.args[1])
        if "int" in s:
            s = s | {"bool"}
    else:
        return None
    s = {"NoneType" if x in ("None", "NoneType") else x for x in s}
    return (s, True) if p else (s, False)


UNIVERSE = PLAIN | {"list", "tuple", "dict", "set", "bytes", "complex", "ellipsis"}


def case_types(f):
    """(types of the elements of a case, is that all that is known)"""
    cur = set(UNIVERSE)
    odd = []
    for at, p in f:
        r = _types_of(at, p)
        if r is None:
            odd.append(at)
        elif r[1]:
            cur &= r[0]
        else:
            cur -= r[0]
    return cur, odd


def elements(a, where, s, lev, facts, rule):
    alls = []
    for fs in (facts, s.facts.items()):
        for at, p in fs:
            if at.op == "forall" and p and at.args[0] is lev:
                alls.append(at)
    for fs in facts, s.facts.items():
        for at, p in fs:
            if at.op == "exists" and not p and at.args[0] is lev:
                alls.append(at)
    if not alls:
        a.bad(rule, where, "the elements of a list are not checked: an element of any type is stored")
        return
    allowed = set(UNIVERSE)
    odd = []
    for at in dict.fromkeys(alls):
        got = set()
        for f in at.args[1]:
            t, o = case_types(f)
            got |= t
            odd += o
        if at.op == "exists":
            got = UNIVERSE - got
        allowed &= got
    extra = allowed - PLAIN
    if extra:
        (a.und if odd else a.bad)(rule, where, f"an element of a list may be of the type {sorted(extra)[0]}")
    else:
        a.ok(rule, "elements: " + ", ".join(sorted(allowed)))
    missing = PLAIN - allowed
    if missing:
        (a.und if odd else a.bad)(rule, where, f"a list with an element of the type {sorted(missing)[0]} is refused")
