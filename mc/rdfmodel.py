"""Reference vocabulary: model terms are plain tuples.

('I', iri)  ('L', value, lang, datatype-iri-or-None)  ('B', name)  None = default graph
"""
from . import sut  # noqa: F401
from pymantic.primitives import BlankNode, Literal, NamedNode, Quad, Triple

from .core import Mismatch

XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def I(x):
    return ("I", x)


def L(v, lang=None, dt=None):
    return ("L", v, lang, dt)


def B(n):
    return ("B", n)


class Realm:
    """Builds real terms from model terms; blank node names are scoped to the realm."""

    def __init__(self):
        self.nodes = {}

    def term(self, m):
        if m is None:
            return None
        k = m[0]
        if k == "I":
            return NamedNode(m[1])
        if k == "L":
            return Literal(m[1], m[2], NamedNode(m[3]) if m[3] is not None else None)
        if k == "B":
            if m[1] not in self.nodes:
                self.nodes[m[1]] = BlankNode()
            return self.nodes[m[1]]
        raise AssertionError(m)

    def triple(self, t):
        return Triple(self.term(t[0]), self.term(t[1]), self.term(t[2]))

    def quad(self, q):
        return Quad(self.term(q[0]), self.term(q[1]), self.term(q[2]), self.term(q[3]))


def back(t, names=None):
    """Model term of a real term. Blank nodes become ('B', <the real node's own identity>)."""
    if t is None:
        return None
    if isinstance(t, Literal):
        v, lang, dt = t.value, t.language, t.datatype
        if not isinstance(v, str) or not (lang is None or isinstance(lang, str)):
            raise Mismatch("literal has a non-string value or language", None, repr(t))
        if dt is not None and not isinstance(dt, NamedNode):
            raise Mismatch("literal datatype is not an IRI", None, repr(t))
        return ("L", plain(v), plain(lang) if lang is not None else None, plain(dt) if dt is not None else None)
    if isinstance(t, BlankNode):
        if names is not None:
            return ("B", names.setdefault(id(t), "n%d" % len(names)))
        return ("B", id(t))
    if isinstance(t, NamedNode):
        return ("I", plain(t))
    raise Mismatch("not an RDF term", "IRI, literal or blank node", "%s %r" % (type(t).__name__, t))


def plain(s):
    return str.__str__(s) if type(s) is not str else s


def back_triple(t):
    if not isinstance(t, Triple):
        raise Mismatch("not a Triple", None, repr(t))
    return (back(t.subject), back(t.predicate), back(t.object))


def back_quad(q):
    if not isinstance(q, Quad):
        raise Mismatch("not a Quad", None, repr(q))
    return (back(q.subject), back(q.predicate), back(q.object), back(q.graph))


def norm(t):
    """xsd:string literal -> plain literal."""
    if t is not None and t[0] == "L" and t[3] == XSD + "string":
        return ("L", t[1], t[2], None)
    return t


def normset(stmts):
    return frozenset(tuple(norm(x) for x in s) for s in stmts)


# ---- isomorphism of sets of statements (tuples of model terms) ----

def _bn(stmts):
    return {x[1] for s in stmts for x in s if x is not None and x[0] == "B"}


def _refine(stmts, nodes, col):
    inc = {n: [] for n in nodes}
    for s in stmts:
        for x in {x[1] for x in s if x is not None and x[0] == "B"}:
            inc[x].append(s)
    while True:
        new = {}
        for n in nodes:
            sig = sorted(
                repr([("self",) if (x is not None and x[0] == "B" and x[1] == n)
                      else ("b", col[x[1]]) if (x is not None and x[0] == "B") else x for x in s])
                for s in inc[n])
            new[n] = repr((col[n], sig))
        # compress to canonical small ints by sorted order
        order = {c: i for i, c in enumerate(sorted(set(new.values())))}
        new2 = {n: (order[new[n]], ) for n in nodes}
        sigs = sorted(new.values())
        if len(set(new2.values())) == len(set(col.values())):
            return new2, sigs
        col = new2


def _by_key(a, b):
    """Statements all distinguishable by their ground parts: the bijection is forced. None if they are not."""
    def key(s):
        return tuple(("B",) if (x is not None and x[0] == "B") else x for x in s)
    ka = {key(s): s for s in a}
    if len(ka) != len(a):
        return None
    kb = {key(s): s for s in b}
    if ka.keys() != kb.keys() or len(kb) != len(b):
        return False
    m, r = {}, {}
    for k, s in ka.items():
        for x, y in zip(s, kb[k]):
            if x is not None and x[0] == "B":
                if m.setdefault(x[1], y[1]) != y[1] or r.setdefault(y[1], x[1]) != x[1]:
                    return False
    return True


def isomorphic(a, b):
    """Is there a bijection of blank nodes mapping statement set a onto b?"""
    a, b = frozenset(a), frozenset(b)
    if len(a) != len(b):
        return False
    quick = _by_key(a, b)
    if quick is not None:
        return quick
    na, nb = _bn(a), _bn(b)
    if len(na) != len(nb):
        return False
    if not na:
        return a == b
    ca, sa = _refine(a, na, {n: (0,) for n in na})
    cb, sb = _refine(b, nb, {n: (0,) for n in nb})
    if sa != sb:
        return False
    return _match(a, b, na, nb, ca, cb)


def _match(a, b, na, nb, ca, cb):
    """Individualize and refine: is there a color-respecting bijection?"""
    groups_a, groups_b = {}, {}
    for n in na:
        groups_a.setdefault(ca[n], []).append(n)
    for n in nb:
        groups_b.setdefault(cb[n], []).append(n)
    if {c: len(g) for c, g in groups_a.items()} != {c: len(g) for c, g in groups_b.items()}:
        return False
    open_ = [(len(g), c) for c, g in groups_a.items() if len(g) > 1]
    if not open_:
        m = {n: groups_b[ca[n]][0] for n in na}
        return frozenset(tuple(("B", m[x[1]]) if (x is not None and x[0] == "B") else x for x in s) for s in a) == b
    c = min(open_)[1]
    x = groups_a[c][0]
    ca2, sa = _refine(a, na, {**ca, x: (-1,)})
    for y in groups_b[c]:
        cb2, sb = _refine(b, nb, {**cb, y: (-1,)})
        if sa == sb and _match(a, b, na, nb, ca2, cb2):
            return True
    return False


def canon_names(stmts):
    """Deterministic display of a statement set (blank nodes renamed in order)."""
    names = {}
    out = []
    for s in sorted(stmts, key=lambda s: repr([("B",) if (x is not None and x[0] == "B") else x for x in s])):
        out.append(tuple(("B", names.setdefault(x[1], "n%d" % len(names))) if (x is not None and x[0] == "B") else x for x in s))
    return out


def shape(stmts):
    """Isomorphism-invariant key (refined colours); used only to count distinct states."""
    n = _bn(stmts)
    if not n:
        return repr(sorted(map(repr, stmts)))
    col, sigs = _refine(stmts, n, {x: (0,) for x in n})
    return repr((sorted(repr([("b", col[x[1]]) if (x is not None and x[0] == "B") else x for x in s]) for s in stmts), len(n)))


def expect_iso(what, want, got, finding=None):
    if not isomorphic(want, got):
        raise Mismatch(what, canon_names(want), canon_names(got), finding)


# A broad set of terms that differ from each other in just one respect.
RICH = [
    I("http://e/a"), I("http://e/A"), I("http://e/b"), I("http://e/"), I("http://e"), I("http://e/a#"), I("http://e/a#f"),
    I("urn:x:1"), I("a"), I("x"), I(""), I("en"), I("None"), I("0"), I("http://e/\u00e9"), I("http://e/%C3%A9"),
    I("_:x"), I(RDF + "type"), I(RDF + "nil"), I(XSD + "string"),
    B("x"), B("y"),
    L(""), L("", "en"), L("x"), L("X"), L("x", "en"), L("x", "en-us"), L("x", "en-US"), L("x", "fr"), L("x", None, XSD + "string"),
    L("x", None, "http://e/a"), L("x", None, "http://e/b"), L("http://e/a"), L("_:x"), L("1"), L("01", None, XSD + "integer"),
    L("1", None, XSD + "integer"), L("1", None, XSD + "decimal"), L("1.0", None, XSD + "double"), L("true", None, XSD + "boolean"),
    L("x "), L(" x"), L("x\n"), L('"x"'), L("\\"), L("\u00e9"), L("e\u0301"), L("\U0001f600"), L("None"), L("0"), L("en"),
    L("long " * 60),
]
