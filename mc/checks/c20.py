"""C20: iterating an RDF list yields exactly its elements in order."""
import itertools
import json

from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..rdfmodel import RDF, XSD, B, I, L, Realm, back
import pymantic.rdf as prdf
from pymantic.parsers import jsonld_parser, turtle_parser
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple

LEVEL = "model_checking"
TECHNIQUE = "exhaustive element sequences and nestings, built as statements, Turtle and JSON-LD, iterated by the real List against the sequence"
RULE = ("every sequence of up to k elements of every kind over several cell shapes (blank, named, typed, annotated, built in any statement "
        "order), every nesting shape up to a size; iteration in full, in part, twice and interleaved; is_list of every node")
ASSUMPTIONS = ["one first and one rest per cell, ending in rdf:nil"]

NS = "http://l/"
FIRST, REST, NIL, TYPE = I(RDF + "first"), I(RDF + "rest"), I(RDF + "nil"), I(RDF + "type")


@prdf.register_class(NS + "T")
class Thing(prdf.Resource):
    pass


@prdf.register_class(NS + "U")
class Other(prdf.Resource):
    pass


class Sub(prdf.List):
    prefixes = {"l": NS}
    lang = "fr"


KINDS = [
    I(NS + "a"), I(NS + "t"), B("x"), B("tu"), L("v"), L("v", "en"), L("v", "fr"), L("v", "en-us"), L("1", None, XSD + "integer"), L("v", None, XSD + "string"),
    L("", "de"), L(""), L("v", None, NS + "dt"), NIL, I(""),
]
TYPES = [(I(NS + "t"), TYPE, I(NS + "T")), (B("tu"), TYPE, I(NS + "T")), (B("tu"), TYPE, I(NS + "U"))]
WANT = {I(NS + "t"): {Thing}, B("tu"): {Thing, Other}}


def element(R, g, x, types=WANT):
    """model of an element iteration gave; checks its class"""
    if isinstance(x, Literal):
        return back(x)
    if not isinstance(x, prdf.Resource):
        raise Mismatch("an element is neither a literal nor a resource", None, repr(x))
    if x.graph is not g:
        raise Mismatch("an element belongs to another graph", None, repr(x))
    m = back(x.subject)
    for k, n in R.nodes.items():
        if x.subject is n:
            m = ("B", k)
    for c in (Thing, Other):
        if isinstance(x, c) != (c in types.get(m, ())):
            raise Mismatch("class of element %r" % (m,), types.get(m, "Resource"), type(x))
    return m


def compare(what, R, g, head, want, cls=prdf.List):
    def it():
        return cls(g, head)
    r = attempt(lambda: [element(R, g, x) for x in it()])
    if r[0] == "exc" or r[1] != list(want):
        raise Mismatch(what, list(want), repr(r[1]))
    l = it()
    i1, i2 = iter(l), iter(l)
    got = []
    for x in i1:  # two iterators over one list, the second one ahead
        y = attempt(next, i2, None)
        got.append((element(R, g, x), element(R, g, y[1]) if y[1] is not None else None))
    if got != [(z, z) for z in want] or next(i2, None) is not None:
        raise Mismatch(what + " by two iterators at once", want, got)
    if [element(R, g, x) for x in l] != list(want) or l.subject != head:
        raise Mismatch(what + " again", want, None)


SHAPES = ["blank", "named", "typed", "annotated", "reverse", "mixed"]


def build(elems, shape):
    """-> (realm, graph, head, cells)"""
    R = Realm()
    st = list(TYPES)
    cells = []
    for i in range(len(elems)):
        named = shape == "named" or shape == "mixed" and i % 2
        cells.append(I(NS + "cell%d" % i) if named else B("c%d" % i))
    for i, e in enumerate(elems):
        nxt = cells[i + 1] if i + 1 < len(cells) else NIL
        st += [(cells[i], FIRST, e), (cells[i], REST, nxt)]
        if shape == "typed":
            st += [(cells[i], TYPE, I(RDF + "List")), (cells[i], TYPE, I(NS + "T"))]
        if shape == "annotated":
            st += [(cells[i], I(NS + "note"), L("n", "en")), (cells[i], I("http://www.w3.org/2000/01/rdf-schema#label"), L("lab")), (I(NS + "other"), I(NS + "ref"), cells[i])]
    head = cells[0] if cells else NIL
    st.append((I(NS + "s"), I(NS + "p"), head))
    if shape == "reverse":
        st.reverse()
    g = Graph()
    for t in st:
        g.add(R.triple(t))
    return R, g, head, cells, st


def x_flat(case):
    _, batch, shape = case
    n = 0
    for ix in batch:
        elems = [KINDS[i] for i in ix]
        if shape != "blank" and B("tu") in elems and shape == "typed":
            pass
        R, g, head, cells, st = build(elems, shape)
        compare("list %r (%s cells)" % (elems, shape), R, g, R.term(head), elems)
        compare("list %r (%s cells) of a subclass" % (elems, shape), R, g, R.term(head), elems, Sub)
        res = prdf.Resource(g, NS + "s").get_scalar(NamedNode(NS + "p"))
        r = attempt(lambda: [element(R, g, x) for x in res.as_(prdf.List)])
        if r[0] == "exc" or r[1] != elems:
            raise Mismatch("as_(List) of %r" % (elems,), elems, repr(r[1]))
        if head[0] == "I":
            r = attempt(lambda: [element(R, g, x) for x in prdf.List(g, head[1])])
            if r[0] == "exc" or r[1] != elems:
                raise Mismatch("List by IRI text of %r" % (elems,), elems, repr(r[1]))
        for k in range(len(elems)):  # the tail is a list of its own
            r = attempt(lambda: [element(R, g, x) for x in prdf.List(g, R.term(cells[k]))])
            if r[0] == "exc" or r[1] != elems[k:]:
                raise Mismatch("tail %d of %r" % (k, elems), elems[k:], repr(r[1]))
        for z in {t[0] for t in st} | {t[2] for t in st} | {NIL, I(NS + "nobody"), FIRST, REST}:
            if z[0] == "L":
                continue
            want = any(t[0] == z and t[1] == REST for t in st)
            got = prdf.List.is_list(R.term(z), g)
            if got is not want:
                raise Mismatch("is_list(%r) with %r" % (z, elems), want, got)
            n += 1
        if len(g) != len(set(st)):
            raise Mismatch("iterating changed the graph", len(set(st)), len(g))
        n += 5
    return [repr((ix, shape)) for ix in batch], n


def c_flat(k, kk):
    def gen():
        for shape in SHAPES:
            seqs = itertools.chain.from_iterable(itertools.product(range(len(KINDS)), repeat=m) for m in range((k if shape == "blank" else kk) + 1))
            for b in batches(seqs, 60):
                yield ("flat", b, shape)
    return gen


# ---- nestings and documents ----
def trees(n):
    """all ordered forests (tuples) with n nodes, a node being a leaf index or a tuple"""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in trees(n - first):
            if first == 1:
                yield ("leaf",) + rest
            for inner in trees(first - 1):
                yield (inner,) + rest


TL = [("<http://l/a>", I(NS + "a"), {"@id": NS + "a"}), ('"v"', L("v", None, XSD + "string"), "v"), ('"v"@en', L("v", "en"), {"@value": "v", "@language": "en"}), ('"v"@fr-ca', L("v", "fr-ca"), {"@value": "v", "@language": "fr-ca"}),
      ("1", L("1", None, XSD + "integer"), 1), ("_:x", ("B", "x"), {"@id": "_:x"}), ("<http://l/t>", I(NS + "t"), {"@id": NS + "t"}), ("true", L("true", None, XSD + "boolean"), True), ('"1"^^<http://l/dt>', L("1", None, NS + "dt"), {"@value": "1", "@type": NS + "dt"}),
      ("rdf:nil", NIL, {"@id": RDF + "nil"})]


def fill(tree, leaves):
    it = iter(leaves)

    def go(t):
        return tuple(go(x) if isinstance(x, tuple) else TL[next(it)] + ("leaf",) for x in t)
    return go(tree)


def is_leaf(x):
    return len(x) == 4 and x[3] == "leaf"


def ttl(t):
    return "( " + " ".join(x[0] if is_leaf(x) else ttl(x) for x in t) + " )"


def jl(t):
    return {"@list": [x[2] if is_leaf(x) else jl(x) for x in t]}


def walk(g, node, t, where):
    """iterate the real list at node and compare with tree t, to any depth"""
    r = attempt(lambda: list(prdf.List(g, node)))
    if r[0] == "exc" or len(r[1]) != len(t):
        raise Mismatch(where, "%d elements" % len(t), repr(r[1]))
    xs = []
    for got, want in zip(r[1], t):
        if is_leaf(want):
            w = want[1]
            if isinstance(got, Literal):
                m = back(got)
                if m[3] == XSD + "string":
                    m = m[:3] + (None,)
                if w[0] == "L" and w[3] == XSD + "string":
                    w = w[:3] + (None,)
                if m != w:
                    raise Mismatch(where, w, m)
            elif w[0] == "B":
                if not isinstance(getattr(got, "subject", None), BlankNode):
                    raise Mismatch(where, w, repr(got))
                xs.append(got.subject)
            elif not isinstance(got, prdf.Resource) or got.subject != w[1] or isinstance(got, Thing) != (w == I(NS + "t")):
                raise Mismatch(where, w, repr(got))
        else:
            if not isinstance(got, prdf.Resource):
                raise Mismatch(where, "a nested list", repr(got))
            if prdf.List.is_list(got.subject, g) != bool(want) or not want and got.subject != NIL[1]:
                raise Mismatch(where + ": nested list", bool(want), repr(got))
            xs += walk(g, got.subject, want, where)
    return xs


def x_doc(case):
    _, batch, fmt = case
    keys = []
    for tree, leaves in batch:
        t = fill(tree, leaves)
        if fmt == "jsonld":
            doc = {"@graph": [{"@id": NS + "s", NS + "p": jl(t)}, {"@id": NS + "t", "@type": NS + "T"}, {"@id": NS + "s", NS + "x": {"@id": "_:x"}}]}
            g0 = jsonld_parser.parse_json(doc)
            g = Graph()
            for q in g0:
                g.add(Triple(q.subject, q.predicate, q.object))
        elif fmt == "subject":
            doc = "@prefix rdf: <%s> .\n<%st> a <%sT> . <%ss> <%sx> _:x .\n%s <%sof> <%ss> ." % (RDF, NS, NS, NS, NS, ttl(t), NS, NS)
            g = turtle_parser.parse(doc)
        else:
            doc = "@prefix rdf: <%s> .\n<%st> a <%sT> . <%ss> <%sx> _:x ; <%sp> %s ." % (RDF, NS, NS, NS, NS, NS, ttl(t))
            g = turtle_parser.parse(doc)
        if fmt == "subject":
            heads = [x.subject for x in g.match(None, NamedNode(NS + "of"), None)]
        else:
            heads = [x.object for x in g.match(NamedNode(NS + "s"), NamedNode(NS + "p"), None)]
        if len(heads) != 1:
            raise Mismatch("the list's head", "one", heads)
        xs = walk(g, heads[0], t, "list read from %r" % (doc,))
        theb = [x.object for x in g.match(NamedNode(NS + "s"), NamedNode(NS + "x"), None)]
        if any(b is not theb[0] for b in xs):
            raise Mismatch("blank node in a list of %r" % (doc,), "the node labelled x", xs)
        keys.append(repr((tree, leaves)))
    return keys, len(batch)


def count(t):
    return sum(1 if x == "leaf" else count(x) for x in t)


def c_doc(n, full):
    def items():
        for size in range(n + 1):
            for tree in trees(size):
                c = count(tree)
                if c <= full:
                    for lv in itertools.product(range(len(TL)), repeat=c):
                        yield (tree, lv)
                else:
                    for s in range(len(TL)):
                        yield (tree, tuple((s + 3 * i) % len(TL) for i in range(c)))

    def gen():
        for fmt in ("object", "subject", "jsonld"):
            for b in batches(items(), 40):
                if fmt == "subject":
                    b = tuple(x for x in b)
                yield ("doc", b, fmt)
    return gen


# ---- length ----
def x_long(case):
    _, n, how = case
    if how == "turtle":
        g = turtle_parser.parse("<http://l/s> <http://l/p> ( " + " ".join(map(str, range(n))) + " ) .")
    else:
        g = Graph()
        cells = [BlankNode() for _ in range(n)]
        g.add(Triple(NamedNode(NS + "s"), NamedNode(NS + "p"), cells[0] if n else NamedNode(NIL[1])))
        for i in range(n):
            g.add(Triple(cells[i], NamedNode(FIRST[1]), Literal(str(i), datatype=NamedNode(XSD + "integer"))))
            g.add(Triple(cells[i], NamedNode(REST[1]), cells[i + 1] if i + 1 < n else NamedNode(NIL[1])))
    head = next(iter(g.match(NamedNode(NS + "s"), NamedNode(NS + "p"), None))).object
    got = [x.value for x in prdf.List(g, head)]
    if got != [str(i) for i in range(n)]:
        raise Mismatch("list of %d elements (%s)" % (n, how), n, len(got))
    return repr(case), n


def c_long(ns):
    def gen():
        for n in ns:
            for how in ("turtle", "direct"):
                yield ("long", n, how)
    return gen


# ---- one list iterated, changed (with nothing asked in between) and iterated again ----
VKINDS = [I(NS + "a"), I(NS + "t"), B("x"), L("v"), L("v", "en")]
EDITS = ([("first", c, e) for c in range(3) for e in range(len(VKINDS))] + [("rest", c, d) for c, d in ((0, 2), (0, None), (1, None), (2, None), (1, 2), (0, 1))] +
         [("class", z, on) for z in (1, 2) for on in (0, 1)] + [("append", e, None) for e in (0, 3)])


def x_edits(case):
    _, shape, start, how = case
    n = 0
    elems0 = [VKINDS[i] for i in start]
    for e1, e2 in itertools.product(EDITS, repeat=2):
        R, g, head, cells, _ = build(elems0, shape)
        first, nxt, types = list(elems0), [1, 2, None], {k: set(v) for k, v in WANT.items()}

        def cell(i):
            return NIL if i is None else cells[i]

        def now():
            out, i = [], 0
            while i is not None:
                out.append(first[i])
                i = nxt[i]
            return out
        kept = prdf.List(g, R.term(head))

        def read(where):
            for l in (kept, prdf.List(g, R.term(head))):
                r = attempt(lambda: [element(R, g, x, types) for x in l])
                if r[0] == "exc" or r[1] != now():
                    raise Mismatch("%s (%s cells, from %r)" % (where, shape, elems0), now(), repr(r[1]))
        if how == "full":
            read("iterating")
        elif how == "part":
            it = iter(kept)
            next(it)
            del it
        elif how == "is_list":
            for c in cells:
                prdf.List.is_list(R.term(c), g)
        for op, p, q in (e1, e2):
            if op == "first":
                g.remove(R.triple((cells[p], FIRST, first[p])))
                first[p] = VKINDS[q]
                g.add(R.triple((cells[p], FIRST, first[p])))
            elif op == "rest":
                g.remove(R.triple((cells[p], REST, cell(nxt[p]))))
                nxt[p] = q
                g.add(R.triple((cells[p], REST, cell(q))))
            elif op == "class":
                z = VKINDS[p]
                f = g.add if q else g.remove
                if bool(q) != (Thing in types.get(z, ())):
                    f(R.triple((z, TYPE, I(NS + "T"))))
                    types.setdefault(z, set())
                    (types[z].add if q else types[z].discard)(Thing)
            else:  # a new last cell
                i = 0
                while nxt[i] is not None:
                    i = nxt[i]
                cells.append(I(NS + "new%d" % len(cells)) if shape == "named" else B("new%d" % len(cells)))
                g.remove(R.triple((cells[i], REST, NIL)))
                nxt[i] = len(cells) - 1
                first.append(VKINDS[p])
                nxt.append(None)
                for t in ((cells[i], REST, cells[-1]), (cells[-1], FIRST, first[-1]), (cells[-1], REST, NIL)):
                    g.add(R.triple(t))
        read("after %r" % ((e1, e2),))
        n += 1
    return repr(case), n


def c_edits(th):
    def gen():
        for shape in ("blank", "named", "typed"):
            for start in itertools.product(range(len(VKINDS)), repeat=3):
                if not th and (start[0] + 2 * start[1] + start[2]) % 5:
                    continue
                for how in ("full", "part", "is_list"):
                    yield ("edits", shape, start, how)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("lengths", c_long([0, 1, 2, 10, 100, 500, 1200, 3000] + ([10000] if th else [])), x_long, "lists of up to %d elements" % (10000 if th else 3000)),
        Space("changing lists", c_edits(th), x_edits, "lists of 3 elements read in full, in part or asked about, changed by every pair of %d exchanges with nothing asked between, and read again" % len(EDITS)),
        Space("documents", c_doc(7 if th else 5, 4 if th else 3), x_doc, "all nestings of <= %d elements and lists, all leaves where there are <= %d, in Turtle (subject, object) and JSON-LD" % (7 if th else 5, 4 if th else 3)),
        Space("sequences", c_flat(4 if th else 3, 3 if th else 2), x_flat, "all sequences of <= %d of %d kinds of elements in blank cells, <= %d in other shapes" % (4 if th else 3, len(KINDS), 3 if th else 2)),
    ]
