"""C11: blank node labels are scoped to one parse call."""
import io
import itertools
import json

from .. import docscale, ntref, ttlref
from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..ntref import Reject
from ..rdfmodel import back_quad, back_triple, canon_names, isomorphic
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, RDFEnvironment
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of parse-call histories and of label placements on the real parsers, against reference readers"
RULE = ("all sequences of parse calls (succeeding and failing, all parsers, strings and streams, re-reading printed labels) up to a depth; "
        "after every call the document's own structure is compared with the reference reader and all blank nodes ever returned are "
        "compared for identity and printed label; all placements of labels in documents of up to 3 statements")
ASSUMPTIONS = ["a blank node is one Python object; the explorer keeps every returned graph alive"]


# ---- label placements ----
LABELS = ["a", "b", "A", "a1"]
NASTY = ["0", "b0", "b1", "_", "a.b", "a-", "genid0", "n0", "\u00e9", "a\u00b7", "x" * 40, "None", "a:b", "true", "\U00010000"]
TTLTERMS = ["_:a", "_:b", "[]", "[ <http://e/q> _:a ]", "( _:a )", "()", "( [] )"]


def check(lang, doc, got, quads):
    want = set(ttlref.read(doc)) if lang == "ttl" else set(ntref.read(doc, quads))
    items = [(back_quad if quads else back_triple)(t) for t in got]
    if len(items) != len(set(items)) or not isomorphic(want, set(items)):
        raise Mismatch("blank nodes of one document: " + ascii(doc), canon_names(want), canon_names(items))


def printed(nodes):
    labels = {}
    for n in nodes:
        for s in (str(n), n.toNT()):
            other = labels.setdefault(s, n)
            if other is not n:
                raise Mismatch("two live blank nodes print the same", None, s)
        if str(n) != n.toNT() or str(n)[:2] != "_:" or str(n) != str(n):
            raise Mismatch("printed label", "_:...", (str(n), n.toNT()))


def bnodes(got):
    out = {}
    for st in got:
        for t in st:
            if isinstance(t, BlankNode):
                out[id(t)] = t
    return list(out.values())


def line(i, s, o, g=None):
    return "_:%s <http://e/p%d> _:%s %s." % (s, i, o, "" if g is None else "_:%s " % g)


def c_place(tier):
    def gen():
        def nt():
            for n in (1, 2, 3):
                for labs in itertools.product(LABELS[:4 if n < 3 else 3], repeat=2 * n):
                    yield ("nt", "\n".join(line(i, labs[2 * i], labs[2 * i + 1]) for i in range(n)))
            for x, y in itertools.product(NASTY + LABELS, repeat=2):
                if ":" not in x + y or tier:
                    yield ("nt", line(0, x, y) + "\n" + line(1, y, "a"))

        def nq():
            for n in (1, 2):
                for labs in itertools.product(LABELS[:3], repeat=3 * n):
                    yield ("nq", "\n".join(line(i, *labs[3 * i:3 * i + 3]) for i in range(n)))
            if tier == "thorough":
                for labs in itertools.product(LABELS[:2], repeat=9):
                    yield ("nq", "\n".join(line(i, *labs[3 * i:3 * i + 3]) for i in range(3)))
            for labs in itertools.product(LABELS[:3], repeat=3):
                for g in ("", "<http://e/g> "):
                    yield ("nq", "_:%s <http://e/p> \"x\" %s.\n" % (labs[0], g) + line(1, *labs))

        def ttl():
            for s, o in itertools.product(TTLTERMS, repeat=2):
                yield ("ttl", "%s <http://e/p> %s ." % (s, o))
            for t in itertools.product(TTLTERMS[:7 if tier == "thorough" else 5], repeat=4):
                yield ("ttl", "%s <http://e/p> %s .\n%s <http://e/r> %s ." % t)
            for x, y in itertools.product([n for n in NASTY if ":" not in n] + LABELS, repeat=2):
                yield ("ttl", "_:%s <http://e/p> [ <http://e/q> _:%s ] . _:a <http://e/r> ( _:%s )." % (x, y, x))
        for b in batches(itertools.chain(nt(), nq(), ttl()), 50):
            yield ("place", b)
    return gen


PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}


def x_place(case):
    keys = []
    for lang, doc in case[1]:
        forms = [doc] if lang == "ttl" else [doc, io.StringIO(doc)]
        alive = []
        for f in forms:
            r = attempt(PARSERS[lang].parse, f)
            if r[0] == "exc":
                raise Mismatch("document was refused: " + ascii(doc), None, repr(r[1])[:500])
            check(lang, doc, r[1], lang == "nq")
            alive.append(r[1])
        b = [bnodes(g) for g in alive]
        if len(b) > 1 and {id(x) for x in b[0]} & {id(x) for x in b[1]}:
            raise Mismatch("two calls share a blank node: " + ascii(doc), None, None)
        printed([x for l in b for x in l])
        keys.append(lang + doc)
    return keys, len(keys)


# ---- documents in which the number or the length of labels grows ----
def c_scale(tier):
    def gen():
        for lang in PARSERS:
            for kind in ("label", "labels") if lang == "ttl" else ("label", "labels", "one label"):
                for b in batches(iter(docscale.sizes(kind, tier) + ([] if kind == "label" else [1001, 1025] if tier != "thorough" else [3000, 5000])), 10):
                    yield ("scale", lang, kind, b)
    return gen


def x_scale(case):
    _, lang, kind, ns = case
    docs = [(lang, docscale.ttl_doc(kind, n) if lang == "ttl" else docscale.lines_doc(kind, n, lang == "nq")) for n in ns]
    x_place(("place", docs))
    return ["%s %s %d" % (lang, kind, n) for n in ns], len(ns)


# ---- histories ----
class Boom(Exception):
    pass


class BadStream(io.StringIO):
    def __init__(self, text, n):
        io.StringIO.__init__(self, text)
        self.n = n

    def readline(self, *a):
        if self.n == 0:
            raise Boom()
        self.n -= 1
        return io.StringIO.readline(self)

    def read(self, *a):
        raise Boom()

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x


NT = "_:a <http://e/p> _:b .\n_:b <http://e/q> _:a .\n_:a <http://e/r> \"x\" .\n"
NQ = "_:a <http://e/p> _:b _:g .\n_:b <http://e/q> _:g .\n_:g <http://e/r> _:a <http://e/g> .\n"
TTL = "_:a <http://e/p> [ <http://e/q> _:b , [] ], ( _:a [] ).\n_:b <http://e/r> _:a.\n"
JS = {"@id": "_:a", "http://e/p": [{"@id": "_:b"}, {"@id": "_:a"}], "http://e/q": {"@list": [{"@id": "_:b"}, {}]}}
JSQ = {(("B", "a"), ("I", "http://e/p"), ("B", "b"), None)}


class World:
    def __init__(self):
        self.live = []        # (graph, own nodes)
        self.nodes = {}       # id -> node, everything ever returned

    def fresh(self, g, before=()):
        mine = {id(n): n for n in bnodes(g)}
        new = {k: n for k, n in mine.items() if k not in set(before)}
        if set(new) & set(self.nodes):
            raise Mismatch("a blank node of an earlier call came back", None, None)
        self.nodes.update(new)
        printed(self.nodes.values())
        self.live.append(g)
        return new


def op_nt(w):
    g = ntriples_parser.parse(NT)
    check("nt", NT, g, False)
    w.fresh(g)


def op_nt_stream(w):
    g = ntriples_parser.parse(io.StringIO(NT))
    check("nt", NT, g, False)
    w.fresh(g)


def op_nt_bytes(w):
    g = ntriples_parser.parse_string(NT.encode())
    check("nt", NT, g, False)
    w.fresh(g)


def op_nt_into(w):
    """Into the most recent plain graph."""
    g = next((x for x in reversed(w.live) if isinstance(x, Graph)), None)
    if g is None:
        g = Graph()
    before = {id(n) for n in bnodes(g)}
    old = set(g)
    ntriples_parser.parse(NT, g)
    if len(g) != len(old) + 3:
        raise Mismatch("reading the same labels again merged nodes", len(old) + 3, len(g))
    check("nt", NT, [t for t in g if t not in old], False)
    w.fresh(g, before)


def op_ttl_into(w):
    g = next((x for x in reversed(w.live) if isinstance(x, Graph)), None)
    if g is None:
        g = Graph()
    before = {id(n) for n in bnodes(g)}
    old = set(g)
    turtle_parser.parse(TTL, g)
    check("ttl", TTL, [t for t in g if t not in old], False)
    w.fresh(g, before)


def op_nq(w):
    g = nquads_parser.parse(NQ)
    check("nq", NQ, g, True)
    w.fresh(g)


def op_nq_stream(w):
    g = nquads_parser.parse(io.StringIO(NQ))
    check("nq", NQ, g, True)
    w.fresh(g)


def op_ttl(w):
    g = turtle_parser.parse(TTL)
    check("ttl", TTL, g, False)
    w.fresh(g)


def op_js(w):
    g = jsonld_parser.parse_json(json.loads(json.dumps(JS)))
    items = {back_quad(q) for q in g}
    n = {x[1] for q in items for x in q if x and x[0] == "B"}
    if len(items) != 7 or len(n) != 5:
        raise Mismatch("JSON-LD document", "7 statements over 5 blank nodes", canon_names(items))
    w.fresh(g)


def fail(f, *a):
    r = attempt(f, *a)
    if r[0] == "ok":
        raise Mismatch("a document that must be refused was read", "an exception", a)


def op_nt_fail(w):
    fail(ntriples_parser.parse, NT + "_:a <http://e/p> .\n")


def op_nt_stream_fail(w):
    g = Graph()
    fail(ntriples_parser.parse, io.StringIO(NT + "bogus\n"), g)
    check("nt", NT, g, False)
    w.fresh(g)


def op_nq_boom(w):
    g = Dataset()
    fail(nquads_parser.parse, BadStream(NQ, 2), g)
    check("nq", "".join(NQ.splitlines(True)[:2]), g, True)
    w.fresh(g)


def op_ttl_fail(w):
    fail(turtle_parser.parse, TTL + "_:a nope:x _:b .")


def op_ttl_badsyntax(w):
    fail(turtle_parser.parse, TTL + "_:a [ .")


def op_js_fail(w):
    fail(jsonld_parser.parse_json, {"@id": "_:a", "@type": 5})


def op_reread(w):
    """Write everything read so far and read it again: printed labels come in as labels of the document."""
    for g in list(w.live)[-2:]:
        f = io.StringIO()
        if isinstance(g, Dataset):
            serialize_nquads(g, f)
            h = nquads_parser.parse(f.getvalue())
            b = back_quad
        else:
            serialize_ntriples(g, f)
            h = ntriples_parser.parse(f.getvalue())
            b = back_triple
        if not isomorphic({b(t) for t in g}, {b(t) for t in h}):
            raise Mismatch("re-read graph differs", canon_names({b(t) for t in g}), canon_names({b(t) for t in h}))
        w.fresh(h)


def op_reread_ttl(w):
    g = next((x for x in reversed(w.live) if isinstance(x, Graph)), None)
    if g is None:
        return
    f = io.StringIO()
    serialize_turtle(g, f)
    w.fresh(turtle_parser.parse(f.getvalue()))


def op_own(w):
    """Nodes made directly and by an environment, and labels spelled like theirs."""
    a, b = BlankNode(), RDFEnvironment().createBlankNode()
    g = Graph()
    ntriples_parser.parse("%s <http://e/p> %s .\n%s <http://e/q> _:b0 ." % (a, b, a), g)
    n = w.fresh(g)
    if id(a) in n or id(b) in n or len(n) != 3:
        raise Mismatch("a label spelled like a live node's", "3 fresh nodes", n)
    for x in (a, b):
        w.nodes[id(x)] = x
    printed(w.nodes.values())


def op_drop(w):
    """Let go of everything: printed labels may then be used again."""
    w.live.clear()
    w.nodes.clear()


OPS = [op_nt, op_nt_stream, op_nt_bytes, op_nt_into, op_ttl_into, op_nq, op_nq_stream, op_ttl, op_js, op_nt_fail, op_nt_stream_fail, op_nq_boom,
       op_ttl_fail, op_ttl_badsyntax, op_js_fail, op_reread, op_reread_ttl, op_own, op_drop]


def c_hist(depth):
    def gen():
        for n in range(1, depth):
            for b in batches(itertools.product(range(len(OPS)), repeat=n), 10):
                yield ("hist", b)
        for b in batches(itertools.product(range(len(OPS)), repeat=depth), 40):
            yield ("hist", b)
    return gen


def x_hist(case):
    n = 0
    for seq in case[1]:
        w = World()
        for k, o in enumerate(seq):
            try:
                OPS[o](w)
            except Mismatch as m:
                m.what = "after %s: %s" % ([OPS[x].__name__[3:] for x in seq[:k + 1]], m.what)
                raise
            n += 1
    return [repr(s) for s in case[1]], n


# ---- calls made while another call is under way in the same thread ----
class Asked(io.StringIO):
    """A stream that does something before it hands over its n-th line (or all of it)."""

    def __init__(self, text, n, ask):
        io.StringIO.__init__(self, text)
        self.count, self.n, self.ask = 0, n, ask

    def _asked(self):
        if self.count == self.n:
            self.ask()
        self.count += 1

    def readline(self, *a):
        self._asked()
        return io.StringIO.readline(self)

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x

    def read(self, *a):
        self._asked()
        return io.StringIO.read(self)


def asking(kind, n, ask):
    """A graph or dataset that does something before it takes in its n-th statement."""
    class Asking(kind):
        count = 0

        def add(self, st):
            if self.count == n:
                ask()
            self.count += 1
            return kind.add(self, st)
    return Asking()


JSC = {"@context": [{"p": "http://e/p"}, "http://e/context"], "@id": "_:a", "p": {"@id": "_:b"}, "q": [{"@id": "_:b"}, {"@id": "_:a"}]}
JSCQ = {(("B", "a"), ("I", "http://e/p"), ("B", "b"), None), (("B", "a"), ("I", "http://e/q"), ("B", "b"), None),
        (("B", "a"), ("I", "http://e/q"), ("B", "a"), None)}


def outer_js(w, n, ask):
    def loader(url, options=None):
        ask()
        return {"contextUrl": None, "documentUrl": url, "contentType": "application/ld+json", "document": {"@context": {"q": "http://e/q"}}}
    sink = asking(Dataset, n - 1, ask) if n else Dataset()
    got = jsonld_parser.parse_json(json.loads(json.dumps(JSC)), sink, {"documentLoader": loader if not n else lambda url, options=None: {
        "contextUrl": None, "documentUrl": url, "contentType": "application/ld+json", "document": {"@context": {"q": "http://e/q"}}}})
    items = {back_quad(q) for q in got}
    if got is not sink or not isomorphic(JSCQ, items):
        raise Mismatch("JSON-LD document", canon_names(JSCQ), canon_names(items))
    return got


def outer_stream(parser, lang, text):
    def run(w, n, ask):
        g = parser.parse(Asked(text, n, ask))
        check(lang, text, g, lang == "nq")
        return g
    return run


def outer_sink(parser, lang, text):
    def run(w, n, ask):
        sink = asking(Dataset if lang == "nq" else Graph, n, ask)
        g = parser.parse(text, sink)
        check(lang, text, g, lang == "nq")
        return g
    return run


def outer_failing(w, n, ask):
    """The outer call fails after the inner one; what its earlier lines said is there."""
    g = Graph()
    fail(ntriples_parser.parse, Asked(NT + "bogus\n", n, ask), g)
    check("nt", NT, g, False)
    return g


OUTER = {"nt stream": (outer_stream(ntriples_parser, "nt", NT), 4), "nq stream": (outer_stream(nquads_parser, "nq", NQ), 4),
         "ttl stream": (outer_stream(turtle_parser, "ttl", TTL), 1), "nt sink": (outer_sink(ntriples_parser, "nt", NT), 3),
         "nq sink": (outer_sink(nquads_parser, "nq", NQ), 3), "ttl sink": (outer_sink(turtle_parser, "ttl", TTL), 9),
         "json-ld": (outer_js, 4), "failing": (outer_failing, 4)}


def c_within(tier):
    def gen():
        outs = [(k, n) for k, (f, m) in OUTER.items() for n in range(m)]
        ops = range(len(OPS) - 1)       # all but dropping everything

        def one():
            for o in outs:
                for seq in itertools.chain([(x,) for x in ops], itertools.product(ops, repeat=2)):
                    yield [o], seq
            for o, p in itertools.product(outs, repeat=2):
                for x in ops:
                    yield [o, p], (x,)
            if tier == "thorough":
                for os in itertools.product([(k, min(1, m - 1)) for k, (f, m) in OUTER.items()], repeat=3):
                    for x in ops:
                        yield list(os), (x,)
        for b in batches(one(), 60):
            yield ("within", b)
    return gen


def x_within(case):
    n = 0
    for outs, seq in case[1]:
        w = World()
        done = []

        def level(k):
            if k == len(outs):
                for x in seq:
                    OPS[x](w)
                done.append(1)
                return
            kind, at = outs[k]
            w.fresh(OUTER[kind][0](w, at, lambda: level(k + 1)))
        try:
            level(0)
            op_nt(w), op_nq(w), op_js(w)
        except Exception as e:
            what = "calls within calls: %s at %s" % ([OPS[x].__name__[3:] for x in seq], outs)
            if not isinstance(e, Mismatch):
                raise Mismatch(what, None, repr(e)[:300])
            e.what = what + ": " + e.what
            raise
        if not done:
            raise AssertionError("the inner calls were not made: %r" % (outs,))
        n += len(outs) + len(seq) + 3
    return [repr(s) for s in case[1]], n


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("placements", c_place(tier), x_place, "all placements of 3-4 labels in documents of <= 3 statements (nt), 2-3 (nq), 2 (ttl, with anonymous nodes and collections); 19 unusual labels in pairs"),
        Space("scale", c_scale(tier), x_scale, "documents with up to %d labels, labels up to %d characters" % ((5000, 32000) if th else (1025, 8200))),
        Space("within", c_within(tier), x_within, "1 or 2 further calls (%d kinds) made while a call is under way: at each of its lines, statements taken in or context read (8 kinds of outer call), nested up to %d deep" % (len(OPS) - 1, 3 if th else 2)),
        Space("histories", c_hist(5 if th else 4), x_hist, "all sequences of %d kinds of call of length <= %d" % (len(OPS), 5 if th else 4)),
    ]
