"""C10: how a document is delivered does not change what is read."""
import io
import itertools
import os
import shutil
import tempfile

from .. import docscale, ntref, ttlref
from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..ntref import Reject
from ..rdfmodel import B, I, L, Realm, back_quad, back_triple, canon_names, isomorphic
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph, NamedNode

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive documents x every delivery form, real parsers against reference readers"
RULE = ("all sequences of document pieces joined by all line ends, delivered as str, bytes and text streams of several kinds, into new, "
        "empty and filled graphs; each result is compared with what the reference reader says of that same text")
ASSUMPTIONS = ["a text stream delivers the characters it delivers: where it translates line ends the translated text is the document"]

FORMS = ["str", "parse_string", "bytes", "stringio", "stringio-raw", "wrapper-raw", "wrapper-lf", "wrapper-universal", "lines"]
TARGETS = ["new", "none", "empty", "filled", "overlap", "keyword"]


class Lines:
    """A minimal stream: only what iteration, readline and read need; it may hand out less than it is asked for."""

    def __init__(self, text):
        self.rest = io.StringIO(text, newline="")

    def readline(self, *a):
        return self.rest.readline()

    def read(self, n=-1):
        return self.rest.read(-1 if n is None or n < 0 else min(n, 5))

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x


def deliver(form, doc):
    """-> (name of the method, argument, the text actually delivered)"""
    if form == "str":
        return "parse", doc, doc
    if form == "parse_string":
        return "parse_string", doc, doc
    if form == "bytes":
        return "parse_string", doc.encode("utf-8"), doc
    if form == "stringio":
        return "parse", io.StringIO(doc), io.StringIO(doc).read()
    if form == "stringio-raw":
        return "parse", io.StringIO(doc, newline=""), doc
    if form.startswith("wrapper"):
        nl = {"wrapper-raw": "", "wrapper-lf": "\n", "wrapper-universal": None}[form]
        mk = lambda: io.TextIOWrapper(io.BytesIO(doc.encode("utf-8")), encoding="utf-8", newline=nl)
        return "parse", mk(), mk().read()
    if form == "lines":
        return "parse", Lines(doc), doc
    if form == "buffered":
        return "parse", io.BufferedReader(io.BytesIO(doc.encode("utf-8"))), doc
    if form.startswith("file"):
        d = tempfile.mkdtemp(prefix="mc10.")
        try:
            p = os.path.join(d, "doc")
            with open(p, "wb") as f:
                f.write(doc.encode("utf-8"))
            f = open(p, encoding="utf-8")
            with open(p, encoding="utf-8") as g:
                text = g.read()
            return "parse", f, text
        finally:
            shutil.rmtree(d)
    raise AssertionError(form)


PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}
OLD = [(I("http://e/old"), I("http://e/p"), L("old")), (B("o"), I("http://e/p"), B("o2"))]
OVERLAP = (I("http://e/s"), I("http://e/p"), I("http://e/o"))


def reference(lang, text):
    try:
        return ("ok", set(ttlref.read(text) if lang == "ttl" else ntref.read(text, lang == "nq")))
    except Reject as e:
        return ("exc", e)


def once(lang, doc, form, target, known=None):
    meth, arg, text = deliver(form, doc)
    want = known.get(text) if known is not None else None
    if want is None:
        want = reference(lang, text)
        if known is not None:
            known[text] = want
    quads = lang == "nq"
    R = Realm()
    old = []
    g = None
    if target in ("empty", "filled", "overlap", "keyword"):
        g = Dataset() if quads else Graph()
    if target in ("filled", "keyword"):
        old = list(OLD)
    if target == "overlap":
        old = [OVERLAP]
    for t in old:
        g.add(R.quad(t + (None,)) if quads else R.triple(t))
    f = getattr(PARSERS[lang], meth)
    if target == "new":
        r = attempt(f, arg)
    elif target == "keyword":
        r = attempt(f, arg, graph=g)
    else:
        r = attempt(f, arg, g)
    if hasattr(arg, "close"):
        arg.close()
    shown = ascii(doc) if len(doc) < 3000 else "%s ... (%d in all) ... %s" % (ascii(doc[:300]), len(doc), ascii(doc[-1000:]))
    where = "%s %s as %s into %s" % (lang, shown, form, target)
    if want[0] == "exc":
        if r[0] == "ok":
            raise Mismatch("document outside the grammar was read: " + where, repr(want[1]), canon_names({tuple(x) for x in map(backf(quads), r[1])}))
        return "refused"
    if r[0] == "exc":
        raise Mismatch("document was refused: " + where, canon_names(want[1]), repr(r[1])[:600])
    got = r[1]
    if g is not None and got is not g:
        raise Mismatch("the graph returned is not the one supplied: " + where, "the same object", type(got))
    if g is None and type(got) is not (Dataset if quads else Graph):
        raise Mismatch("type of the new graph: " + where, "Dataset" if quads else "Graph", type(got))
    items = [backf(quads)(x) for x in got]
    old = {t + (None,) if quads else t for t in old}
    names = {id(n): ("B", ("old", k)) for k, n in R.nodes.items()}
    items2 = [tuple(names.get(x[1], x) if x is not None and x[0] == "B" else x for x in s) for s in items]
    oldm = {tuple(("B", ("old", x[1])) if x is not None and x[0] == "B" else x for x in s) for s in old}
    if not oldm <= set(items2):
        raise Mismatch("what the graph held before is gone: " + where, canon_names(oldm), canon_names(items2))
    new = set(items2) - oldm
    if len(items) != len(set(items)) or not isomorphic(want[1] - oldm, new):
        raise Mismatch("document read as something else: " + where, canon_names(want[1]), canon_names(new))
    if any(x is not None and x[0] == "B" and isinstance(x[1], tuple) for s in new for x in s):
        raise Mismatch("a statement of the document uses a node the graph held before: " + where, None, canon_names(new))
    return "%d" % len(want[1])


def backf(quads):
    return back_quad if quads else back_triple


# ---- documents ----
S1, S2 = "<http://e/s> <http://e/p> <http://e/o> ", "_:a <http://e/p> \"l\\n\u00e9\"@en "
PIECES = {
    "nt": [S1 + ".", S2 + ".", "", " \t", "# c", S1 + ". # c \u00e9", "_:a <http://e/q> _:b."],
    "nq": [S1 + "<http://e/g> .", S2 + ".", "", " \t", "# c", S1 + "_:g . # c", "_:a <http://e/q> _:b _:a."],
    "ttl": [S1 + ".", "@prefix p: <http://e/> .", "<http://e/s> <http://e/q> _:a ;", "<http://e/p> \"\"\"x", "y\"\"\" .", "# c", "", "_:a a () ."],
}
SEPS = ["\n", "\r\n", "\r", "\n\n", "\r\r\n", "\n \n", "\n# c\r"]
FINALS = ["", "\n", "\r\n", "\r", "# c", " ", "\n\n"]


def c_docs(tier):
    th = tier == "thorough"

    def gen():
        for lang in ("nt", "nq", "ttl"):
            ps = range(len(PIECES[lang]))

            def docs():
                for n in (0, 1):
                    for seq in itertools.product(ps, repeat=n):
                        for fi in range(len(FINALS)):
                            yield (seq, (), fi, tuple(range(len(FORMS))), tuple(range(len(TARGETS))))
                for seq in itertools.product(ps, repeat=2):
                    for se in range(len(SEPS)):
                        for fi in range(len(FINALS)):
                            yield (seq, (se,), fi, tuple(range(len(FORMS))), (0, 4) if not th else (0, 2, 3, 4))
                for seq in itertools.product(ps, repeat=3):
                    for se in (itertools.product(range(len(SEPS)), repeat=2) if th else [(i, i) for i in range(4)] + [(0, 2), (2, 0), (1, 2)]):
                        yield (seq, se, 0 if (sum(seq) + sum(se)) % 2 else 1, (0, 2, 4, 5, 7) if not th else tuple(range(len(FORMS))), (3,))
            for b in batches(docs(), 60):
                yield ("docs", lang, b)
    return gen


def text_of(lang, seq, seps, fi):
    out = []
    for i, p in enumerate(seq):
        out.append(PIECES[lang][p])
        if i < len(seps):
            out.append(SEPS[seps[i]])
    return "".join(out) + FINALS[fi]


def x_docs(case):
    _, lang, batch = case
    keys, n = [], 0
    for seq, seps, fi, forms, targets in batch:
        doc = text_of(lang, seq, seps, fi)
        for fo in forms:
            for ta in targets:
                v = once(lang, doc, FORMS[fo], TARGETS[ta])
                n += 1
        keys.append(lang + doc)
    return keys, n


# ---- real files, long documents ----
def c_files():
    for lang in PIECES:
        for n in (1, 2, 20, 500):
            for se in range(3):
                for fi in range(3):
                    yield ("file", lang, n, se, fi)


def x_files(case):
    _, lang, n, se, fi = case
    sep = SEPS[se]
    if lang == "ttl":
        lines = ["@prefix p: <http://e/> ."] + ["p:s%d p:p _:b%d, \"v%d\\n\u00e9\"," % (i, i % 7, i) + sep + " '''a" + sep + "b''' ." for i in range(n)]
    else:
        lines = ["<http://e/s%d> <http://e/p> %s%s ." % (i, ["_:b%d" % (i % 7), "\"v%d\\n\u00e9\U0001f600\"" % i][i % 2], "" if lang == "nt" else ["", " _:b%d" % (i % 7), " <http://e/g>"][i % 3]) for i in range(n)]
    doc = sep.join(lines) + FINALS[fi]
    k = 0
    for form in FORMS + ["file"]:
        for ta in ("new", "overlap"):
            if once(lang, doc, form, ta):
                k += 1
    return repr(case), k


# ---- documents in which one number grows ----
SCALE_FORMS = ["str", "bytes", "stringio", "stringio-raw", "wrapper-raw", "wrapper-universal", "lines", "file"]


def c_scale(tier):
    def gen():
        for lang in PIECES:
            for kind in docscale.TTL_KINDS if lang == "ttl" else docscale.LINE_KINDS:
                ns = docscale.sizes(kind, tier)
                if tier != "thorough":
                    ns = [n for n in ns if n < 5 or n > 60 or n % 8 == 0]
                for b in batches(iter(ns), 5):
                    yield ("scale", lang, kind, b)
    return gen


def x_scale(case):
    _, lang, kind, ns = case
    keys, k = [], 0
    for n in ns:
        doc = docscale.ttl_doc(kind, n) if lang == "ttl" else docscale.lines_doc(kind, n, lang == "nq")
        for form in SCALE_FORMS:
            v = once(lang, doc, form, "overlap" if form == "str" else "new")
            k += 1
        keys.append("%s %s %d %s" % (lang, kind, n, v))
    return keys, k


# ---- the places where a reader of blocks would cut ----
WINDOW = {
    "nt": S1 + ".\r\n_:a <http://e/q> \"\u00e9\\u00e9\U0001f600\\n\"@en-x . # c\u00e9\n\n\r<http://e/s> <http://e/p> \"1\"^^<http://e/\u00e9> .\r\n\r\n_:a <http://e/q> _:b .\n",
    "nq": S1 + "_:a .\r\n_:a <http://e/q> \"\u00e9\\u00e9\U0001f600\\n\"@en-x <http://e/\u00e9> . # c\u00e9\n\n\r<http://e/s> <http://e/p> \"1\"^^<http://e/t> .\r\n\r\n_:a <http://e/q> _:b _:g .\n",
    "ttl": "@prefix p: <http://e/> .\r\np:s\u00e9 p:p \"\u00e9\\u00e9\U0001f600\\n\"@en-x , 1.5e3 , '''a\r\n''b\\'''' . # c\u00e9\n\r_:a p:q [ p:r ( 1 _:a true ) ] ; a p:\\;x .\r\n<http://e/s> p:p -5 .\n"}
PADS = ("comment", "literal", "lines", "blank")
BLOCKS = ["wrapper-raw", "file", "stringio-raw", "wrapper-universal", "lines"]


def padding(how, n):
    """n ASCII characters that say little."""
    if how == "comment":
        return "#" + "c" * (n - 2) + "\n"
    if how == "blank":
        return " " * (n % 64 + 63) + "\n" + (" " * 63 + "\n") * (n // 64 - 1)
    head, tail = "<http://e/s> <http://e/pad> \"", "\" .\n"
    if how == "literal":
        return head + "v" * (n - len(head) - len(tail)) + tail
    line = S1 + " " * (62 - len(S1)) + ".\n"
    return "#" + "c" * (n % 64 + 62) + "\n" + line * (n // 64 - 1)


def c_blocks(tier):
    th = tier == "thorough"

    def gen():
        for lang in WINDOW:
            for size in (512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072) if th else (8192, 65536):
                for how in PADS if lang != "ttl" else PADS[:2]:
                    offs = range(0, len(WINDOW[lang].encode("utf-8")) + 1, 1 if th or how in ("comment", "blank") or size < 9000 else 4)
                    for b in batches(iter(offs), 20):
                        yield ("blocks", lang, size, how, b)
            for size in ((1 << 18, 1 << 19, 1 << 20, 1 << 21, 10 ** 6) if th else (1 << 20,)):
                for b in batches(iter(range(0, len(WINDOW[lang].encode("utf-8")) + 1, 4 if th else 40)), 2):
                    yield ("blocks", lang, size, "comment", b)
    return gen


def x_blocks(case):
    _, lang, size, how, offs = case
    keys, n = [], 0
    for off in offs:
        pad = padding(how, size - off)
        assert len(pad) == size - off and pad.isascii()
        doc = pad + WINDOW[lang]
        forms = BLOCKS + (["buffered"] if lang == "ttl" else [])
        want = {}
        for form in forms if how != "lines" else forms[:2]:
            if once(lang, doc, form, "new", want) == "refused":
                raise AssertionError(doc[-300:])
            n += 1
        keys.append(repr((lang, size, how, off)))
    return keys, n


# ---- bytes: UTF-8, and what is not UTF-8 is refused ----
BDOCS = {
    "nt": [b"<http://e/s@> <http://e/p> \"v@\" . # c@\n"], "nq": [b"<http://e/s@> <http://e/p> \"v@\" <http://e/g@> . # c@\n"],
    "ttl": [b"@prefix p: <http://e/@> . # c@\np:s@ p:p '''v@''', \"v@\" ."]}
EDGE = [0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF]
BFORMS = {"nt": ("parse_string",), "nq": ("parse_string",), "ttl": ("parse_string", "parse", "stream", "buffered")}


def x_bytes(case):
    _, lang, place, batch = case
    parts = BDOCS[lang][0].split(b"@")
    n = 0
    keys = []
    for ins in batch:
        doc = b"".join(p + (bytes(ins) if i == place else b"\xc3\xa9" if i < len(parts) - 1 else b"") for i, p in enumerate(parts))
        try:
            want = reference(lang, doc.decode("utf-8"))
        except UnicodeDecodeError as e:
            want = ("exc", e)
        for form in BFORMS[lang]:
            R = Realm()
            g = Dataset() if lang == "nq" else Graph()
            for t in OLD:
                g.add(R.quad(t + (None,)) if lang == "nq" else R.triple(t))
            before = set(g)
            arg = {"stream": io.BytesIO, "buffered": lambda b: io.BufferedReader(io.BytesIO(b), 16)}.get(form, bytes)(doc)
            r = attempt(getattr(PARSERS[lang], form if form == "parse_string" else "parse"), arg, g)
            where = "%s bytes %r as %s" % (lang, doc, form)
            n += 1
            if want[0] == "exc":
                if r[0] == "ok":
                    raise Mismatch("read although it is not a document: " + where, repr(want[1]), canon_names({backf(lang == "nq")(x) for x in set(g) - before}))
                if isinstance(want[1], UnicodeDecodeError) and set(g) != before:
                    raise Mismatch("bytes that are not UTF-8 changed the graph: " + where, None, list(set(g) - before))
                continue
            if r[0] == "exc":
                raise Mismatch("document was refused: " + where, canon_names(want[1]), repr(r[1])[:600])
            got = {backf(lang == "nq")(x) for x in set(g) - before}
            if not before <= set(g) or not isomorphic(want[1], got):
                raise Mismatch("document read as something else: " + where, canon_names(want[1]), canon_names(got))
        keys.append((lang, place, ins, want[0]))
    return [repr(k) for k in keys], n


def c_bytes(tier):
    def gen():
        ins = [(b,) for b in range(256)] + [(a, b) for a in range(0xC0, 0x100) for b in EDGE] + [(a, b) for a in EDGE for b in range(0x80, 0xC0)]
        ins += [(a, b, c) for a in (0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF4) for b in EDGE for c in (0x41, 0x7F, 0x80, 0xBF, 0xC0)]
        ins += [(a, b, c, d) for a in (0xF0, 0xF1, 0xF4, 0xF5) for b in (0x80, 0x8F, 0x90, 0xBF) for c in (0x80, 0xBF, 0x41) for d in (0x7F, 0x80, 0xBF, 0xC0)]
        for lang in BDOCS:
            for place in range(BDOCS[lang][0].count(b"@")):
                for b in batches(iter(ins), 200):
                    yield ("bytes", lang, place, b)
    return gen


# ---- JSON-LD: text, file and object ----
JDOCS = ['{"@id":"http://e/s","http://e/p":{"@id":"http://e/o"}}', '{"@id":"http://e/s","http://e/p":{"@id":"_:a"}}', '{"http://e/p":"x\\n\u00e9"}', "{}", "[]",
         '{"@graph":[{"@id":"_:a","http://e/p":1}],"@id":"_:a"}', '{"@graph":[{"@id":"http://e/a","http://e/p":true}],"@id":"http://e/g"}',
         '{"@context":{"p":"http://e/p"},"p":[{"@value":"x","@language":"en"},{"@id":"_:q"}]}']


def c_json():
    for i in range(len(JDOCS)):
        for t in ("new", "none", "empty", "filled"):
            yield ("json", i, t)


def x_json(case):
    import json
    _, i, target = case
    doc = JDOCS[i]
    want = {back_quad(q) for q in jsonld_parser.parse_json(json.loads(doc))}
    if target == "new":
        forms = [lambda: jsonld_parser.parse_json(json.loads(doc)), lambda: jsonld_parser.document.parse(doc),
                 lambda: jsonld_parser.document.parse_file(io.StringIO(doc)), lambda: jsonld_parser.parse_json(json.loads(doc), options={})]
    else:
        forms = [lambda g: jsonld_parser.parse_json(json.loads(doc), g), lambda g: jsonld_parser.parse_json(json.loads(doc), sink=g)]
    for f in forms:
        R = Realm()
        if target in ("new", "none"):
            got = f() if target == "new" else f(None)
            if type(got) is not Dataset:
                raise Mismatch("JSON-LD into a new dataset returned", "Dataset", type(got))
            old = set()
        else:
            g = Dataset()
            for t in OLD if target == "filled" else []:
                g.add(R.quad(t + (None,)))
            old = {back_quad(q) for q in g}
            got = f(g)
            if got is not g:
                raise Mismatch("the dataset returned is not the one supplied", g, got)
        items = {back_quad(q) for q in got}
        if not old <= items or not isomorphic(items - old, want):
            raise Mismatch("JSON-LD %s into %s" % (doc, target), canon_names(want), canon_names(items - old))
    return repr(case), len(forms)


def spaces(tier):
    return [
        Space("pieces", c_docs(tier), x_docs, "documents of <= 3 pieces of 7-8 kinds, 7 line ends, 7 ends of document, 9 delivery forms, 6 targets"),
        Space("files", c_files, x_files, "documents of 1 to 500 lines through files and streams"),
        Space("scale", c_scale(tier), x_scale, "%d families of documents in 8 delivery forms, sizes to 70 and around powers of two" % (len(docscale.LINE_KINDS) * 2 + len(docscale.TTL_KINDS))),
        Space("blocks", c_blocks(tier), x_blocks, "documents in which every byte of a window of all features falls at offset 8192, 65536 and (some) 1048576%s, in streams of 5 or 6 kinds" % (" and other powers of two" if tier == "thorough" else "")),
        Space("bytes", c_bytes(tier), x_bytes, "every byte, every two bytes with an edge of the UTF-8 ranges and the edges of three and four bytes at 3 to 5 places of a document"),
        Space("json-ld", c_json, x_json, "8 documents x text, file, object x new, empty, filled dataset"),
    ]
