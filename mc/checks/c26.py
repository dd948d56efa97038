"""C26: the same data reads the same from every format."""
import io
import itertools
import json

from ..core import Mismatch, Space, attempt
from ..rdfmodel import RDF, XSD, B, I, L, back_quad, back_triple, canon_names, isomorphic, norm, normset
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph

LEVEL = "model_checking"
TECHNIQUE = "exhaustive small datasets written in four formats and several styles by an independent writer, read by the real parsers, compared up to blank node names"
RULE = ("every dataset of up to k statements over terms of every kind and graph names of every kind, in N-Triples, N-Quads, two Turtle styles and "
        "four JSON-LD styles; every character; every lexical form of JSON and Turtle values; lists; every order of reading formats into one dataset")
ASSUMPTIONS = ["absolute IRIs", "lower-case language tags", "pyld converts JSON-LD correctly (it rewrites the lexical form of xsd:double strings, which are left out)"]

NS = "http://e/"
SHORT = {"e": NS, "xsd": XSD, "rdf": RDF}


# ---- writers ----

def esc(s):
    out = []
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch in "\n\r":
            out.append({"\n": "\\n", "\r": "\\r"}[ch])
        elif ord(ch) < 32 or ord(ch) == 127:
            out.append("\\u%04X" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def nt(t):
    if t[0] == "I":
        return "<%s>" % t[1]
    if t[0] == "B":
        return "_:" + t[1]
    return '"%s"' % esc(t[1]) + ("@" + t[2] if t[2] else "^^<%s>" % t[3] if t[3] is not None else "")


def w_nt(stmts):
    return "".join("%s .\n" % " ".join(nt(x) for x in s[:3]) for s in stmts)


def w_nq(stmts):
    return "".join("%s .\n" % " ".join(nt(x) for x in s if x is not None) for s in stmts)


def tt(t, verb=False):
    if t[0] == "I":
        if verb and t[1] == RDF + "type":
            return "a"
        for p, n in SHORT.items():
            if t[1].startswith(n) and t[1][len(n):].isascii() and t[1][len(n):].isalnum():
                return "%s:%s" % (p, t[1][len(n):])
    if t[0] == "L":
        if t[3] == XSD + "integer" and t[1].isdigit():
            return t[1]
        if t[3] == XSD + "boolean" and t[1] in ("true", "false"):
            return t[1]
        return "'''%s'''" % esc(t[1]).replace("'", "\\'") + ("@" + t[2] if t[2] else "^^" + tt(I(t[3])) if t[3] is not None else "")
    return nt(t)


def w_ttl(stmts):
    """Prefixed names, a, predicate and object lists; a blank node with one mention as an object is written in place."""
    out = ["@prefix %s: <%s> .\n" % p for p in SHORT.items()]
    by = {}
    for s in stmts:
        by.setdefault(s[0], {}).setdefault(s[1], []).append(s[2])
    mentions = {}
    for s in stmts:
        if s[2][0] == "B":
            mentions[s[2]] = mentions.get(s[2], 0) + 1
    inner = set()
    for b, n in mentions.items():
        if n == 1 and all(y[0] != "B" for ys in by.get(b, {}).values() for y in ys):
            inner.add(b)

    def obj(o):
        if o in inner:
            return "[ %s ]" % props(o)
        return tt(o)

    def props(s):
        return " ; ".join("%s %s" % (tt(p, True), " , ".join(obj(o) for o in os)) for p, os in by.get(s, {}).items())

    for s in by:
        if s not in inner:
            out.append("%s %s .\n" % ("[]" if s[0] == "B" and s not in mentions else tt(s), props(s)))
    return "".join(out)


def jid(t):
    return t[1] if t[0] == "I" else "_:" + t[1]


def jval(t, native=False):
    if t[0] != "L":
        return {"@id": jid(t)}
    if native and t[3] == XSD + "integer" and t[1].isdigit() and str(int(t[1])) == t[1]:
        return {"@value": int(t[1])}
    if native and t[3] == XSD + "boolean" and t[1] in ("true", "false"):
        return {"@value": t[1] == "true"}
    d = {"@value": t[1]}
    if t[2]:
        d["@language"] = t[2]
    elif t[3] is not None:
        d["@type"] = t[3]
    return d


def grouped(stmts):
    graphs = {}
    for s in stmts:
        graphs.setdefault(s[3], []).append(s)
    return graphs


def nodes(stmts, native=False):
    by = {}
    for s in stmts:
        n = by.setdefault(s[0], {"@id": jid(s[0])})
        if s[1][1] == RDF + "type" and s[2][0] != "L":
            n.setdefault("@type", []).append(jid(s[2]))
        else:
            n.setdefault(s[1][1], []).append(jval(s[2], native))
    return list(by.values())


def w_json(stmts):
    """Expanded: one node object per subject, a graph object per named graph."""
    out = []
    for g, ss in grouped(stmts).items():
        if g is None:
            out += nodes(ss)
        else:
            out.append({"@id": jid(g), "@graph": nodes(ss)})
    return out


def w_json_each(stmts):
    """One node object per statement, with its own graph object."""
    out = []
    for s in stmts:
        n = nodes([s], True)[0]
        out.append(n if s[3] is None else {"@id": jid(s[3]), "@graph": n})
    return {"@graph": out} if len(out) != 1 else out


def w_json_context(stmts):
    """Compact: prefixes, terms with coercion, keyword aliases."""
    ctx = {"e": NS, "id": "@id", "type": "@type", "pi": {"@id": NS + "p", "@type": "@id"}, "pe": {"@id": NS + "p", "@language": "en"},
           "pd": {"@id": NS + "p", "@type": NS + "dt"}}

    def iri(t):
        return "e:" + t[1][len(NS):] if t[0] == "I" and t[1].startswith(NS) and t[1][len(NS):].isalnum() else jid(t)
    out = []
    for s in stmts:
        n = {"id": iri(s[0])}
        p, o = s[1][1], s[2]
        if p == RDF + "type" and o[0] != "L":
            n["type"] = iri(o)
        elif p == NS + "p" and o[0] != "L":
            n["pi"] = [iri(o)]
        elif p == NS + "p" and o[2] == "en":
            n["pe"] = o[1]
        elif p == NS + "p" and o[3] == NS + "dt":
            n["pd"] = o[1]
        else:
            n[iri(s[1])] = o[1] if o[0] == "L" and o[2] is None and o[3] is None else jval(o)
        out.append(n if s[3] is None else {"id": iri(s[3]), "@graph": [n]})
    return {"@context": ctx, "@graph": out}


def w_json_nested(stmts):
    """Objects nested in their subjects where they have properties in the same graph and no cycle arises; @reverse for one statement."""
    out = []
    for g, ss in grouped(stmts).items():
        by = {}
        for s in ss:
            by.setdefault(s[0], []).append(s)
        done = set()

        def node(t):
            n = {"@id": jid(t)}
            if t in by and t not in done:
                done.add(t)
                for s in by[t]:
                    if s[1][1] == RDF + "type" and s[2][0] != "L":
                        n.setdefault("@type", []).append(jid(s[2]))
                    elif s[2][0] == "L":
                        n.setdefault(s[1][1], []).append(jval(s[2]))
                    else:
                        n.setdefault(s[1][1], []).append(node(s[2]))
            return n
        top = []
        first = ss[0]
        if first[2][0] != "L" and len(by[first[0]]) == 1:
            top.append({"@id": jid(first[2]), "@reverse": {first[1][1]: [{"@id": jid(first[0])}]}})
            done.add(first[0])
        for t in list(by):
            if t not in done:
                top.append(node(t))
        if g is None:
            out += top
        else:
            out.append({"@id": jid(g), "@graph": top})
    return out


JSON = [("expanded", w_json), ("one per statement", w_json_each), ("context", w_json_context), ("nested", w_json_nested)]


# ---- readers ----

def got_quads(ds):
    if not isinstance(ds, Dataset):
        raise Mismatch("reading gave no dataset", None, repr(ds))
    out = [back_quad(q) for q in ds]
    if len(set(out)) != len(out):
        raise Mismatch("duplicates in a dataset", None, out)
    return {tuple(check_literal(x) for x in s) for s in out}


def got_triples(g):
    if not isinstance(g, Graph):
        raise Mismatch("reading gave no graph", None, repr(g))
    return {tuple(check_literal(x) for x in back_triple(t)) for t in g}


def check_literal(t):
    if t is not None and t[0] == "L" and t[2] is not None and t[3] is not None:
        raise Mismatch("a literal with a language and a datatype", None, t)
    return norm(t)


def expect(what, doc, want, got):
    want = {tuple(norm(x) for x in s) for s in want}
    if not isomorphic(want, got):
        raise Mismatch("%s: %s" % (what, doc if isinstance(doc, str) else json.dumps(doc)), canon_names(want), canon_names(got))


def compare(stmts, ttl=True):
    stmts = list(stmts)
    n = 0
    doc = w_nq(stmts)
    expect("N-Quads", doc, stmts, got_quads(nquads_parser.parse(doc)))
    for name, w in JSON:
        doc = w(stmts)
        expect("JSON-LD " + name, doc, stmts, got_quads(jsonld_parser.parse_json(doc)))
        n += 1
    for g, ss in grouped(stmts).items():
        want = {s[:3] for s in ss}
        doc = w_nt(ss)
        expect("N-Triples", doc, want, got_triples(ntriples_parser.parse(doc)))
        expect("Turtle like N-Triples", doc, want, got_triples(turtle_parser.parse(doc)))
        doc = w_ttl(ss)
        expect("Turtle", doc, want, got_triples(turtle_parser.parse(doc)))
        n += 3
    return n + 1


# ---- datasets ----

S = [I(NS + "a"), B("x"), B("y")]
P = [I(NS + "p"), I(RDF + "type")]
O = [I(NS + "a"), B("x"), B("y"), L("v"), L("v", "en"), L("v", None, NS + "dt"), L("1", None, XSD + "integer")]
G = [None, I(NS + "g"), B("x")]
BIG = [(s, p, o, g) for s in S for p in P for o in O for g in G if not (p == P[1] and o[0] == "L" and o[1] != "v")]
SMALL = [(s, P[0], o, g) for s in (I(NS + "a"), B("x"), B("y")) for o in (I(NS + "a"), B("x"), B("y"), L("v", "en")) for g in (None, I(NS + "g"), B("y"))]
TINY = [(s, P[0], o, g) for s in (B("x"), B("y")) for o in (B("x"), B("y"), B("z")) for g in (None, B("z"))]


def x_data(case):
    which, first, k = case
    u = dict(big=BIG, small=SMALL, tiny=TINY)[which]
    n, keys = 0, []
    for rest in itertools.combinations(range(first + 1, len(u)), k - 1):
        stmts = [u[i] for i in (first,) + rest]
        n += compare(stmts)
        keys.append(repr(stmts))
    return keys, n


def c_data(*bounds):
    def gen():
        for which, k in bounds:
            u = dict(big=BIG, small=SMALL, tiny=TINY)[which]
            for i in range(len(u) - k + 1):
                yield (which, i, k)
    return gen


# ---- literals and characters ----

VALUES = ["", "v", " ", "1", "01", "true", "a\nb", "\t", '"', "\\", "\\n", "'", "''", "'''", '"""', "\r\n", "\u00e9", "e\u0301", "\U0001f600", "\u2028", "@en", "_:x", NS + "a",
          "<a>", "{}", "[]", "\ufeff", "x" * 300, "\x00", "\x1f", "\x7f", "\u0085", "^^", "null", "@id"]
KIND = [(None, None), ("en", None), ("en-us", None), ("x-y", None), (None, XSD + "string"), (None, NS + "dt"), (None, XSD + "integer"), (None, XSD + "boolean"),
        (None, XSD + "decimal"), (None, XSD + "dateTime"), (None, "urn:x:dt"), (None, RDF + "HTML"), (None, RDF + "XMLLiteral")]


def x_lit(case):
    v, (lang, dt) = case
    o = L(v, lang, dt)
    n = compare([(I(NS + "a"), I(NS + "p"), o, None), (B("x"), I(NS + "q"), o, I(NS + "g"))])
    return repr(o), n


def x_pair(case):
    a, b = case
    la, lb = L("v", *KIND[a]), L("v", *KIND[b])
    n = compare(dict.fromkeys([(I(NS + "a"), I(NS + "p"), la, None), (I(NS + "a"), I(NS + "p"), lb, None), (I(NS + "a"), I(NS + "p"), lb, I(NS + "g"))]))
    return repr(case), n


IRIS = ["http://e/a", "http://e/A", "http://e/", "http://e", "http://e/a#", "http://e/a#b", "http://e/a?b=c&d", "urn:x:1", "http://e/\u00e9", "http://e/%C3%A9", "http://e/%61",
        "http://e/a/../b", "http://e/./a", "http://e/a//b", "mailto:a@b", "http://e/a;b", "http://e/(a)", "http://e/a'b", "http://e/a,b", "http://e:80/", "http://e/~a", "http://\u00e9/",
        "http://e/\U00020000", RDF + "nil", RDF + "first", RDF + "List", RDF + "type", XSD + "string", "tag:e,2020:x", "x:y", "HTTP://e/a", "a+b-c.d:e", "http://[::1]/a", "http://e/*$!"]


def x_iri(case):
    i, j = case
    a, b = I(IRIS[i]), I(IRIS[j])
    n = compare(dict.fromkeys([(a, I(NS + "p"), b, None), (a, b, L("v"), a), (b, a, a, None), (B("x"), I(RDF + "type"), a, b)]))
    if i == j:
        n += compare([(a, I(NS + "p"), L("v", None, IRIS[i]), None)])
    return repr(case), n


def x_char(case):
    lo, hi = case
    stmts = []
    for c in range(lo, hi):
        if 0xD800 <= c <= 0xDFFF:
            continue
        stmts.append((I(NS + "a%x" % c), I(NS + "p"), L("a%sb" % chr(c)), None))
        if c % 8 == 0:
            stmts.append((I(NS + "a%x" % c), I(NS + "p"), L(chr(c), "en"), I(NS + "g")))
    return "%x" % lo, compare(stmts) if stmts else 0


def c_chars(hi):
    def gen():
        for lo in range(0, hi, 64):
            yield (lo, lo + 64)
    return gen


# ---- lists: JSON-LD @list, Turtle collections, statements ----

ELEMENTS = [I(NS + "a"), B("x"), L("v"), L("v", "en"), L("1", None, XSD + "integer"), ("LIST",)]


def x_list(case):
    spec, graph = case
    first, rest, nil = I(RDF + "first"), I(RDF + "rest"), I(RDF + "nil")
    count = itertools.count()
    cells = []

    def cells_of(elems):
        if not elems:
            return nil
        head = B("c%d" % next(count))
        cells.append((head, first, cell_value(elems[0])))
        cells.append((head, rest, cells_of(elems[1:])))
        return head

    def cell_value(e):
        return cells_of(e[1]) if e[0] == "LIST" else e

    def ttl_list(elems):
        return "( %s )" % " ".join(ttl_list(e[1]) if e[0] == "LIST" else tt(e) for e in elems)

    def json_list(elems):
        return {"@list": [json_list(e[1]) if e[0] == "LIST" else jval(e) for e in elems]}
    head = cells_of(spec)
    triples = [(I(NS + "s"), I(NS + "p"), head)] + cells + [(B("x"), I(NS + "q"), L("z"))]
    quads = [t + (graph,) for t in triples]
    doc = w_nq(quads)
    expect("N-Quads", doc, quads, got_quads(nquads_parser.parse(doc)))
    doc = "@prefix e: <%s> . e:s e:p %s . _:x e:q 'z' ." % (NS, ttl_list(spec))
    expect("Turtle", doc, triples, got_triples(turtle_parser.parse(doc)))
    node = [{"@id": NS + "s", NS + "p": [json_list(spec)]}, {"@id": "_:x", NS + "q": [{"@value": "z"}]}]
    doc = node if graph is None else [{"@id": jid(graph), "@graph": node}]
    expect("JSON-LD", doc, quads, got_quads(jsonld_parser.parse_json(doc)))
    return repr(case), 3


def c_list(n):
    def gen():
        inner = [e for e in ELEMENTS if e[0] != "LIST"]
        nested = [("LIST", ()), ("LIST", (inner[0],)), ("LIST", (inner[1], inner[2])), ("LIST", (("LIST", ()),))]
        for graph in (None, I(NS + "g")):
            for k in range(n + 1):
                for spec in itertools.product(inner + nested, repeat=k):
                    yield (spec, graph)
    return gen


# ---- native values: what JSON and Turtle write without quotes ----

NATIVE = [(0, "0", "integer"), (1, "1", "integer"), (-1, "-1", "integer"), (10 ** 15, "1000000000000000", "integer"), (True, "true", "boolean"), (False, "false", "boolean"),
          (1.5, "1.5E0", "double"), (-0.25, "-2.5E-1", "double"), (1e300, "1.0E300", "double"), (5e-7, "5.0E-7", "double")]


def x_native(case):
    i, j = case
    (a, ta, da), (b, tb, db) = NATIVE[i], NATIVE[j]
    want = [(I(NS + "s"), I(NS + "p"), L(ta, None, XSD + da), None), (I(NS + "s"), I(NS + "q"), L(tb, None, XSD + db), None)]
    doc = [{"@id": NS + "s", NS + "p": a, NS + "q": [b, b]}]
    expect("JSON-LD", doc, want, got_quads(jsonld_parser.parse_json(doc)))
    text = json.dumps(doc)
    expect("JSON-LD", text, want, got_quads(jsonld_parser.document.parse(text)))
    doc = "<%ss> <%sp> %s ; <%sq> %s ." % (NS, NS, ta, NS, tb)
    expect("Turtle", doc, [s[:3] for s in want], got_triples(turtle_parser.parse(doc)))
    doc = w_nt(want)
    expect("N-Triples", doc, [s[:3] for s in want], got_triples(ntriples_parser.parse(doc)))
    return repr(case), 4


# ---- delivery of JSON-LD and several readings into one dataset ----

DOCS = [[TINY[0], TINY[4]], [(B("x"), P[0], L("v"), None)], [(I(NS + "a"), P[0], B("x"), I(NS + "g")), (B("x"), P[0], L("v"), I(NS + "g"))], []]
WAYS = ["json", "text", "file", "bytes file", "nquads", "nquads bytes", "nquads lines"]


def deliver(way, stmts, sink=None):
    if way.startswith("nquads"):
        doc = w_nq(stmts)
        given = doc.encode("utf-8") if way.endswith("bytes") else io.StringIO(doc) if way.endswith("lines") else doc
        f = nquads_parser.parse_string if way.endswith("bytes") else nquads_parser.parse
        return f(given, sink) if sink is not None else f(given)
    doc = w_json(stmts)
    if way == "json":
        return jsonld_parser.parse_json(doc, sink) if sink is not None else jsonld_parser.parse_json(doc)
    text = json.dumps(doc, ensure_ascii=False)
    if way == "text":
        return jsonld_parser.document.parse(text)
    return jsonld_parser.document.parse_file(io.StringIO(text) if way == "file" else io.BytesIO(text.encode("utf-8")))


def x_ways(case):
    want, n = set(), 0
    sink = Dataset()
    for k, (way, d) in enumerate(case):
        stmts = DOCS[d]
        expect("%s on its own" % way, w_nq(stmts), stmts, got_quads(deliver(way, stmts)))
        if way == "json" or way.startswith("nquads"):
            r = deliver(way, stmts, sink)
            if r is not sink:
                raise Mismatch("reading into a dataset gave another", None, repr(r))
            want |= {tuple(("B", "%s.%d" % (x[1], k)) if x is not None and x[0] == "B" else x for x in s) for s in stmts}
            expect("into one dataset after %r" % (case[:k + 1],), "", want, got_quads(sink))
        n += 2
    return repr(case), n


# ---- JSON-LD options: what is relative or abbreviated is read by the options of that call ----
OPTS = [
    (None, None, {}), ({}, None, {}), ({"base": "http://b/x/y"}, "http://b/x/y", {}), ({"base": "http://c/?q"}, "http://c/?q", {}),
    ({"expandContext": {"k": NS + "k", "@language": "fr"}}, None, {"k": NS + "k", "@language": "fr"}),
    ({"base": "http://b/z", "expandContext": {"@vocab": NS + "v/"}}, "http://b/z", {"@vocab": NS + "v/"}),
]
REFS = ["r", "", "#f", "/x", "../u", "r#g", "http://e/abs"]


def x_options(case):
    from urllib.parse import urljoin
    _, seq, ref = case
    n = 0
    for oi in seq:
        opts, base, ctx = OPTS[oi]
        given = json.loads(json.dumps(opts))
        doc = {"@id": ref, "http://e/p": [{"@id": ref}], "k": "v"}
        iri = urljoin(base.partition("#")[0], ref) if base and ref else base or ref
        k = ctx.get("k") or ("@vocab" in ctx and ctx["@vocab"] + "k")
        want = set()
        want.add((I(iri), I("http://e/p"), I(iri), None))
        if k:
            want.add((I(iri), I(k), L("v", ctx.get("@language"), None if "@language" in ctx else XSD + "string"), None))
        for call in (lambda: jsonld_parser.parse_json(doc, options=given), lambda: jsonld_parser.parse_json(doc, None, given), lambda: jsonld_parser.parse_json(doc, Dataset(), given)):
            before = json.dumps(doc)
            r = attempt(call)
            where = "JSON-LD %s with options %r, after options %r" % (before, opts, [OPTS[j][0] for j in seq[:seq.index(oi)]])
            if r[0] == "exc":
                raise Mismatch(where, "a dataset", repr(r[1]))
            got = {back_quad(q) for q in r[1]}
            if (base or ":" in ref) and normset(got) != normset(want):  # without a base, pyld makes one up
                raise Mismatch(where, want, got)
            if json.dumps(doc) != before or given != opts:
                raise Mismatch("reading JSON-LD changed its input: " + where, (before, opts), (doc, given))
            n += 1
    return repr(case), n


def c_options():
    for seq in itertools.permutations(range(len(OPTS)), 2):
        for ref in REFS:
            yield ("options", seq, ref)


# ---- documents in which one number grows ----
def family(kind, n):
    p = I(NS + "p")
    if kind == "values":
        return [(I(NS + "s"), p, L("v%d" % i, "en" if i % 3 == 0 else None), None) for i in range(n)]
    if kind == "subjects":
        return [(I(NS + "s%d" % i), p, L("v"), None) for i in range(n)]
    if kind == "properties":
        return [(B("s"), I(NS + "p%d" % i), I(NS + "s%d" % (i % 3)), None) for i in range(n)]
    if kind == "graphs":
        return [(I(NS + "s"), p, B("b%d" % (i % 5)), I(NS + "g%d" % i)) for i in range(n)]
    if kind == "graph nodes":
        return [s for i in range(n) for s in ((B("g%d" % i), p, L("v%d" % i), None), (I(NS + "s"), p, L("w%d" % i), B("g%d" % i)))]
    if kind == "node chain":
        return [s for i in range(n) for s in ((B("b%d" % i), p, B("b%d" % (i + 1)), None), (B("b%d" % i), I(NS + "n"), L(str(i)), None))]
    if kind == "leaves":
        return [s for i in range(n) for s in ((I(NS + "s"), p, B("b%d" % i), None), (B("b%d" % i), I(NS + "n"), L(str(i)), None))]
    if kind == "long value":
        return [(I(NS + "s"), p, L(("\u00e9\n" + "x" * 7) * (n // 9) + "y" * (n % 9), "en"), I(NS + "g"))]
    if kind == "long name":
        return [(I(NS + "s" * n), I(NS + "p" * n), B("b" * n), I(NS + "g" * n)), (B("b" * n + "c"), I(NS + "p" * n), B("b" * n), None)]
    raise AssertionError(kind)


FAMILIES = ["values", "subjects", "properties", "graphs", "graph nodes", "node chain", "leaves", "long value", "long name"]


def x_scale(case):
    _, kind, n = case
    return repr(case), compare(family(kind, n))


def c_scale(deep):
    def gen():
        for kind in FAMILIES:
            long = kind.startswith("long")
            for n in sorted(set(range(1, 34)) | {63, 64, 65, 127, 128, 129} | ({255, 256, 257} if long or deep else set()) | ({1023, 1024, 1025, 4097} if long else set())):
                if kind != "node chain" or n < 60:
                    yield ("scale", kind, n)
    return gen


def spaces(tier):
    deep = tier == "thorough"
    bounds = [("big", 1), ("tiny", 3), ("small", 2), ("small", 3), ("big", 2)] if not deep else [("big", 1), ("big", 2), ("small", 3), ("tiny", 4), ("tiny", 5)]
    top = 0x110000 if deep else 0x3000
    return [
        Space("datasets", c_data(*bounds), x_data, "every set of statements: %s over %d/%d/%d" % (bounds, len(BIG), len(SMALL), len(TINY))),
        Space("literals", lambda: itertools.product(VALUES, KIND), x_lit, "%d values x %d kinds" % (len(VALUES), len(KIND))),
        Space("literal pairs", lambda: itertools.product(range(len(KIND)), repeat=2), x_pair, "one value of two kinds on one subject"),
        Space("IRIs", lambda: itertools.product(range(len(IRIS)), repeat=2), x_iri, "pairs of %d IRIs in every position" % len(IRIS)),
        Space("characters", c_chars(top), x_char, "every character below %x in a literal" % top),
        Space("lists", c_list(4 if deep else 3), x_list, "every list up to length %d with nested lists" % (4 if deep else 3)),
        Space("options", c_options, x_options, "relative references and terms read with every ordered pair of %d JSON-LD options" % len(OPTS)),
        Space("scale", c_scale(deep), x_scale, "%d families of datasets, sizes 1 to 33 and around powers of two" % len(FAMILIES)),
        Space("native values", lambda: itertools.product(range(len(NATIVE)), repeat=2), x_native, "pairs of numbers and booleans"),
        Space("readings", lambda: (t for n in range(1, 4 if deep else 3) for t in itertools.product(list(itertools.product(WAYS, range(len(DOCS)))), repeat=n)), x_ways,
              "sequences of readings into one dataset"),
    ]
