"""C21: SPARQL queries and updates follow the protocol for every server answer."""
import itertools
import json
from urllib.parse import parse_qsl, urlsplit

from .. import scale
from ..core import Mismatch, Space, attempt
from ..httpfake import BROKEN, ERRORS, NOBODY, REFS, Answer, block, call, media, one, rdflib, relative, requests, resolved, text_doc, text_triples, triples
from ..rdfmodel import B, I, L, XSD, expect_iso, normset
import pymantic.sparql as sp

LEVEL = "model_checking"
TECHNIQUE = "exhaustive server configurations x calls x server answers, and call histories, on the real client over a scripted transport"
RULE = ("every combination of configuration, graphs, query text and answer: the one request seen by the transport is compared with the SPARQL "
        "protocol's, the outcome with the documented one; all histories of calls: each request equals that of the same call on a new client")
ASSUMPTIONS = ["answers carry no cookies and no redirect location", "the body of a 200 answer to an update is not interpreted", "rdflib and lxml parse what they are given"]

VERIFY = [None, True, False, "/ca.pem"]
URLS = ["http://h/sparql", "https://h:8080/a/b?x=1&y=%26", "http://h"]
GRAPHS = [None, "http://g/1", ["http://g/1", "http://g/2?a=b&c=d+e#f"], ["urn:x:\u00e9\U0001f600"], ("http://g/%20", "http://g/%2520")]
TEXTS = ["SELECT * WHERE { ?s ?p ?o }", "", " a=b&c=d+e%20;#'\"<>\\\n\r\n\t\x00\x7f", "\u00e9\u4e2d\U0001f600\ufeff", "?query=x&update=y"]


def expected_fields(kind, default, named):
    d, n = ("default-graph-uri", "named-graph-uri") if kind == "query" else ("using-graph-uri", "using-named-graph-uri")
    out = {}
    for name, v in ((d, default), (n, named)):
        if v:
            out[name] = [v] if isinstance(v, str) else list(v)
    return out


def fields(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


def qsl(s):
    return fields(parse_qsl(s, keep_blank_values=True, encoding="utf-8", errors="strict"))


def check_request(what, req, cfg, kind, text, default, named, output):
    url, post, direct, verify = cfg
    want = expected_fields(kind, default, named)
    u, u0 = urlsplit(req.url), urlsplit(url)
    if (u.scheme, u.netloc, u.path or "/", u.fragment) != (u0.scheme, u0.netloc, u0.path or "/", ""):
        raise Mismatch(what + ": URL", url, req.url)
    own = qsl(u0.query)
    got_url = qsl(u.query)
    ct, params = media(req.headers)
    if direct:
        method, in_url, body = "POST", dict(own, **want), text.encode("utf-8")
        if ct != "application/sparql-" + kind or any(p != "charset=utf-8" for p in params):
            raise Mismatch(what + ": content type", "application/sparql-" + kind, req.headers)
        if req.body != body:
            raise Mismatch(what + ": body", body, req.body)
    elif post or kind == "update":
        method, in_url = "POST", own
        if ct != "application/x-www-form-urlencoded":
            raise Mismatch(what + ": content type", "application/x-www-form-urlencoded", req.headers)
        form = qsl(req.body.decode("ascii"))
        if form != dict(want, **{kind: [text]}):
            raise Mismatch(what + ": form fields", dict(want, **{kind: [text]}), form)
    else:
        method, in_url = "GET", dict(own, **want)
        in_url[kind] = in_url.get(kind, []) + [text]
        if req.body:
            raise Mismatch(what + ": body of a GET", b"", req.body)
    if req.method != method:
        raise Mismatch(what + ": method", method, req.method)
    if got_url != in_url:
        raise Mismatch(what + ": URL parameters", in_url, got_url)
    if req.verify != (True if verify is None else verify):
        raise Mismatch(what + ": TLS verification", verify, req.verify)
    if kind == "query":
        acc = next((v for k, v in req.headers.items() if k.lower() == "accept"), "")
        acc = {x.split(";")[0].strip() for x in acc.split(",")}
        need = {"xml": {"application/sparql-results+xml", "application/rdf+xml"}}.get(output, {"application/sparql-results+json", "text/turtle"})
        if not need <= acc:
            raise Mismatch(what + ": Accept", need, acc)


JSONS = [
    {"head": {"vars": ["s"]}, "results": {"bindings": [{"s": {"type": "uri", "value": "http://e/\u00e9\U0001f600"}}]}},
    {"head": {}, "boolean": True}, {"head": {}, "boolean": False}, {"head": {"vars": []}, "results": {"bindings": []}}, {}, [],
]
XMLS = [
    ('<?xml version="1.0"?><sparql xmlns="http://www.w3.org/2005/sparql-results#"><head><variable name="s"/></head><results>%s</results></sparql>'
     % "".join('<result><binding name="s"><literal>%s</literal></binding></result>' % v for v in vs), vs)
    for vs in ([], ["x"], ["a", "\u00e9\U0001f600", "b c"])]
E = "http://e/"
RDFXML = [
    ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/"><rdf:Description rdf:about="http://e/s"><e:p>\u00e9\U0001f600</e:p><e:q rdf:resource="http://e/o"/></rdf:Description></rdf:RDF>',
     {(I(E + "s"), I(E + "p"), L("\u00e9\U0001f600")), (I(E + "s"), I(E + "q"), I(E + "o"))}),
    ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/"><rdf:Description rdf:nodeID="x"><e:p rdf:nodeID="y"/><e:p xml:lang="fr">l</e:p></rdf:Description></rdf:RDF>',
     {(B("x"), I(E + "p"), B("y")), (B("x"), I(E + "p"), L("l", "fr"))}),
    ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>', set()),
]
TURTLES = [
    ("<http://e/s> <http://e/p> \"\u00e9\U0001f600\", \"x\"@en, \"5\"^^<http://www.w3.org/2001/XMLSchema#integer> .", {(I(E + "s"), I(E + "p"), o) for o in (L("\u00e9\U0001f600"), L("x", "en"), L("5", None, XSD + "integer"))}),
    ("_:a <http://e/p> _:b . _:b <http://e/p> [] .", {(B("a"), I(E + "p"), B("b")), (B("b"), I(E + "p"), B("c"))}),
    ("", set()),
]
RELATIVE = "<http://e/s> <http://e/p> <rel> ."
BAD = {"json": [b"{", b"\xff\xfe", b""], "xml": [b"<a>", b""], "rdfxml": [b"<a", b""], "turtle": [b"<a", b"\xff"]}
UNKNOWN = [None, "", "text/html", "application/json", "text/plain", "application/octet-stream", "application/xml", "x"]
KNOWN = {"json": "application/sparql-results+json", "xml": "application/sparql-results+xml", "rdfxml": "application/rdf+xml", "turtle": "text/turtle"}


def check_result(what, fmt, k, r, cfg):
    if r[0] == "exc":
        raise Mismatch(what, "the parsed result", repr(r[1]))
    v = r[1]
    if fmt == "json":
        if v != JSONS[k] or type(v) is not type(JSONS[k]):
            raise Mismatch(what, JSONS[k], v)
    elif fmt == "xml":
        root = v.getroot()
        got = [b.text for b in root.iter("{http://www.w3.org/2005/sparql-results#}literal")]
        if root.tag != "{http://www.w3.org/2005/sparql-results#}sparql" or got != XMLS[k][1] or not hasattr(root, "head"):
            raise Mismatch(what, XMLS[k][1], got)
    else:
        expect_iso(what, normset((RDFXML if fmt == "rdfxml" else TURTLES)[k][1]), normset(triples(v)))


def bodies(fmt):
    return {"json": [json.dumps(x).encode() for x in JSONS] , "xml": [x.encode("utf-8") for x, _ in XMLS],
            "rdfxml": [x.encode("utf-8") for x, _ in RDFXML], "turtle": [x.encode("utf-8") for x, _ in TURTLES]}[fmt]


def server(cfg, kind=None):
    url, post, direct, verify = cfg
    kw = {} if verify is None else {"verify": verify}
    if kind == "updateable":
        return sp.UpdateableGraphStore(url, "http://h2/data", post_queries=post, post_directly=direct, **kw)
    if kind == "patchable":
        return sp.PatchableGraphStore(url, "http://h2/data/", False, post_queries=post, post_directly=direct, **kw)
    if kind == "defaults":
        return sp.SPARQLServer(url, **dict([("post_queries", True)] * post + [("post_directly", True)] * direct), **kw)
    if kind == "positional":
        return sp.SPARQLServer(url, post, direct, *kw.values())
    return sp.SPARQLServer(url, post_queries=post, post_directly=direct, **kw)


OK = Answer(200, KNOWN["json"], b"{}")


def make(s, kind, text, default, named, output):
    kw = {}
    if default is not None:
        kw["default_graph"] = default
    if named is not None:
        kw["named_graph"] = named
    if kind == "update":
        return s.update, (text,), kw
    if output == "positional":
        return s.query, (text, "xml"), kw
    if output is not None:
        kw["output"] = output
    return s.query, (text,), kw


CFGS = list(itertools.product(URLS, (False, True), (False, True), VERIFY))


def x_request(case):
    _, ci, kind, made = case
    cfg = CFGS[ci]
    n = 0
    s = server(cfg, made)
    for text in TEXTS if made is None else TEXTS[2:3]:
        for default, named in itertools.product(GRAPHS, repeat=2):
            for output in ((None, "json", "xml", "positional") if kind == "query" else (None,)):
                f, a, kw = make(s, kind, text, default, named, output)
                r, reqs = call(OK, f, *a, **kw)
                what = "%s(%r, %r) of a server %r" % (kind, a, kw, cfg)
                if r[0] == "exc":
                    raise Mismatch(what + " raised", "a result", repr(r[1]))
                if kind == "query" and r[1] != {}:
                    raise Mismatch(what, {}, r[1])
                check_request(what, one(what, reqs), cfg, kind, text, default, named, "xml" if output == "positional" else output)
                n += 1
    return repr(case), n


def c_request():
    for ci in range(len(CFGS)):
        for kind in ("query", "update"):
            yield ("request", ci, kind, None)
    for ci in range(len(CFGS)):
        for kind in ("query", "update"):
            for made in ("updateable", "patchable", "positional", "defaults"):
                yield ("request", ci, kind, made)


def x_scale(case):
    _, what, n, ci, kind = case
    cfg = CFGS[ci]
    text, default, named = "q", None, None
    if what == "text":
        text = scale.text(n)
    elif what == "default":
        default = ["http://g/%d" % i for i in range(n)]
    elif what == "named":
        named = ("http://g/a%db" % i for i in range(n))
        named = list(named)
    elif what == "name":
        default, named = "http://g/" + "\u00e9&" * n, ["http://g/" + "+" * n, "urn:" + "x" * n]
    s = server(cfg)
    for k in range(2):
        f, a, kw = make(s, kind, text, default, named, None)
        r, reqs = call(OK, f, *a, **kw)
        w = "%s with %s of size %d of a server %r" % (kind, what, n, cfg)
        if r[0] == "exc":
            raise Mismatch(w + " raised", "a result", repr(r[1]))
        check_request(w, one(w, reqs), cfg, kind, text, default or None, named or None, None)
    return repr(case), 2


def c_scale(tier):
    def gen():
        for ci in range(0, len(CFGS), 4):
            for kind in ("query", "update"):
                for what in ("text", "name"):
                    for n in list(range(0, 20)) + [100, 255, 256, 257, 1023, 1024, 1025, 2000, 4096, 8192, 65536] + ([10 ** 6] if tier == "thorough" else []):
                        yield ("scale", what, n, ci, kind)
                for what in ("default", "named"):
                    for n in list(range(1, 33)) + [64, 100, 256, 1000]:
                        yield ("scale", what, n, ci, kind)
    return gen


def x_text(case):
    _, start, size, mode = case
    text = "".join(chr(c) for c in range(start, start + size) if not 0xD800 <= c < 0xE000)
    cfg = [("http://h/sparql", False, False, None), ("http://h/sparql", True, False, None), ("http://h/sparql", False, True, None)][mode]
    s = server(cfg)
    for kind in ("query", "update"):
        for t, g in ((text, None), ("q", "urn:" + text.strip() if start > 0x20 else None)):
            f, a, kw = make(s, kind, t, g, None, None)
            r, reqs = call(OK, f, *a, **kw)
            if r[0] == "exc":
                raise Mismatch("%s(%r) raised" % (kind, t), "a result", repr(r[1]))
            check_request("%s with text %r graph %r" % (kind, t, g), one(kind, reqs), cfg, kind, t, g, None, None)
    return repr(case), 4


def c_text(size):
    def gen():
        for mode in range(3):
            for start in range(0, 0x110000, size):
                yield ("text", start, size, mode)
    return gen


# ---- answers whose text runs through all of Unicode ----
def x_atext(case):
    _, fmt, start, size = case
    n = 0
    text = block(start, size)
    s = server(("http://h/sparql", False, False, None))
    for t in [text] + list(text[::size // 4]) if text else []:
        body = text_doc(fmt, t).encode("utf-8")
        for ct in (KNOWN[fmt], KNOWN[fmt] + "; charset=utf-8", KNOWN[fmt] + ';charset="UTF-8"'):
            r, reqs = call(Answer(200, ct, body), s.query, "q")
            what = "answer in %s with text %s" % (ct, ascii(t))
            one(what, reqs)
            n += 1
            if r[0] == "exc":
                raise Mismatch(what, "the parsed result", repr(r[1]))
            if fmt == "json":
                if r[1] != json.loads(body.decode("utf-8")):
                    raise Mismatch(what, None, ascii(r[1]))
            elif fmt == "xml":
                got = [b.text for b in r[1].getroot().iter("{http://www.w3.org/2005/sparql-results#}literal")]
                if got != [t]:
                    raise Mismatch(what, ascii(t), ascii(got))
            else:
                expect_iso(what, normset(text_triples(t)), normset(triples(r[1])))
    return repr(case), n


def c_atext(size):
    def gen():
        for fmt in KNOWN:
            for start in range(0, 0x110000, size):
                yield ("atext", fmt, start, size)
    return gen


ACFG = [("http://h/sparql", False, False, None), ("http://h/sparql", True, False, False), ("http://h/sparql", False, True, "/ca.pem"), ("http://h/sparql", True, True, None)]


def x_answer(case):
    _, status, ci = case
    cfg = ACFG[ci]
    n = 0
    s = server(cfg)
    for kind in ("query", "update"):
        for output in ("json", "xml"):
            for fmt, ct0 in list(KNOWN.items()) + [("unknown", x) for x in UNKNOWN]:
                cts = [ct0] if fmt == "unknown" else [ct0, ct0 + "; charset=utf-8", ct0 + ";charset=UTF-8", ct0.upper()]
                bs = bodies(fmt) if fmt != "unknown" else [b"", b"<html/>"]
                for ct in cts if status == 200 else cts[:1]:
                    for k, body in enumerate(bs if status == 200 else bs[:2]):
                        f, a, kw = make(s, kind, "q", "http://g/1", None, output)
                        r, reqs = call(Answer(status, ct, body if status not in NOBODY else b""), f, *a, **kw)
                        what = "%s answered %d %r %r" % (kind, status, ct, body)
                        n += 1
                        check_request(what, one(what, reqs), cfg, kind, "q", "http://g/1", None, output)
                        if status == 204:
                            if r != ("ok", True):
                                raise Mismatch(what, True, repr(r[1]))
                        elif status != 200:
                            if r[0] == "ok" or not isinstance(r[1], sp.SPARQLQueryException):
                                raise Mismatch(what, "SPARQLQueryException", repr(r[1]))
                        elif kind == "update":
                            if r[0] == "exc" or not r[1]:
                                raise Mismatch(what, "a normal return", repr(r[1]))
                        elif fmt == "unknown":
                            if r[0] == "ok" or not isinstance(r[1], sp.UnknownSPARQLReturnTypeException):
                                raise Mismatch(what, "UnknownSPARQLReturnTypeException", repr(r[1]))
                        else:
                            check_result(what, fmt, k, r, cfg)
                if fmt != "unknown" and status == 200 and kind == "query":
                    for body in BAD[fmt]:
                        if fmt == "turtle" and body == b"":
                            continue
                        r, reqs = call(Answer(200, ct0, body), s.query, "q")
                        if r[0] == "ok":
                            raise Mismatch("malformed %s answer %r" % (fmt, body), "an exception", repr(r[1]))
                        n += 1
    if status == 200:
        r, reqs = call(Answer(200, "text/turtle", RELATIVE.encode()), s.query, "q")
        if r[0] == "exc":
            raise Mismatch("Turtle answer with a relative IRI", "a graph", repr(r[1]))
        expect_iso("Turtle answer with a relative IRI", {(I(E + "s"), I(E + "p"), I("http://h/rel"))}, triples(r[1]))
    return repr(case), n


def x_none(case):
    """no answer, or one that breaks off"""
    _, ci, kind, k = case
    cfg = ACFG[ci]
    n = 0
    for answers in ((ERRORS[k % len(ERRORS)],), (ERRORS[k % len(ERRORS)], None), (None, ERRORS[k % len(ERRORS)], None)):
        s = server(cfg)
        for e in answers:
            f, a, kw = make(s, kind, "q", "http://g/1", None, None)
            r, reqs = call(OK if e is None else Answer(error=e), f, *a, **kw)
            what = "%s of server %r with %s" % (kind, cfg, "no answer but %r" % e if e else "an answer")
            check_request(what, one(what, reqs), cfg, kind, "q", "http://g/1", None, None)
            if (r[0] == "exc") != (e is not None):
                raise Mismatch(what, "an exception" if e else "a result", repr(r[1]))
            n += 1
    if kind == "query" and k < len(BROKEN):
        for fmt, ct in KNOWN.items():
            for body in bodies(fmt):
                s = server(cfg)
                r, reqs = call(Answer(200, ct, body, broken=BROKEN[k]), s.query, "q", default_graph="http://g/1")
                what = "query answered in %s, broken off by %r" % (ct, BROKEN[k])
                check_request(what, one(what, reqs), cfg, kind, "q", "http://g/1", None, None)
                if r[0] == "ok":
                    raise Mismatch(what, "an exception", repr(r[1]))
                n += 1
    return repr(case), n


def c_none():
    for ci in range(len(ACFG)):
        for kind in ("query", "update"):
            for k in range(len(ERRORS)):
                yield ("none", ci, kind, k)


def c_answer(statuses):
    def gen():
        for ci in range(len(ACFG)):
            for st in statuses:
                yield ("answer", st, ci)
    return gen


# ---- relative references in an answer are resolved against the query URL ----
def x_rel(case):
    _, url, fmt = case
    n = 0
    for post, direct in itertools.product((False, True), repeat=2):
        s = server((url, post, direct, None))
        for refs in itertools.product(REFS, REFS):
            what = "query to %r answered in %s with references %r" % (url, fmt, refs)
            r, _ = call(Answer(200, KNOWN[fmt], relative("turtle" if fmt == "turtle" else "xml", [refs]).encode()), s.query, "q")
            if r[0] == "exc":
                raise Mismatch(what, "a graph", repr(r[1]))
            expect_iso(what, resolved(url, [refs]), triples(r[1]))
            n += 1
    return repr(case), n


def c_rel():
    for url in ("http://h/sparql", "http://h/a/b/sparql", "https://h:81/a/b/?db=1", "http://h/"):
        for fmt in ("turtle", "rdfxml"):
            yield ("rel", url, fmt)


# ---- histories: a call leaves nothing behind ----
CALLS = [
    ("query", "q1", None, None, None, OK), ("query", "q2", "http://g/1", None, "xml", Answer(200, KNOWN["turtle"], TURTLES[0][0].encode())),
    ("query", "q3", None, ["http://g/2", "http://g/3"], "json", Answer(500, "text/plain", b"no")), ("query", "q1", None, None, None, Answer(200, "text/html", b"")),
    ("update", "u1", None, None, None, Answer(204)), ("update", "u2", "http://g/9", "http://g/8", None, Answer(200, "text/html", b"ok")), ("update", "u1", None, None, None, Answer(400)),
    ("query", "q4", "http://g/1", "http://g/1", None, Answer(error=requests.exceptions.ConnectionError("down"))), ("query", "q1", None, None, "xml", Answer(204)),
]


def outcome(r):
    if r[0] == "exc":
        return ("exc", type(r[1]).__name__)
    v = r[1]
    if isinstance(v, rdflib.Graph):
        return ("ok", sorted(map(repr, triples(v))))
    if isinstance(v, requests.Response):
        return ("ok", v.status_code)
    return ("ok", repr(v))


def do(s, k):
    kind, text, d, n, out, ans = CALLS[k]
    d, n = (list(x) if isinstance(x, list) else x for x in (d, n))
    f, a, kw = make(s, kind, text, d, n, out)
    r, reqs = call(ans, f, *a, **kw)
    return outcome(r), [q.key() for q in reqs]


def x_hist(case):
    _, ci, first, depth = case
    cfg = ACFG[ci]
    fresh = [do(server(cfg), k) for k in range(len(CALLS))]
    n = 0
    for rest in itertools.product(range(len(CALLS)), repeat=depth - 1):
        s, s2 = server(cfg), server(cfg)
        for i, k in enumerate((first,) + rest):
            got = do(s2 if i == 1 and depth > 2 and k % 2 else s, k)
            n += 1
            if got != fresh[k]:
                raise Mismatch("call %r after calls %r" % (CALLS[k][:5], [CALLS[j][:5] for j in ((first,) + rest)[:i]]), fresh[k], got)
    return repr(case), n


def c_hist(depth):
    def gen():
        for ci in range(len(ACFG)):
            for k in range(len(CALLS)):
                yield ("hist", ci, k, depth)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("requests", c_request, x_request, "%d configurations (4 more ways of making the server) x %d texts x %d default x %d named graphs x outputs" % (len(CFGS), len(TEXTS), len(GRAPHS), len(GRAPHS))),
        Space("no answer", c_none, x_none, "%d ways of getting no answer and %d of getting half of one" % (len(ERRORS), len(BROKEN))),
        Space("answers", c_answer(list(range(200, 600)) + [101, 102, 103, 600, 777, 999]), x_answer, "every status 200-599 and 6 others x known and unknown content types x bodies x query, update x %d configurations" % len(ACFG)),
        Space("relative references", c_rel, x_rel, "4 query URLs x 2 formats x %d references as subject and as object x 4 ways of sending" % len(REFS)),
        Space("histories", c_hist(4 if th else 3), x_hist, "all histories of %d calls out of %d" % (4 if th else 3, len(CALLS))),
        Space("scale", c_scale(tier), x_scale, "texts and graph names of up to 65536 characters, up to 1000 graphs, 12 configurations"),
        Space("answer texts", c_atext(64 if th else 512), x_atext, "every Unicode character the formats can hold as it is in the text of an answer, 4 formats, 3 ways of naming the media type"),
        Space("texts", c_text(64 if th else 1024), x_text, "every Unicode character in query texts and graph names, three ways of sending"),
    ]
