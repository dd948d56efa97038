"""C22: graph store calls follow the graph store protocol for every server answer."""
import io
import itertools
from urllib.parse import parse_qsl, unquote, urlsplit

from .. import ntref, scale
from ..core import Mismatch, Space
from ..httpfake import BROKEN, ERRORS, NOBODY, REFS, Answer, block, call, media, one, rdflib, relative, requests, resolved, text_doc, text_triples, triples
from ..rdfmodel import B, I, L, XSD, expect_iso, normset
import pymantic.sparql as sp

LEVEL = "model_checking"
TECHNIQUE = "exhaustive store configurations x calls x graph names x server answers, and call histories, on the real client over a scripted transport"
RULE = ("every method with every graph name, content and status: the one request seen by the transport is compared with the graph store protocol's, "
        "the outcome with the status; all histories of calls: each request equals that of the same call on a new client")
ASSUMPTIONS = ["path-style stores have a dataset URL ending in a slash", "2xx statuses other than those the protocol names for the method are left open",
               "answers carry no cookies and no redirect location", "rdflib parses and serializes what it is given"]

VERIFY = [None, True, False, "/ca.pem"]
DATASETS = {True: ["http://h/data", "https://h:8080/a/data?db=1&x=%26", "http://h/data/"], False: ["http://h/data/", "http://h/"]}
GRAPHS = ["http://g/1", "http://g/a?b=c&d=e#f", "urn:x:y", "http://g/%20%2F", "http://g/a+b;c,d'e(f)*!~$@[]", "http://g/\u00e9\u4e2d\U0001f600", "http://g/..", "http://g/a/../b", "http://h/data?graph=x", "tag:a,b:c"]
N = rdflib.URIRef
GOOD = {"get": {200}, "put": {200, 201, 204}, "post": {200, 201, 204}, "postall": {201}, "delete": {200, 202, 204}, "patch": {200, 201, 204}}


def graph(k):
    g = rdflib.Graph()
    b1, b2 = rdflib.BNode(), rdflib.BNode()
    Lit = rdflib.Literal
    T = [
        [],
        [(N("http://e/s"), N("http://e/p"), N("http://e/o"))],
        [(b1, N("http://e/p"), b2), (b2, N("http://e/p"), b1), (b1, N("http://e/q"), b1)],
        [(N("http://e/s"), N("http://e/p"), x) for x in (Lit("x"), Lit("x", lang="en"), Lit("x", lang="en-us"), Lit("5", datatype=N(XSD + "integer")), Lit("x", datatype=N("http://e/dt")), Lit(""))],
        [(N("http://e/\u00e9"), N("http://e/p"), Lit("a\n\"\\\r\t\u00e9\u4e2d\U0001f600 '"))],
    ][k]
    for t in T:
        g.add(t)
    return g


NG = 5
SENT = {
    "text/plain": ('<http://e/s> <http://e/p> "\\u00E9 x"@en .\n_:a <http://e/p> _:b .\n_:b <http://e/p> <http://e/o> .\n', "abs"),
    "text/turtle": ('@prefix e: <http://e/> .\ne:s e:p "\u00e9 x"@en . _:a e:p _:b . _:b e:p e:o .', "abs"),
    "text/rdf+n3": ('@prefix e: <http://e/> .\ne:s e:p "\u00e9 x"@en . _:a e:p _:b . _:b e:p e:o .', "abs"),
    "application/rdf+xml": ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/"><rdf:Description rdf:about="http://e/s"><e:p xml:lang="en">\u00e9 x</e:p></rdf:Description>'
                            '<rdf:Description rdf:nodeID="a"><e:p rdf:nodeID="b"/></rdf:Description><rdf:Description rdf:nodeID="b"><e:p rdf:resource="http://e/o"/></rdf:Description></rdf:RDF>', "abs"),
}
WANT = {(I("http://e/s"), I("http://e/p"), L("\u00e9 x", "en")), (B("a"), I("http://e/p"), B("b")), (B("b"), I("http://e/p"), I("http://e/o"))}
EMPTY = {"text/plain": "", "text/turtle": "", "text/rdf+n3": "", "application/rdf+xml": '<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>'}
UNKNOWN = [None, "", "text/html", "application/sparql-results+json", "application/octet-stream"]


def store(cfg, made="keywords"):
    ds, style, verify = cfg
    kw = {} if verify is None else {"verify": verify}
    if made == "defaults":
        return sp.PatchableGraphStore("http://h/query", ds, **kw) if style else sp.PatchableGraphStore("http://h/query", ds, False, **kw)
    if made == "server arguments":
        return sp.PatchableGraphStore(query_url="http://h/query?x=y", dataset_url=ds, param_style=style, post_queries=True, post_directly=True, **kw)
    if made == "updateable":
        return sp.UpdateableGraphStore("http://h/query", ds, style, **kw)
    return sp.PatchableGraphStore("http://h/query", ds, param_style=style, **kw)


def check_url(what, req, cfg, gname):
    ds, style, verify = cfg
    u, d = urlsplit(req.url), urlsplit(ds)
    if gname is None:
        ok = (u.scheme, u.netloc, u.path, u.query, u.fragment) == tuple(d)
    elif style:
        q = parse_qsl(u.query, keep_blank_values=True, encoding="utf-8", errors="strict")
        ok = (u.scheme, u.netloc, u.path, u.fragment) == (d.scheme, d.netloc, d.path, "") and sorted(q) == sorted(parse_qsl(d.query, keep_blank_values=True) + [("graph", gname)])
    else:
        ok = req.url.startswith(ds) and not u.query and not u.fragment and "/" not in req.url[len(ds):] and unquote(req.url[len(ds):], errors="strict") == gname
    if not ok:
        raise Mismatch(what + ": URL", (ds, "graph parameter" if style else "path", gname), req.url)
    if any(ord(c) > 126 or ord(c) < 33 for c in req.url):
        raise Mismatch(what + ": URL not escaped", None, req.url)
    if req.verify != (True if verify is None else verify):
        raise Mismatch(what + ": TLS verification", verify, req.verify)


def perform(s, op, gname, content):
    if op == "get":
        return s.get, (gname,)
    if op == "delete":
        return s.delete, (gname,)
    if op == "put":
        return s.put, (gname, content)
    if op == "post":
        return s.post, (gname, content)
    if op == "postall":
        return s.post, (None, content)
    return s.patch, (gname, content)


METHOD = {"get": "GET", "put": "PUT", "post": "POST", "postall": "POST", "delete": "DELETE", "patch": "PATCH"}
OPS = list(METHOD)


def check_call(what, s, cfg, op, gname, k, ans, extra=None):
    if isinstance(k, rdflib.Graph):
        content, k = k, len(k)
        if op == "patch":
            content = sp.changeset(content, graph(1), gname)
    else:
        content = graph(k) if op != "patch" else sp.changeset(graph(k), graph((k + 1) % NG), gname)
    before = triples(content)
    f, a = perform(s, op, gname, content)
    r, reqs = call(ans, f, *a)
    what = "%s graph %r content %d of store %r answered %d" % (op, gname, k, cfg, ans.status) if what is None else what
    req = one(what, reqs)
    if req.method != METHOD[op]:
        raise Mismatch(what + ": method", METHOD[op], req.method)
    check_url(what, req, cfg, None if op == "postall" else gname)
    ct, params = media(req.headers)
    if op in ("get", "delete"):
        if req.body:
            raise Mismatch(what + ": body", b"", req.body)
        if op == "get":
            acc = next((v for h, v in req.headers.items() if h.lower() == "accept"), "")
            acc = {x.split(";")[0].strip() for x in acc.split(",")}
            if not set(SENT) <= acc:
                raise Mismatch(what + ": Accept", set(SENT), acc)
    elif op == "patch":
        if ct != "application/vnd.talis.changeset+xml":
            raise Mismatch(what + ": content type", "application/vnd.talis.changeset+xml", req.headers)
        expect_iso(what + ": body", normset(before), normset(triples(rdflib.Graph().parse(io.BytesIO(req.body), format="xml"))))
    else:
        if ct not in ("text/plain", "application/n-triples") or any(p.startswith("charset") and p != "charset=utf-8" for p in params):
            raise Mismatch(what + ": content type", "text/plain", req.headers)
        try:
            got = ntref.read(req.body.decode("utf-8"))
        except Exception as e:
            raise Mismatch(what + ": body is not N-Triples: %r" % e, None, req.body)
        expect_iso(what + ": body", normset(before), normset(got))
    if triples(content) != before:
        raise Mismatch(what + " changed the graph it was given")
    if ans.error or ans.broken:
        if r[0] == "ok":
            raise Mismatch(what + ", no answer but %r" % (ans.error or ans.broken), "an exception", repr(r[1]))
    elif ans.status in GOOD[op]:
        if op == "get" and extra == "unknown":
            if r[0] == "ok":
                raise Mismatch(what + " %r" % ans.ctype, "an exception", repr(r[1]))
        elif r[0] == "exc":
            raise Mismatch(what, "a normal return", repr(r[1]))
        elif op == "get":
            expect_iso(what + " %r" % ans.ctype, normset(extra), normset(triples(r[1])))
    elif not 200 <= ans.status < 300:
        if r[0] == "ok":
            raise Mismatch(what, "an exception", repr(r[1]))
    return r, req


CFGS = [(d, st, v) for st in (True, False) for d in DATASETS[st] for v in VERIFY]
NTGET = Answer(200, "text/plain", SENT["text/plain"][0].encode())


def good(op):
    return Answer(200, "text/plain", SENT["text/plain"][0].encode()) if op == "get" else Answer(201 if op.startswith("post") else 200)


def x_request(case):
    _, ci, made = case
    cfg = CFGS[ci]
    s = store(cfg, made)
    n = 0
    for gname in GRAPHS:
        for op in OPS:
            if op == "patch" and made == "updateable":
                continue
            for k in range(NG):
                check_call(None, s, cfg, op, gname, k, good(op), WANT)
                n += 1
                if op in ("get", "delete"):
                    break
    return repr(case), n


def c_request():
    for ci in range(len(CFGS)):
        for made in ("keywords", "defaults", "server arguments", "updateable"):
            yield ("request", ci, made)


def x_answer(case):
    _, status, ci = case
    cfg = ACFG[ci]
    n = 0
    for op in OPS:
        s = store(cfg)
        nobody = status in NOBODY
        if op != "get":
            for ct, body in ((None, b""), ("text/html", b"<html/>"), ("text/turtle", b"<a> <b> <c> .")):
                check_call(None, s, cfg, op, "http://g/1", 1, Answer(status, ct, b"" if nobody else body))
                n += 1
            continue
        for ct in SENT:
            for c in (ct, ct + "; charset=utf-8", ct + ";charset=UTF-8", ct.upper()):
                for doc, want in ((SENT[ct][0], WANT), (EMPTY[ct], set())):
                    check_call(None, s, cfg, op, "http://g/1", 1, Answer(status, c, b"" if nobody else doc.encode("utf-8")), want)
                    n += 1
        for c in UNKNOWN:
            check_call(None, s, cfg, op, "http://g/1", 1, Answer(status, c, b"" if nobody else b"<http://e/s> <http://e/p> <http://e/o> ."), "unknown")
            n += 1
        if status == 200:
            for ct, bad in (("text/plain", b"<a"), ("text/turtle", b"<a"), ("application/rdf+xml", b"<a"), ("text/rdf+n3", b"<a")):
                f, a = perform(s, "get", "http://g/1", None)
                r, reqs = call(Answer(200, ct, bad), f, *a)
                if r[0] == "ok":
                    raise Mismatch("malformed answer to get, %s" % ct, "an exception", repr(r[1]))
    return repr(case), n


ACFG = [("http://h/data", True, None), ("http://h/data/", False, False)]


def c_answer():
    for ci in range(len(ACFG)):
        for st in list(range(200, 600)) + [101, 102, 103, 600, 777, 999]:
            yield ("answer", st, ci)


def x_none(case):
    _, ci, op, k = case
    n = 0
    for answers in ((1,), (1, 0), (0, 1, 0)):
        s = store(ACFG[ci])
        for e in answers:
            check_call(None, s, ACFG[ci], op, "http://g/1", 1, Answer(error=ERRORS[k]) if e else good(op), WANT)
            n += 1
    if op == "get" and k < len(BROKEN):
        for ct in SENT:
            check_call(None, store(ACFG[ci]), ACFG[ci], op, "http://g/1", 1, Answer(200, ct, SENT[ct][0].encode("utf-8"), broken=BROKEN[k]))
            n += 1
    return repr(case), n


def c_none():
    for ci in range(len(ACFG)):
        for op in OPS:
            for k in range(len(ERRORS)):
                yield ("none", ci, op, k)


def x_name(case):
    _, start, size, ci = case
    s = store(ACFG[ci])
    n = 0
    name = "http://g/" + "".join(chr(c) for c in range(start, start + size) if not (0xD800 <= c < 0xE000 or c <= 0x20 or chr(c) in '<>"{}|^`\\'))
    for op in ("get", "delete", "put", "post"):
        check_call(None, s, ACFG[ci], op, name, 1, good(op), WANT)
        n += 1
    return repr(case), n


def c_name(size):
    def gen():
        for ci in range(len(ACFG)):
            for start in range(0, 0x3000, 16):
                yield ("name", start, 16, ci)
            for start in range(0x3000, 0x110000, size):
                yield ("name", start, size, ci)
    return gen


# ---- contents of growing size, contents as fetched ----
def big(kind, n, conj):
    g = rdflib.ConjunctiveGraph() if conj else rdflib.Graph()
    for s in scale.triples(kind, n):
        g.add(tuple(N(x[1]) if x[0] == "I" else rdflib.BNode(x[1]) if x[0] == "B" else rdflib.Literal(x[1], lang=x[2], datatype=x[3] and N(x[3])) for x in s))
    return g


def x_scale(case):
    _, kind, n, ci = case
    s = store(ACFG[ci])
    for i, op in enumerate(("put", "post", "postall", "patch")):
        g = big(kind, n, (n + i) % 2)
        check_call(None, s, ACFG[ci], op, "http://g/1", g, good(op))
    doc = "".join("<%s> <%s> %s .\n" % (a[1], b[1], "<%s>" % o[1] if o[0] == "I" else '"%s"' % o[1]) for a, b, o in scale.triples("subjects", n))
    for ct in ("text/plain", "text/turtle", "text/rdf+n3"):
        check_call(None, s, ACFG[ci], "get", "http://g/1", 0, Answer(200, ct, doc.encode()), set(scale.triples("subjects", n)))
    name = "http://g/" + "a/&\u00e9" * n
    for op in ("get", "delete", "put"):
        check_call(None, s, ACFG[ci], op, name, 1, good(op), WANT)
    return repr(case), 10


def c_scale(tier):
    def gen():
        for ci in range(len(ACFG)):
            for kind in ("blank chain", "objects", "literal length", "subjects"):
                for n in list(range(0, 17)) + [32, 33, 100, 256, 257, 1025] + ([4096, 8193] if tier == "thorough" and kind != "blank chain" else []):
                    yield ("scale", kind, n, ci)
    return gen


# ---- relative references in an answer are resolved against the graph's name ----
NAMES = ["http://g/1", "http://g/a/b/c", "http://g/a/b/", "http://g/a?b=c&d=e", "https://g:81/a/b?c=d#f", "http://g/\u00e9/\u4e2d"]


def x_rel(case):
    _, gname, fmt, depth = case
    n = 0
    for refs in itertools.product(itertools.product(REFS, REFS), repeat=depth):
        for ci in range(len(ACFG)):
            check_call("get graph %r answered in %s with references %r" % (gname, fmt, refs), store(ACFG[ci]), ACFG[ci], "get", gname, 0,
                       Answer(200, FORMATS[fmt], relative(fmt, refs).encode("utf-8")), resolved(gname, refs))
            n += 1
    return repr(case), n


FORMATS = {"turtle": "text/turtle", "n3": "text/rdf+n3", "xml": "application/rdf+xml"}


def c_rel():
    for gname in NAMES:
        for fmt in FORMATS:
            yield ("rel", gname, fmt, 1)


# ---- histories ----
# ---- contents whose text runs through all of Unicode ----
def x_ctext(case):
    _, kind, start, size = case
    n = 0
    text = block(start, size)
    cfg = CFGS[0]
    s = store(cfg)
    for t in [text] + list(text[::size // 4]) if text else []:
        if kind in SENT:
            fmt = {"application/rdf+xml": "rdfxml"}.get(kind, "nt")
            for ct in (kind, kind + "; charset=utf-8", kind + ';charset="UTF-8"'):
                check_call("get answered in %s with text %s" % (ct, ascii(t)), s, cfg, "get", "http://g/1", 1,
                           Answer(200, ct, text_doc(fmt, t).encode("utf-8")), text_triples(t))
                n += 1
        else:
            g = rdflib.Graph()
            g.add((N("http://e/s"), N("http://e/p"), rdflib.Literal(t)))
            g.add((N("http://e/s"), N("http://e/p"), rdflib.Literal("x" + t, lang="fr")))
            check_call("%s of text %s" % (kind, ascii(t)), s, cfg, kind, "http://g/1", g, good(kind))
            n += 1
    return repr(case), n


def c_ctext(size):
    def gen():
        for kind in list(SENT) + ["put", "post", "postall", "patch"]:
            for start in range(0, 0x110000, size):
                yield ("ctext", kind, start, size)
    return gen


CALLS = [("get", "http://g/1", 0, NTGET), ("get", "http://g/2", 0, Answer(404, "text/html", b"no")), ("put", "http://g/1", 1, Answer(201)), ("put", "http://g/2", 3, Answer(500)), ("post", "http://g/1", 4, Answer(204)),
         ("postall", None, 1, Answer(201, headers={"Location": "http://h/new"})), ("delete", "http://g/1", 0, Answer(204)), ("delete", "http://g/2", 0, Answer(error=requests.exceptions.ConnectionError("down"))), ("get", "http://g/1", 0, Answer(200, "text/html", b""))]


def do(s, k):
    op, gname, c, ans = CALLS[k]
    f, a = perform(s, op, gname, graph(c))
    r, reqs = call(ans, f, *a)
    v = r[1]
    out = ("exc", type(v).__name__) if r[0] == "exc" else ("ok", sorted(map(repr, ((s_[0], p, o[0]) for s_, p, o in triples(v)))) if isinstance(v, rdflib.Graph) else repr(v))
    return out, [q.key() for q in reqs]


def x_hist(case):
    _, ci, first, depth = case
    cfg = ACFG[ci]
    fresh = [do(store(cfg), k) for k in range(len(CALLS))]
    n = 0
    for rest in itertools.product(range(len(CALLS)), repeat=depth - 1):
        s, s2 = store(cfg), store(ACFG[1 - ci])
        for i, k in enumerate((first,) + rest):
            if i == 1:
                do(s2, k)
            got = do(s, k)
            n += 1
            if tuple(got) != tuple(fresh[k]) and sort_body(got) != sort_body(fresh[k]):
                raise Mismatch("call %r after calls %r" % (CALLS[k][:3], [CALLS[j][:3] for j in ((first,) + rest)[:i]]), fresh[k], got)
    return repr(case), n


def sort_body(x):
    return x[0], [(m, u, h, sorted(b.splitlines()), v) for m, u, h, b, v in x[1]]


def c_hist(depth):
    def gen():
        for ci in range(len(ACFG)):
            for k in range(len(CALLS)):
                yield ("hist", ci, k, depth)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("requests", c_request, x_request, "%d configurations x 4 ways of making the store x %d graph names x 6 calls x %d contents" % (len(CFGS), len(GRAPHS), NG)),
        Space("no answer", c_none, x_none, "%d ways of getting no answer and %d of getting half of one x 6 calls" % (len(ERRORS), len(BROKEN))),
        Space("answers", c_answer, x_answer, "every status 200-599 and 6 others x 6 calls x formats and bodies x both addressing styles"),
        Space("relative references", c_rel, x_rel, "%d graph names x 3 formats x %d references as subject and as object" % (len(NAMES), len(REFS))),
        Space("histories", c_hist(4 if th else 3), x_hist, "all histories of %d calls out of %d, with another store used in between" % (4 if th else 3, len(CALLS))),
        Space("scale", c_scale(tier), x_scale, "contents of up to 1025 statements or literals of as many characters, graph names as long, contents of the kind get returns"),
        Space("content texts", c_ctext(64 if th else 512), x_ctext, "every Unicode character the formats can hold as it is in literals got, in 4 formats, put, posted and patched"),
        Space("names", c_name(64 if th else 512), x_name, "every character allowed in an IRI in the graph name, both addressing styles"),
    ]
