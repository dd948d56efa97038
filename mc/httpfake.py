"""A transport that records each request the code under test sends and gives a scripted answer.

Every requests session ends in HTTPAdapter.send, so replacing that method sees all
requests, whichever session or helper makes them; nothing reaches a network."""
import io
import os

from . import sut  # noqa: F401
from .core import Mismatch
from .rdfmodel import B, I, L

import rdflib
import requests
import requests.adapters
import urllib3

for k in list(os.environ):
    if k.lower() in ("requests_ca_bundle", "curl_ca_bundle", "http_proxy", "https_proxy", "all_proxy", "no_proxy", "netrc"):
        del os.environ[k]
os.environ["NETRC"] = "/nonexistent"


class Answer:
    def __init__(self, status=200, ctype=None, body=b"", headers=(), error=None, broken=None):
        self.broken = broken  # raised once the body has been read
        self.status, self.ctype, self.body, self.headers, self.error = status, ctype, body, dict(headers), error


class Broken(io.RawIOBase):
    def __init__(self, body, error):
        self.body, self.error = body, error

    def readable(self):
        return True

    def read(self, n=-1, *a, **kw):
        if not self.body:
            raise self.error
        k = len(self.body) if n is None or n < 0 else n
        out, self.body = self.body[:k], self.body[k:]
        if n is None or n < 0:
            raise self.error
        return out


NOBODY = {204, 304} | set(range(100, 200))  # statuses of answers without a body

# what can happen instead of an answer
ERRORS = [requests.exceptions.ConnectionError("down"), requests.exceptions.ConnectTimeout("slow"), requests.exceptions.ReadTimeout("slow"), requests.exceptions.SSLError("bad certificate"),
          requests.exceptions.ProxyError("proxy"), requests.exceptions.ChunkedEncodingError("cut"), requests.exceptions.ContentDecodingError("gzip"), requests.exceptions.TooManyRedirects("loop"),
          ConnectionResetError("reset"), BrokenPipeError("pipe"), OSError("network"), TimeoutError("slow"), UnicodeError("label"), requests.exceptions.InvalidURL("u"), EOFError("end"), StopIteration("stop"), KeyError("k")]
BROKEN = [urllib3.exceptions.ProtocolError("Connection broken: IncompleteRead", None), urllib3.exceptions.ReadTimeoutError(None, None, "slow"), urllib3.exceptions.DecodeError("gzip"), ConnectionResetError("reset")]


class Seen:
    def __init__(self, method, url, headers, body, verify):
        self.method, self.url, self.headers, self.body, self.verify = method, url, headers, body, verify

    def key(self):
        return (self.method, self.url, sorted((k.lower(), v) for k, v in self.headers.items()), self.body, self.verify)


seen = []
script = [Answer()]
NOTBYTES = []


def _body(b):
    if b is None:
        return b""
    if isinstance(b, bytes):
        return b
    if isinstance(b, str):
        return b.encode("utf-8")   # what urllib3 puts on the wire
    if hasattr(b, "read"):
        d = b.read()
        return d if isinstance(d, bytes) else d.encode("utf-8")
    return b"".join(x if isinstance(x, bytes) else x.encode("utf-8") for x in b)


def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    hs = {k if isinstance(k, str) else k.decode(): v if isinstance(v, str) else v.decode("latin-1") for k, v in request.headers.items()}
    seen.append(Seen(request.method, request.url, hs, _body(request.body), verify))
    if len(seen) > 50:
        raise RuntimeError("more than 50 requests for one call")
    a = script[0]
    if a.error is not None:
        raise a.error
    h = dict(a.headers)
    if a.ctype is not None:
        h["Content-Type"] = a.ctype
    raw = urllib3.HTTPResponse(body=io.BytesIO(a.body) if a.broken is None else Broken(a.body, a.broken), headers=h, status=a.status, preload_content=False, reason="scripted")
    return self.build_response(request, raw)


requests.adapters.HTTPAdapter.send = send


def call(answer, f, *args, **kw):
    """-> (('ok'|'exc', value), requests seen)"""
    from .core import attempt
    del seen[:]
    script[0] = answer
    r = attempt(f, *args, **kw)
    return r, list(seen)


def one(what, reqs):
    if len(reqs) != 1:
        raise Mismatch(what + ": number of requests", 1, [(r.method, r.url) for r in reqs])
    return reqs[0]


def term(x):
    if isinstance(x, rdflib.BNode):
        return B(str(x))
    if isinstance(x, rdflib.URIRef):
        return I(str(x))
    if isinstance(x, rdflib.Literal):
        return L(str.__str__(x), x.language, str(x.datatype) if x.datatype is not None else None)
    raise Mismatch("not an RDF term", None, repr(x))


def triples(g):
    return {(term(s), term(p), term(o)) for s, p, o in g.triples((None, None, None))}


def media(headers, name="content-type"):
    for k, v in headers.items():
        if k.lower() == name:
            parts = [x.strip() for x in v.split(";")]
            return parts[0].lower(), [x.lower().replace('"', "").replace(" ", "") for x in parts[1:]]
    return None, []


# ---- answers with relative references: they are resolved against where the answer comes from ----
REFS = ["r", "r/s", "", "#f", "/x", "/x/y#z", "./v", "../u", "r#g", "//other/p", "http://e/abs"]


def relative(fmt, refs):
    """A document in the format with one statement about each of the references, and what it says as reference pairs."""
    if fmt in ("turtle", "n3"):
        return "".join("<%s> <http://e/p> <%s> .\n" % (a, b) for a, b in refs)
    return ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/">%s</rdf:RDF>'
            % "".join('<rdf:Description rdf:about="%s"><e:p rdf:resource="%s"/></rdf:Description>' % p for p in refs))


def resolved(base, refs):
    from urllib.parse import urljoin
    base = base.partition("#")[0]
    return {(("I", urljoin(base, a) if a else base), ("I", "http://e/p"), ("I", urljoin(base, b) if b else base)) for a, b in refs}


# ---- answers whose text runs through all of Unicode ----
def block(start, size):
    """The characters of a block that every one of the formats can hold as they are."""
    return "".join(chr(c) for c in range(start, start + size)
                   if c >= 0x20 and not 0xD800 <= c < 0xE000 and c & 0xFFFE != 0xFFFE and not 0x7F <= c < 0xA0 and not 0xFDD0 <= c < 0xFDF0 and chr(c) not in '"\\<>&')


def text_doc(fmt, text):
    """A document in the format that holds the text as it is, in a literal and in a language-tagged one."""
    if fmt == "json":
        return '{"head": {"vars": ["s"]}, "results": {"bindings": [{"s": {"type": "literal", "value": "%s"}}]}}' % text
    if fmt == "xml":
        return ('<?xml version="1.0"?><sparql xmlns="http://www.w3.org/2005/sparql-results#"><head><variable name="s"/></head><results>'
                '<result><binding name="s"><literal>%s</literal></binding></result></results></sparql>' % text)
    if fmt == "rdfxml":
        return ('<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/"><rdf:Description rdf:about="http://e/s">'
                '<e:p>%s</e:p><e:p xml:lang="fr">x%s</e:p></rdf:Description></rdf:RDF>' % (text, text))
    return '<http://e/s> <http://e/p> "%s" .\n<http://e/s> <http://e/p> "x%s"@fr .\n' % (text, text)


def text_triples(text):
    return {(I("http://e/s"), I("http://e/p"), L(text)), (I("http://e/s"), I("http://e/p"), L("x" + text, "fr"))}
