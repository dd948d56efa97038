"""C08: base and prefix scoping in Turtle, RFC 3986 resolution."""
import itertools

from .. import docscale
from ..chars import batches
from ..core import Mismatch, Space, attempt, heartbeat
from ..ntref import Reject
from ..ttlcheck import verdict
from ..rdfmodel import back_triple, I
from ..ttlref import Open, Reader, resolve
from pymantic.parsers import turtle_parser

LEVEL = "model_checking"
TECHNIQUE = "exhaustive directive sequences and base x reference products, real parser against a reference reader with the RFC 3986 algorithm"
RULE = ("every sequence of directives and uses up to a length, from every caller base; every combination of base and reference "
        "components; a probe document after each parse shows that nothing was carried over")
ASSUMPTIONS = ["absolute IRIs are compared as written (no dot-segment removal)", "rdf: and xsd: are predeclared by the parser and not probed as undeclared"]

ITEMS = [
    "@prefix p: <http://a/> .", "@prefix p: <b/> .", "PREFIX p: <#>", "@prefix : <http://d/x?> .", "prefix q: <../>",
    "@base <http://c/x/y> .", "BASE <../z/w>", "base <app://q>", "@base <?k=v#g> .", "@base <> .",
    "p:l <r> :m .", "<> <#f> <../u?x#y> .", "<HTTP://abs/../x?> p: \"v\"^^<t> .", "<s> <p> p:n , q:n ; : [ <i/j> ( p:o </k> ) ] .",
]
BASES = ["", "http://e/d/doc?q#f", "urn:a:b", "app://h", "http://e/d/"]


def probe():
    r = attempt(turtle_parser.parse, "p:x <http://e/r> 1 .")
    if r[0] == "ok":
        raise Mismatch("a prefix declared by an earlier document is still declared", "an exception", [tuple(t) for t in r[1]])
    r = attempt(turtle_parser.parse, ":x <http://e/r> 1 .")
    if r[0] == "ok":
        raise Mismatch("the default prefix declared by an earlier document is still declared", "an exception", [tuple(t) for t in r[1]])
    r = attempt(turtle_parser.parse, "<r> <http://e/p> <a/b> .")
    want = {(I("r"), I("http://e/p"), I("a/b"))}
    if r[0] == "exc" or {back_triple(t) for t in r[1]} != want:
        raise Mismatch("the base of an earlier document is still in force", want, r[1] if r[0] == "exc" else [tuple(t) for t in r[1]])


def x_seq(case):
    _, idx, base = case
    doc = "\n".join(ITEMS[i] for i in idx)
    v = verdict(doc, BASES[base])
    probe()
    return v + repr((idx, base)), len(idx) + 3


def c_seq(n, nb):
    def gen():
        for k in range(1, n + 1):
            for idx in itertools.product(range(len(ITEMS)), repeat=k):
                # the last item must use something, or fail
                if k > 2 and idx[-1] < 10:
                    continue
                for b in range(len(BASES) if k <= nb else 2):
                    yield ("seq", idx, b)
    return gen


def bases(lean=False):
    for scheme in ("http:", "app:", "x+y-z.1:", ""):
        for auth in ("", "//h", "//", "//u@h:8"):
            for path in ("", "/", "/a", "/a/b", "/a/b/", "a", "a/b", "/a/../b", "//a"):
                if auth and path and not path.startswith("/"):
                    continue
                if not auth and path.startswith("//"):
                    continue
                if not scheme and not auth and ":" in path:
                    continue
                for q, f in (("", ""), ("?q", "#f"), ("?", "")) if lean else itertools.product(("", "?", "?q", "?q/../r"), ("", "#", "#f")):
                    u = scheme + auth + path + q + f
                    if u:
                        yield u


def refs(nseg):
    tails = [q + f for q in ("", "?", "?y", "?y/../z") for f in ("", "#", "#z", "#a/../b")]
    segs = ("", ".", "..", "a", "...", ".b")
    for k in range(0, nseg + 1):
        for s in itertools.product(segs, repeat=k):
            p = "/".join(s)
            for lead in ("", "/"):
                path = lead + p
                if path.startswith("//"):
                    continue
                for t in (tails if k <= 2 else tails[:5]):
                    yield path + t
    for a in ("//g", "//", "//g/", "//g/a/../b", "//g:1/.", "//g?y", "//g#z", "///a"):
        yield a
        yield a + "#"
    for a in ("http:", "http:g", "http:/a/../b", "http://h/a/./b?#", "HTTP://H/%7e?", "urn:x:y", "urn:", "x:..", "mailto:a@b", "file:///a/b", "a1+.-:x",
              "http://h", "http://h?", "http://h#", "http://[::1]/a", "http://\u00e9/\u00e9", "a/b:c", "./b:c", "?b:c", "#b:c", "/b:c", ";x", "a;x=1/../y", "a,b"):
        yield a


def x_ref(case):
    _, base, how, nseg, lo, hi = case
    rs = list(itertools.islice(refs(nseg), lo, hi))
    pre = "" if how == "arg" else ("@base <%s> .\n" if how == "@" else "BASE <%s>\n") % base
    doc = pre + "\n".join("<%s> <http://e/p%d> <http://e/o> ." % (r, i) for i, r in enumerate(rs))
    v = verdict(doc, base if how == "arg" else "")
    if not v.startswith("accept"):
        raise AssertionError(doc)
    pre2 = pre + "\n".join("@prefix p%d: <%s> .\np%d: <http://e/p> p%d:x ." % (i, r, i, i) for i, r in enumerate(rs[::7]))
    verdict(pre2, base if how == "arg" else "")
    pre3 = pre + "\n".join("%s <%s> .\n<k> <http://e/p%d> <?w> ." % ("@base", r, i) for i, r in enumerate(rs[::5]))
    verdict(pre3, base if how == "arg" else "")
    return ["%s %d %d" % (base, lo, i) for i in range(0, len(rs), 20)], len(rs)


def c_ref(nseg, every):
    def gen():
        n = sum(1 for _ in refs(nseg))
        if not every:
            every3 = ["http://h/a/b", "http://h", "app:/a/b/c?q", "a/b/c", "x:a/b", "urn:a", "http://h/a/b/c/d"]
            for b in every3:
                for lo in range(0, n, 400):
                    yield ("ref", b, "arg", nseg, lo, lo + 400)
            return
        for i, b in enumerate(bases(nseg < 4)):
            for lo in range(0, n, 400):
                yield ("ref", b, ("arg", "@", "BASE")[i % 3] if every else "arg", nseg, lo, lo + 400)
    return gen


NAMECHARS = ["a", "B", "-", ".", "0", "_", "\u00e9", "\u00b7"]


def x_pnames(case):
    _, n1, n2 = case
    doc = "@prefix %s: <http://a/> .\n@prefix %s: <http://b/> .\n%s:x <http://e/p> %s:x .\nPREFIX %s: <http://c/>\n%s:x <http://e/q> %s:x ." % (
        n1, n2, n1, n2, n1, n1, n2)
    return verdict(doc) + repr((n1, n2)), 1


def c_pnames(n):
    def gen():
        names = ["".join(t) for k in range(0, n + 1) for t in itertools.product(NAMECHARS, repeat=k)]
        for a in names:
            for b in ("", "a", "aa", a + "a", a.swapcase()):
                yield ("pn", a, b)
        for a, b in itertools.product(["prefix", "base", "PREFIX", "BASE", "a", "true", "false", "rdf", "xsd", "_", "e"], repeat=2):
            yield ("pn", a, b)
    return gen


# ---- every sequence of directive tokens ----
DTOK = ["@prefix", "PREFIX", "pReFiX", "@PREFIX", "@base", "BASE", "bAsE", "@Base", "p:", ":", "p:x", "<r>", "<http://f/>", ".", ";", "a"]
DENDS = (".", "<r> .", "<r>", "p: <r> .", "p: p: .", "<r> <r> .", "<r> <r> <r> .")


def viable(doc):
    r = Reader(doc, "http://b/c/d")
    try:
        r.run()
        return True
    except Open:
        return False
    except Reject:
        return r.peek() == ""


def x_dtok(case):
    _, prefix, depth = case
    keys, n = [], 0
    stack = [tuple(prefix)]
    while stack:
        p = stack.pop()
        heartbeat()
        for t in DTOK:
            q = p + (t,)
            doc = " ".join(q)
            v = verdict(doc, "http://b/c/d")
            n += 1
            if v.startswith("accept"):
                keys.append(doc)
            if v.startswith("accept") or viable(doc):
                if len(q) < depth:
                    stack.append(q)
            elif v == "reject":
                for end in DENDS:
                    verdict(doc + " " + end, "http://b/c/d")
                n += len(DENDS)
    return keys or ["none"], n


def c_dtok(depth):
    def gen():
        level = [()]
        for k in range(3):
            for p in level:
                yield ("dtok", p, k + 1)
            level = [p + (t,) for p in level for t in DTOK if viable(" ".join(p + (t,)))]
        for p in level:
            yield ("dtok", p, depth)
    return gen


# ---- every character at every place of a base and a reference; every short scheme ----
REF_T = ["{}", "{}b:x/../y", "b{}:x/../y", "b{}d:x/../y", "b:{}", "a{}/b", "{}/../b", "a/{}", "/{}/../c", "?{}", "#{}", "a?{}/../b#{}", "//{}/x/../y", "//h{}8", ";{}", "{}{}"]
BASE_T = ["s{}:/a/b?q", "{}s:/a/b?q", "s{}t://h/a/b", "http://h{}/a/b", "http://{}h", "http://h/{}/b", "http://h/a{}", "http://h/a/{}", "http://h/a?{}", "http://h/a/b#{}", "s:{}", "s:a{}b/c"]
SOME_REFS = ["", "x", "../y", "./", "?k", "#f", "/z", "//g", "x:y"]
SCHEME_CHARS = "aZ059+.-_~%@\u00e9!"


def iri_chars(top):
    return [chr(c) for c in range(0x21, top) if chr(c) not in '<>"{}|^`\\' and not 0xD800 <= c < 0xE000]


def x_places(case):
    _, kind, items = case
    keys = []
    if kind == "ref":
        for base in ("http://h/a/b?q#f", "x:a/b", ""):
            doc = "\n".join("<%s> <http://e/p%d> <http://e/o> ." % (r, i) for i, r in enumerate(items))
            keys.append(verdict(doc, base) + repr((base, items)))
            doc = "\n".join("@prefix p: <%s> .\np: <http://e/p%d> p:x ." % (r, i) for i, r in enumerate(items))
            keys.append(verdict(doc, base) + repr((base, items, 1)))
    else:
        for b in items:
            use = "\n".join("<%s> <http://e/p%d> <http://e/o> ." % (r, i) for i, r in enumerate(SOME_REFS))
            keys.append(verdict(use, b) + b)
            keys.append(verdict("BASE <%s>\n" % b + use, "http://k/l") + b)
    return keys, len(keys) * len(items)


def c_places(tier):
    def gen():
        chars = iri_chars(0x7f) + ["\u00e9", "\u2028", "\ufdd0", "\U0001f600", "\U0010ffff"]
        if tier == "thorough":
            chars = iri_chars(0x500) + chars
        for t, kind in [(t, "ref") for t in REF_T] + [(t, "base") for t in BASE_T]:
            for b in batches(iter([t.replace("{}", c) for c in chars]), 30):
                yield ("place", kind, b)
        names = ["".join(t) for k in range(1, 4 if tier == "thorough" else 3) for t in itertools.product(SCHEME_CHARS, repeat=k)]
        names += ["a" + c + d for c in SCHEME_CHARS for d in SCHEME_CHARS]
        for b in batches(iter([n + ":x/../y" for n in names]), 30):
            yield ("place", "ref", b)
        for b in batches(iter([n + ":/a/b?q" for n in names]), 30):
            yield ("place", "base", b)
    return gen


# ---- documents in which one number grows ----
def c_scale(tier):
    def gen():
        for kind in docscale.TTL_NAMES:
            for b in batches(iter(docscale.sizes(kind, tier)), 10):
                yield ("scale", kind, b)
    return gen


def x_scale(case):
    keys = []
    for n in case[2]:
        v = verdict(docscale.ttl_doc(case[1], n))
        if not v.startswith("accept"):
            raise AssertionError("family %s is not in the language: %s" % (case[1], v))
        keys.append("%s %d %s" % (case[1], n, v))
    return keys, len(keys)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("directives", c_seq(5 if deep else 4, 4 if deep else 3), x_seq, "every sequence of up to %d of %d directives and statements ending in a use, %d caller bases"
              % (5 if deep else 4, len(ITEMS), len(BASES))),
        Space("resolution", c_ref(4 if deep else 2, True), x_ref, "every base (scheme x authority x path x query x fragment) with every reference of up to %d segments" % (4 if deep else 2)),
        Space("resolution-deep", c_ref(5 if deep else 3, False), x_ref, "7 bases with every reference of up to %d segments" % (5 if deep else 3)),
        Space("places", c_places(tier), x_places, "every ASCII character allowed in an IRI (and some others) at %d places of a reference and %d of a base; short schemes over %d characters" % (len(REF_T), len(BASE_T), len(SCHEME_CHARS))),
        Space("directive-tokens", c_dtok(9 if deep else 7), x_dtok,
              "every sequence of up to %d of %d directive tokens that begins a document, with every next token, and %d ways to go on after a wrong one" % (9 if deep else 7, len(DTOK), len(DENDS))),
        Space("scale", c_scale(tier), x_scale, "%d families of documents, sizes to 40 or 70 and around powers of two" % len(docscale.TTL_NAMES)),
        Space("prefix-names", c_pnames(4 if deep else 3), x_pnames, "every prefix name up to length %d over %d characters" % (4 if deep else 3, len(NAMECHARS))),
    ]
