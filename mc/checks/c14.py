"""C14: CURIE abbreviation and resolution are inverse."""
import collections
import itertools

from ..chars import batches, strings
from ..core import Mismatch, Space, attempt
from pymantic.primitives import NamedNode, PrefixMap, Profile, parse_curie, parse_curies, to_curie
from pymantic.rdf import Resource

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive prefix maps x IRIs x CURIE texts, real functions against a reference model"
RULE = ("all prefix maps of up to 3 bindings x all IRIs made of namespaces and local parts: shrink then resolve; all texts over CURIE "
        "tokens up to a length: resolve against the definition")
ASSUMPTIONS = ["prefix names contain neither colon nor brackets", "a name without colon that is itself a bound prefix while no default prefix is set is left open",
               "of two prefixes for one namespace either may be used"]

# the registered schemes as of the pinned commit
SCHEMES = {
    "aaa", "aaas", "acap", "cap", "cid", "crid", "data", "dav", "dict", "dns", "fax", "file", "ftp", "go", "gopher", "h323", "http", "https", "icap",
    "im", "imap", "info", "ipp", "iris", "iris.beep", "iris.xpc", "iris.xpcs", "iris.lwz", "ldap", "mailto", "mid", "modem", "msrp", "msrps", "mtqp",
    "mupdate", "news", "nfs", "nntp", "opaquelocktoken", "pop", "pres", "rtsp", "service", "shttp", "sip", "sips", "snmp", "soap.beep", "soap.beeps",
    "tag", "tel", "telnet", "tftp", "thismessage", "tip", "tv", "urn", "vemmi", "xmlrpc.beep", "xmlrpc.beeps", "xmpp", "z39.50r", "z39.50s", "afs",
    "dtn", "iax", "mailserver", "pack", "tn3270", "prospero", "snews", "videotex", "wais"
}

NAMES = ["", "a", "b", "http", "tag", "rdf", "A", "\u00e9", "e.f"]
NSS = ["http://e/", "http://e/a", "http://e/a#", "http://e", "urn:", "", "tag:x,", "http://e/\u00e9/", "a", "http://e/http://e/", "b:"]
LOCALS = ["", "a", "b:c", ":", "/", "#", "]", "[", "a]", "[a", "http://e/", "a#", "a#b", "\u00e9/x", "%20", " ", "tag:x,y", "\n", "x" * 50]
IRIS = list(dict.fromkeys([n + l for n in NSS for l in LOCALS]))


def model_shrink(iri, m):
    """set of acceptable results"""
    best = -1
    out = set()
    for p, n in m.items():
        if iri[:len(n)] == n:
            if len(n) > best:
                best, out = len(n), set()
            if len(n) == best:
                out.add((p, iri[len(n):]))
    return out


OPEN = object()


def model_resolve(text, m):
    """IRI text, ValueError or OPEN"""
    bracket = len(text) >= 2 and text[0] == "[" and text[-1] == "]"
    if bracket:
        text = text[1:-1]
    k = text.find(":")
    if k < 0:
        if "" in m:
            return m[""] + text
        return OPEN if text in m else ValueError
    p, ref = text[:k], text[k + 1:]
    if not bracket and p in SCHEMES:
        return text
    return m[p] + ref if p in m else ValueError


def resolve_checked(f, text, m, what):
    want = model_resolve(text, m)
    if want is OPEN:
        return
    r = attempt(f, text)
    if want is ValueError:
        if r[0] == "ok" or not isinstance(r[1], ValueError):
            raise Mismatch("%s(%r) with %r" % (what, text, m), "ValueError", repr(r[1]))
    elif r[0] == "exc" or type(r[1]) is not NamedNode or str.__ne__(r[1], want):
        raise Mismatch("%s(%r) with %r" % (what, text, m), "NamedNode(%s)" % ascii(want), repr(r[1]))


def maps(tier):
    binds = [(p, n) for p in range(len(NAMES)) for n in range(len(NSS))]
    yield ()
    for x in binds:
        yield (x,)
    small = [(p, n) for p in (0, 1, 3, 4) for n in (0, 1, 2, 3, 5)]
    for x, y in itertools.permutations(binds if tier == "thorough" else binds, 2):
        if x[0] != y[0] and (tier == "thorough" or (x[0] in (0, 1, 2, 3) and y[0] in (0, 1, 4))):
            yield (x, y)
    for t in itertools.permutations(small, 3):
        if len({x[0] for x in t}) == 3 and (tier == "thorough" or t[0][0] < t[1][0]):
            yield t


def c_maps(tier):
    def gen():
        for b in batches(maps(tier), 25):
            yield ("maps", b)
    return gen


def x_maps(case):
    keys, n = [], 0
    for k, mm in enumerate(case[1]):
        m = collections.OrderedDict((NAMES[p], NSS[ns]) for p, ns in mm)
        pm = PrefixMap(m)
        for iri in IRIS:
            n += 1
            want = model_shrink(iri, m)
            got = pm.shrink(NamedNode(iri))
            plain = to_curie(iri, dict(m))
            expl = to_curie(iri, pm, explicit=True)
            if not want:
                for x in (got, plain, expl):
                    if x != iri:
                        raise Mismatch("shrink(%r) with %r" % (iri, dict(m)), "unchanged", x)
                continue
            ok = {p + ":" + l for p, l in want}
            if got not in ok or plain not in ok or expl not in {"[%s]" % x for x in ok}:
                raise Mismatch("shrink(%r) with %r" % (iri, dict(m)), ok, (got, plain, expl))
            if got[:got.index(":")] not in SCHEMES and not (got[0] == "[" and got[-1] == "]"):
                back = pm.resolve(got)
                if back != iri or type(back) is not NamedNode:
                    raise Mismatch("resolve(shrink(%r)) via %r with %r" % (iri, got, dict(m)), iri, back)
            back = parse_curie(expl, pm)
            if back != iri:
                raise Mismatch("resolving the bracketed form %r with %r" % (expl, dict(m)), iri, back)
            sep = to_curie(iri, m, seperator="-")
            if sep not in {p + "-" + l for p, l in want}:
                raise Mismatch("to_curie(%r, seperator='-') with %r" % (iri, dict(m)), want, sep)
        if list(pm.items()) != list(m.items()):
            raise Mismatch("shrinking or resolving changed the map", m, pm)
        keys.append(repr(mm))
    return keys, n


TOKENS = ["a", "b", "http", "tag", "rdf", "x", ":", "[", "]", "/", "-"]
RMAPS = [{}, {"": "http://d/"}, {"a": "http://a/"}, {"a": "http://a/", "": "http://d/"}, {"http": "http://h/", "tag": "t:", "": "http://d/"}, {"http": "http://h/", "tag": "t:"},
         {"a": "", "b": "http://a/"}, {"rdf": "http://mine/", "x": "x:"}]


def c_texts(n):
    def gen():
        for b in batches(itertools.chain.from_iterable(itertools.product(range(len(TOKENS)), repeat=k) for k in range(n + 1)), 500):
            yield ("texts", b)
    return gen


def x_texts(case):
    n = 0
    for seq in case[1]:
        text = "".join(TOKENS[i] for i in seq)
        for m in RMAPS:
            pm = PrefixMap(m)
            resolve_checked(lambda t: parse_curie(t, pm), text, m, "parse_curie")
            resolve_checked(pm.resolve, text, m, "PrefixMap.resolve")
            resolve_checked(lambda t: list(parse_curies([t], pm))[0], text, m, "parse_curies")
            n += 1
    return [repr(s) for s in case[1][:20]], n


# ---- many prefixes, long names ----
def c_scale(tier):
    def gen():
        for kind in ("many", "nested", "name", "local"):
            for n in list(range(1, 40)) + [64, 100, 128, 255, 256, 257] + ([500, 1000, 1025] if tier == "thorough" or kind in ("name", "local") else []):
                yield ("scale", kind, n)
    return gen


def x_scale(case):
    _, kind, n = case
    if kind == "many":
        binds = [("p%d" % i, "http://e/%d/" % i) for i in range(n)]
        iris = ["http://e/%d/x" % i for i in range(n)] + ["http://e/%d" % n, "http://e/%d/" % (n - 1)]
    elif kind == "nested":
        binds = [("p%d" % i, "http://e/" + "a" * i) for i in range(n)]
        iris = ["http://e/" + "a" * i + t for i in (0, 1, n // 2, n - 2, n - 1, n) if i >= 0 for t in ("", "b")]
    elif kind == "name":
        binds = [("p" * n, "http://e/"), ("p" * (n + 1), "http://e/x")]
        iris = ["http://e/", "http://e/xy", "http://e/yx"]
    else:
        binds = [("p", "http://e/"), ("q", "http://e/" + "a" * n)]
        iris = ["http://e/" + "a:/" * n, "http://e/" + "a" * (n - 1), "http://e/" + "a" * n, "http://e/" + "a" * (n + 1)]
    for bs in (binds, binds[::-1], binds[n // 2:] + binds[:n // 2]):
        m = dict(bs)
        pm = PrefixMap()
        for p, ns in bs:
            pm[p] = ns
        for iri in iris:
            want = model_shrink(iri, m)
            got, expl = pm.shrink(NamedNode(iri)), to_curie(iri, pm, explicit=True)
            ok = {p + ":" + l for p, l in want} or {iri}
            if got not in ok or expl not in ({"[%s]" % x for x in ok} if want else ok):
                raise Mismatch("shrink(%r) with %d bindings" % (iri, len(m)), ok, (got, expl))
            if want:
                for t in (got, expl):
                    if pm.resolve(t) != iri:
                        raise Mismatch("resolve(%r) with %d bindings" % (t, len(m)), iri, pm.resolve(t))
        resolve_checked(pm.resolve, "none:x", m, "PrefixMap.resolve")
    return repr(case), 3 * len(iris)


def c_schemes():
    for s in sorted(SCHEMES) + ["HTTP", "foo", "Http", "httpx", "htt", "iris.", "x-y", "ni", ""]:
        yield ("scheme", s)


def x_schemes(case):
    s = case[1]
    n = 0
    for m in ({}, {s: "http://own/"}, {"": "http://d/"}, {s: "http://own/", "": "http://d/"}):
        pm = PrefixMap(m)
        if s in ("HTTP", "Http"):
            continue  # schemes are case-insensitive by RFC 3986; the code compares case-sensitively: open
        for ref in ("", "x", "//e/x", ":", "//e/a:b#c", "?q", "[x]", "a b", "//\u00e9/"):
            for t in (s + ":" + ref, "[" + s + ":" + ref + "]", s):
                resolve_checked(pm.resolve, t, m, "PrefixMap.resolve")
                n += 1
    return s, n


# ---- a map asked, changed (with nothing asked in between) and asked again ----
CSTARTS = [{}, {"a": "http://e/"}, {"a": "http://e/", "e": "http://f/"}, {"": "http://e/", "a": "http://e/a"}, {"a": "http://e/", "e": "http://e/a", "b": "http://f/"}]
CNS = ["http://e/", "http://e/a", "http://f/"]
CNAMES = ["a", "e", ""]
COPS = [("set", p, ns) for p in CNAMES for ns in CNS] + [("del", p) for p in CNAMES] + [("pop", "a"), ("clear",), ("update", "a", "http://f/"), ("popitem",), ("setdefault", "e", "http://e/a")]
CASKS = ["http://e/ab", "http://e/x", "http://f/ab", "http://g/"]
CTEXTS = ["a:x", "e:x", ":x", "[a:x]", "x", "b:x"]


def ask_map(pm, m, k, where):
    """ask the kth question (both directions), or all of them"""
    n = 0
    for iri in CASKS if k is None else CASKS[k:k + 1]:
        want = model_shrink(iri, m)
        ok = {p + ":" + l for p, l in want} or {iri}
        got, expl = to_curie(iri, pm), to_curie(iri, pm, explicit=True)
        if got not in ok or expl not in ({"[%s]" % x for x in ok} if want else ok):
            raise Mismatch("to_curie(%r) %s, now %r" % (iri, where, m), ok, (got, expl))
        if isinstance(pm, PrefixMap):
            got = pm.shrink(NamedNode(iri))
            if got not in ok:
                raise Mismatch("shrink(%r) %s, now %r" % (iri, where, m), ok, got)
        n += 1
    for t in CTEXTS if k is None else CTEXTS[k:k + 1]:
        resolve_checked(lambda z: parse_curie(z, pm), t, m, "parse_curie " + where)
        resolve_checked(lambda z: list(parse_curies([z], pm))[0], t, m, "parse_curies " + where)
        if isinstance(pm, PrefixMap):
            resolve_checked(pm.resolve, t, m, "PrefixMap.resolve " + where)
        n += 1
    return n


def change_map(pm, m, op):
    """apply op to the real map and to the model alike"""
    for d in (pm, m):
        if op[0] == "set":
            d[op[1]] = op[2]
        elif op[0] in ("del", "pop"):
            if op[1] in d:
                if op[0] == "del":
                    del d[op[1]]
                else:
                    d.pop(op[1])
        elif op[0] == "clear":
            d.clear()
        elif op[0] == "update":
            d.update({op[1]: op[2]})
        elif op[0] == "setdefault":
            d.setdefault(op[1], op[2])
        elif d:
            d.popitem()


def x_changed(case):
    _, kind, start, first = case
    n = 0
    for second, third in itertools.product(COPS, [None] + COPS[::4]):
        for k in (None, 0, 1, 2, 3):
            m = dict(CSTARTS[start])
            prof = None
            if kind == "Profile":
                prof = Profile()
                pm = prof.prefixes
                pm.clear()
                for p, ns in m.items():
                    prof.setPrefix(p, ns)
                m = dict(pm)
            else:
                pm = {"dict": dict, "OrderedDict": collections.OrderedDict, "PrefixMap": PrefixMap}[kind](m)
            ask_map(pm, m, k, "first")
            ops = [COPS[first], second] + ([third] if third else [])
            for op in ops:
                change_map(pm, m, op)
            if k is not None:
                n += ask_map(pm, m, k, "after %r" % (ops,))
            n += ask_map(pm, m, None, "after %r" % (ops,))
    return repr(case), n


def c_changed(tier):
    def gen():
        for kind in ("dict", "OrderedDict", "PrefixMap", "Profile"):
            for start in range(len(CSTARTS)):
                for first in range(len(COPS)):
                    yield ("changed", kind, start, first)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("maps", c_maps("thorough"), x_maps, "all maps of <= 2 bindings (9 names x 11 namespaces) and of 3 (4 names x 5 namespaces), in every order x %d IRIs" % len(IRIS)),
        Space("texts", c_texts(6 if th else 5), x_texts, "all texts of <= %d of %d tokens x %d maps" % (6 if th else 5, len(TOKENS), len(RMAPS))),
        Space("changed maps", c_changed(tier), x_changed, "dict, OrderedDict, PrefixMap and a profile's prefixes from %d starts: a question, 2 or 3 of %d changes with nothing asked between, the question again, then all" % (len(CSTARTS), len(COPS))),
        Space("scale", c_scale(tier), x_scale, "up to 257 bindings (separate or nested namespaces), names and locals up to 1025 characters, three orders"),
        Space("schemes", c_schemes, x_schemes, "every registered scheme and some that are not"),
    ]
