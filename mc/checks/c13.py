"""C13: a failed parse leaves no trace beyond what was already delivered."""
import io
import itertools

from .. import docscale, ntref, ttlref
from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..ntref import Reject
from ..rdfmodel import B, I, L, Realm, back_quad, back_triple, canon_names, isomorphic
from ..ttlref import Open
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import Dataset, Graph

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection: every edit of base documents and every failure point of a stream, on the real parsers, against reference readers"
RULE = ("every truncation and every deletion, replacement and insertion of one character of the base documents; every error of a list in every "
        "statement position; every stream line malformed or raising, for several kinds of exception; after each the supplied graph is "
        "compared with the model and a probe parse must succeed with fresh nodes")
ASSUMPTIONS = ["the supplied graph itself does not fail"]

PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}
OLD = [(I("http://e/s"), I("http://e/p"), I("http://e/o")), (B("o"), I("http://e/p"), B("o2")), (B("o"), I("http://e/q"), L("x", "en"))]
PROBE = {"nt": "_:a <http://e/p> _:b .\n_:b <http://e/q> _:a .", "nq": "_:a <http://e/p> _:b _:c .\n_:b <http://e/q> _:a .",
         "ttl": "@prefix p: <http://e/> . _:a p:p [ p:q _:a ] , <http://e/x> ."}


class Target:
    def __init__(self, quads, filled=True):
        self.quads = quads
        R = Realm()
        self.g = Dataset() if quads else Graph()
        for t in OLD if filled else []:
            self.g.add(R.quad(t + (None,)) if quads else R.triple(t))
        self.keep = R
        self.before = self.now()
        self.len = len(self.g)

    def now(self):
        return frozenset((back_quad if self.quads else back_triple)(t) for t in self.g)

    def unchanged(self, where):
        now = self.now()
        if now != self.before or len(self.g) != self.len:
            raise Mismatch("a failed parse changed the graph: " + where, sorted(map(repr, self.before)), sorted(map(repr, now - self.before)) or "statements lost")
        if self.quads:
            names = {None if g.uri is None else repr(g.uri) for g in self.g.graphs}
            if not names <= {None}:
                raise Mismatch("a failed parse left graphs in the dataset: " + where, None, sorted(map(repr, names)))
        # asked by a pattern of each kind, the graph knows the old statements and no others
        for i in range(3):
            for t in list(self.g) + [()]:
                pat = [t[i] if t and k == i else None for k in range(3)]
                got = frozenset((back_quad if self.quads else back_triple)(x) for x in self.g.match(*pat))
                want = frozenset((back_quad if self.quads else back_triple)(x) for x in self.g if not t or x[i] == t[i])
                if got != want:
                    raise Mismatch("a failed parse changed what a pattern matches: " + where, sorted(map(repr, want)), sorted(map(repr, got)))
        if not self.quads:
            for name, k in (("subjects", 0), ("predicates", 1), ("objects", 2)):
                if sorted(map(repr, getattr(self.g, name)())) != sorted({repr(t[k]) for t in self.g} if k == 1 else map(repr, {t[k] for t in self.g})):
                    raise Mismatch("a failed parse changed the graph's %s: %s" % (name, where), None, list(getattr(self.g, name)()))
        return now


NODES = {}


def probe(lang, where):
    """Later parses behave as if the failure had never happened."""
    r = attempt(PARSERS[lang].parse, PROBE[lang])
    if r[0] == "exc":
        raise Mismatch("the parse after a failed one failed: " + where, "success", repr(r[1])[:500])
    items = {(back_quad if lang == "nq" else back_triple)(t) for t in r[1]}
    want = set(ttlref.read(PROBE[lang])) if lang == "ttl" else set(ntref.read(PROBE[lang], lang == "nq"))
    if not isomorphic(want, items):
        raise Mismatch("the parse after a failed one read something else: " + where, canon_names(want), canon_names(items))


def reference(lang, doc):
    try:
        return set(ttlref.read(doc) if lang == "ttl" else ntref.read(doc, lang == "nq"))
    except Open:
        return None
    except RecursionError:
        return Reject("the one document nested too deep, which has an undeclared prefix as well")
    except Reject as e:
        return e


def one(lang, doc, how="parse", filled=True):
    """Parse into a filled graph; check the outcome entirely. -> 'ok' / 'fail' / 'open'"""
    want = reference(lang, doc) if not isinstance(doc, bytes) else decoded(lang, doc)
    if want is None:
        return "open"
    T = Target(lang == "nq", filled)
    f = PARSERS[lang].parse if how == "parse" else PARSERS[lang].parse_string
    r = attempt(f, doc, T.g)
    where = "%s %s" % (lang, ascii(doc))
    if isinstance(want, Exception):
        if r[0] == "ok":
            raise Mismatch("no exception for " + where, repr(want), canon_names(T.now() - T.before))
        T.unchanged(where)
        probe(lang, where)
        return "fail"
    if r[0] == "exc":
        raise Mismatch("document was refused: " + where, canon_names(want), repr(r[1])[:500])
    new = T.now() - T.before
    old = {tuple(x) for x in T.before}
    if not T.before <= T.now() or not isomorphic(set(want) - old, set(new) - old):
        raise Mismatch("document read as something else: " + where, canon_names(want), canon_names(new))
    return "ok"


def decoded(lang, b):
    try:
        return reference(lang, b.decode("utf-8"))
    except UnicodeDecodeError as e:
        return Reject(str(e))


# ---- edits ----
BASE = {
    "nt": ['_:a <http://e/p> "x\\n\\u00e9"@en .\n<http://e/s2> <http://e/p> _:a .\n_:b <http://e/q> "1"^^<http://e/t> .'],
    "nq": ['_:a <http://e/p> "x\\t"@en-US <http://e/g> .\n<http://e/s2> <http://e/p> _:a .\n_:b <http://e/q> "1"^^<http://e/t> _:a .'],
    "ttl": ['@prefix p: <http://e/> .\np:a p:b _:c , [ p:d "x\\n" ] ;\n a p:T .\n@base <http://b/> .\n<s> p:q ( 1 2.5 ) , "y"@en , \'\'\'z\'\'\'^^p:t .\n_:c p:r true .'],
}
EDITCH = ['"', "<", ">", ".", "\\", " ", "\n", "a", "_", ":", "@", "^", "#", ",", ";", "[", "]", "(", ")", "1", "-", "'", "%", "\0", "\u00e9", "{"]


def c_edits(tier):
    chs = range(len(EDITCH)) if tier == "thorough" else range(len(EDITCH))

    def gen():
        for lang in BASE:
            for di, doc in enumerate(BASE[lang]):
                for b in batches(range(len(doc) + 1), 20):
                    yield ("cut", lang, di, b)
                    yield ("del", lang, di, b)
                for c in chs:
                    for b in batches(range(len(doc) + 1), 60):
                        yield ("rep", lang, di, b, c)
                        yield ("ins", lang, di, b, c)
    return gen


def x_edits(case):
    kind, lang, di, pos = case[:4]
    doc = BASE[lang][di]
    keys = []
    for i in pos:
        if kind == "cut":
            d = doc[:i]
        elif kind == "del":
            d = doc[:i] + doc[i + 1:]
        elif kind == "rep":
            d = doc[:i] + EDITCH[case[4]] + doc[i + 1:]
        else:
            d = doc[:i] + EDITCH[case[4]] + doc[i:]
        v = one(lang, d, "parse" if i % 2 else "parse_string")
        keys.append((lang, v, hash(d)))
        if kind in ("cut", "del"):
            b = d.encode("utf-8")
            one(lang, b, "parse_string")
    return [repr(k) for k in keys], len(keys)


# ---- bytes that are not UTF-8 ----
def c_bytes():
    for lang in BASE:
        doc = BASE[lang][0].encode("utf-8")
        for b in batches(range(len(doc) + 1), 30):
            yield ("bytes", lang, b)


def x_bytes(case):
    _, lang, pos = case
    doc = BASE[lang][0].replace("x", "\u00e9").encode("utf-8")
    n = 0
    for i in pos:
        for bad in (b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80"):
            n += 1
            one(lang, doc[:i] + bad + doc[i:], "parse_string")
        one(lang, doc[:i], "parse_string")
    return repr(case), n


# ---- kinds of error in every place ----
GOOD = {"nt": ["_:a <http://e/p> <http://e/o> .", '<http://e/s> <http://e/q> "l"@en .', "_:b <http://e/p> _:a ."],
        "nq": ["_:a <http://e/p> <http://e/o> <http://e/g> .", '<http://e/s> <http://e/q> "l"@en .', "_:b <http://e/p> _:a _:g ."],
        "ttl": ["@prefix p: <http://e/> . p:s p:p _:a .", "_:a a <x> ; <y> [ a <z> ] .", "( 1 _:a ) a ()."]}
BADNT = ["bogus", "<http://e/s> <http://e/p> .", "<http://e/s> <http://e/p> <http://e/o>", "<http://e/s> \"p\" <http://e/o> .", "_:a _:b _:c .", '<http://e/s> <http://e/p> "x .',
         '<http://e/s> <http://e/p> "\\x" .', '<http://e/s> <http://e/p> "\\u12" .', '<http://e/s> <http://e/p> "\\U00110000" .', '<http://e/s> <http://e/p> "\\uD800" .', "<http://e/ s> <http://e/p> <http://e/o> .",
         "<http://e/\\u0020s> <http://e/p> <http://e/o> .", "<http://e/\\n> <http://e/p> <http://e/o> .", '<http://e/s> <http://e/p> "x"@ .', '<http://e/s> <http://e/p> "x"^^ .', '"x" <http://e/p> <http://e/o> .',
         "<http://e/s> <http://e/p> <http://e/o> <http://e/g> <http://e/h> .", "@prefix p: <http://e/> .", "_: <http://e/p> <http://e/o> .", "<http://e/s> <http://e/p> <http://e/o> ..",
         "<http://e/s> <http://e/p> <http://e/o> . <http://e/s> <http://e/p>", "<http://e/s <http://e/p> <http://e/o> ."]
BADTTL = BADNT[:16] + ["q:x a q:y .", "<s> q:x <o> .", "<s> a q:x .", "<s> a \"x\"^^q:t .", ":x a <y> .", "<s> a [ a q:x ] .", "<s> a ( 1 q:x ) .", "[ a q:x ] .", "<s> a <o> ; a q:x .", "<s> a <o> , q:x .",
                       "<s> a <o\\u0020> .", "@prefix q: <a\\u003Cb> .", "@base <a\\u0020b> .", "BASE <a\\u0020b>", "@prefix q <x> .", "<s> a <o> ; ; .]", "<s> a [ .", "<s> a ( .", "] .", "<s> a 1.2.3.", "<s> a <o> . }", "@foo .",
                       "<s> a true1 .", "<s> a tru .", "a a a .", "<s> 1 2 .", "[] .", "() .", "<s> a '''x .", "@prefix p: <http://other/> . q:x p:y 1 .", "p:s p:p p:%zz .", "p:\\x p:p 1 .", "<s> a " + "[ a " * 400 + "q:x" + " ]" * 400 + " ."]


def c_kinds():
    for lang in ("nt", "nq", "ttl"):
        bad = BADTTL if lang == "ttl" else BADNT
        for bi in range(len(bad)):
            for npre in range(4):
                yield ("kind", lang, bi, npre)


def x_kinds(case):
    _, lang, bi, npre = case
    bad = (BADTTL if lang == "ttl" else BADNT)[bi]
    n = 0
    for order in itertools.permutations(range(3), npre):
        if lang == "ttl" and any("p:" in GOOD["ttl"][i] for i in order) and order[0] != 0 and 0 in order:
            pass
        for npost in (0, 2):
            doc = "\n".join([GOOD[lang][i] for i in order] + [bad] + GOOD[lang][:npost])
            one(lang, doc)
            one(lang, doc, "parse_string", False)
            n += 2
    return repr(case), n


# ---- streams ----
class Err(Exception):
    pass


ERRS = {"OSError": OSError("x"), "ValueError": ValueError("x"), "UnicodeDecodeError": UnicodeDecodeError("utf-8", b"\xff", 0, 1, "x"), "custom": Err("x"), "KeyError": KeyError("x"), "AttributeError": AttributeError("x"),
        "EOFError": EOFError("x"), "TypeError": TypeError("x"), "RuntimeError": RuntimeError("x"), "IndexError": IndexError("x"), "KeyboardInterrupt": KeyboardInterrupt("x"), "SystemExit": SystemExit("x"), "GeneratorExit": GeneratorExit("x")}


class Stream:
    def __init__(self, items):
        self.items = list(items)

    def readline(self, *a):
        if not self.items:
            return ""
        x = self.items.pop(0)
        if isinstance(x, BaseException):
            raise x
        return x

    def read(self, *a):
        out = []
        while True:
            x = self.readline()
            if not x:
                return "".join(out)
            out.append(x)

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x


LINES = {"nt": ["_:a <http://e/p> <http://e/o> .\n", "\n", '_:b <http://e/q> "l"@en .\n', "# c\n", "_:b <http://e/p> _:a .\r\n", "<http://e/s> <http://e/p> <http://e/o> ."],
         "nq": ["_:a <http://e/p> <http://e/o> <http://e/g> .\n", "\n", '_:b <http://e/q> "l"@en .\n', "# c\n", "_:b <http://e/p> _:a _:g .\r\n", "<http://e/s> <http://e/p> <http://e/o> ."],
         "ttl": ["@prefix p: <http://e/> .\n", "p:s p:p _:a .\n", "\n", "_:a a [ a p:T ],\n", "( 1 2 ) .\n", "p:x a p:y ."]}


def c_streams(tier):
    def gen():
        for lang in LINES:
            n = len(LINES[lang])
            subsets = [tuple(i for i in range(n) if m >> i & 1) for m in range(2 ** n)]
            for sub in subsets:
                for at in range(len(sub) + 1):
                    for kind in list(ERRS) + ["bad%d" % i for i in (range(len(BADNT)) if tier == "thorough" or len(sub) <= 2 else range(0, len(BADNT), 5))]:
                        yield ("stream", lang, sub, at, kind)
    return gen


def x_streams(case):
    _, lang, sub, at, kind = case
    lines = [LINES[lang][i] for i in sub]
    lines = [l if l.endswith("\n") or i == len(lines) - 1 and not at == len(lines) else l + "\n" for i, l in enumerate(lines)]
    err = None
    if kind.startswith("bad"):
        ev = BADNT[int(kind[3:])] + "\n"
        if lang != "ttl" and not isinstance(reference(lang, ev), Exception):
            return "n/a", 0
        if lang == "ttl" and not isinstance(reference(lang, "".join(lines[:at] + [ev] + lines[at:])), Exception):
            return "n/a", 0
    else:
        err = type(ERRS[kind])(*ERRS[kind].args)
        ev = err
    s = Stream(lines[:at] + [ev] + lines[at:])
    T = Target(lang == "nq")
    where = "%s stream %r" % (lang, lines[:at] + [ev] + lines[at:])
    try:
        PARSERS[lang].parse(s, T.g)
        got = None
    except BaseException as e:
        if type(e).__name__ in ("Hang", "Mismatch"):
            raise
        got = e
    if got is None:
        raise Mismatch("the error did not reach the caller: " + where, kind, "normal return")
    if err is not None and got is not err:
        raise Mismatch("another error reached the caller: " + where, repr(err), repr(got))
    if lang == "ttl":
        T.unchanged(where)
    else:
        want = set(ntref.read("".join(lines[:at]), lang == "nq"))
        now = T.now()
        old = set(T.before)
        if not T.before <= now or not isomorphic(want - old, set(now) - old):
            raise Mismatch("what the graph gained before the error: " + where, canon_names(want - old), canon_names(set(now) - old))
        if len(T.g) != len(now):
            raise Mismatch("length of the graph: " + where, len(now), len(T.g))
    probe(lang, where)
    if lang != "nt":
        probe("nt", where)
    return repr(case), 2


# ---- errors at the end of documents of growing size ----
LATE = {"nt": ["bogus", '<http://e/s> <http://e/p> "\\x" .', "<http://e/s> <http://e/p> ."],
        "nq": ["bogus", '<http://e/s> <http://e/p> "\\x" .', "<http://e/s> <http://e/p> <http://e/o> <http://e/g> <http://e/h> ."],
        "ttl": ["bogus", "<s> a q:x .", "<s> a <o\\u0020> .", "<s> a [ a 1 ."]}


def c_late(tier):
    th = tier == "thorough"

    def gen():
        for lang in LATE:
            for kind in (docscale.TTL_KINDS if lang == "ttl" else docscale.LINE_KINDS):
                ns = docscale.sizes(kind, tier)
                if not th:
                    ns = [n for n in ns if n <= 8 or n > 60 and n % 2 == 0]
                for b in batches(iter(ns), 6):
                    yield ("late", lang, kind, b)
            # as many statements, as many characters as it takes to pass a limit
            for n in (1000, 1024, 1500, 2000) + ((3000, 5000) if th else ()):
                yield ("late", lang, "labels" if lang == "ttl" else "lines", [n])
            for n in (8192, 16384, 32768, 65536, 131072) + ((1 << 20,) if th and lang != "ttl" else ()):
                yield ("late", lang, "comment length", [n // 6])
    return gen


def x_late(case):
    _, lang, kind, ns = case
    keys = []
    for n in ns:
        good = docscale.ttl_doc(kind, n) if lang == "ttl" else docscale.lines_doc(kind, n, lang == "nq")
        want = None if lang == "ttl" else set(ntref.read(good, lang == "nq"))
        for bi, bad in enumerate(LATE[lang] if n < 600 else LATE[lang][:2]):
            where = "%s: %s of size %d, then %s" % (lang, kind, n, bad)
            doc = good + "\n" + bad
            for how in ("parse", "bytes", "stream")[:3 if n < 600 else 1 + bi % 2 * 2]:
                T = Target(lang == "nq")
                p = PARSERS[lang]
                r = attempt(p.parse, doc, T.g) if how == "parse" else attempt(p.parse_string, doc.encode(), T.g) if how == "bytes" else attempt(p.parse, io.StringIO(doc, newline=""), T.g)
                if r[0] == "ok":
                    raise Mismatch("no exception for " + where, bad, None)
                if how != "stream" or lang == "ttl":
                    T.unchanged(where)
                else:
                    got = T.now() - T.before
                    new = want - {t for t in T.before if t[0][0] != "B"}
                    if not T.before <= T.now() or len(got) != len(new) or (n < 200 and not isomorphic(new, set(got))):
                        raise Mismatch("what the graph gained before the error: " + where, len(new), len(got))
                keys.append("%s %s %d %d %s" % (lang, kind, n, bi, how))
        probe(lang, where)
    return keys, len(keys)


# ---- JSON-LD ----
JBAD = [{"@id": "_:a", "@type": 5}, {"@id": 5}, {"@context": {"x": 5}}, {"@context": {"@vocab": 5}, "a": 1}, [{"http://e/p": {"@value": "x", "@language": 5}}], {"http://e/p": {"@value": "x", "@type": "t", "@language": "en"}},
        {"@graph": 5, "@id": {}}, {"@list": [], "@set": []}, {"@context": "http://unreachable.invalid/x"}]
JPROBE = {"@id": "_:a", "http://e/p": {"@id": "_:b"}}


def c_json():
    for i in range(len(JBAD)):
        for pre in range(3):
            yield ("json", i, pre)


def x_json(case):
    _, i, pre = case
    good = [{"@id": "_:a", "http://e/p": {"@id": "http://e/x"}}, {"@id": "http://e/s", "http://e/p": ["x", 1]}][:pre]
    bad = JBAD[i]
    doc = good + [bad]
    if isinstance(bad, dict) and "@context" in bad and not isinstance(bad["@context"], dict):
        # never touch the network: a loader that fails at once
        opts = {"documentLoader": _refuse}
    else:
        opts = {"documentLoader": _refuse}
    T = Target(True)
    r = attempt(jsonld_parser.parse_json, doc, T.g, opts)
    if r[0] == "exc":
        T.unchanged("JSON-LD %r" % (doc,))
    r = attempt(jsonld_parser.parse_json, JPROBE)
    if r[0] == "exc" or not isomorphic({back_quad(q) for q in r[1]}, {(B("a"), I("http://e/p"), B("b"), None)}):
        raise Mismatch("the JSON-LD parse after a failed one", "one statement", repr(r))
    return repr(case), 2


def _refuse(url, options=None):
    raise ValueError("no network")


def spaces(tier):
    return [
        Space("kinds of error", c_kinds, x_kinds, "22 errors (N-Triples, N-Quads) and 49 (Turtle) before, between and after up to 3 good statements in every order"),
        Space("edits", c_edits(tier), x_edits, "every truncation, deletion, replacement and insertion of %d characters at every position of 3 documents" % len(EDITCH)),
        Space("bytes", c_bytes, x_bytes, "4 invalid byte sequences and a cut at every byte"),
        Space("streams", c_streams(tier), x_streams, "all subsequences of 6 lines, a malformed line or one of 13 exceptions at every read"),
        Space("scale", c_late(tier), x_late, "an error after documents of 13 (Turtle: %d) families of every size, read as string, bytes and stream" % len(docscale.TTL_KINDS)),
        Space("json-ld", c_json, x_json, "9 bad documents after 0 to 2 good nodes"),
    ]
