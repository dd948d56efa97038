"""C05: Turtle output reads back as the same graph."""
import io
import itertools

from .. import scale
from ..ntcheck import ESCAPELIKE
from ..chars import CORE, SPECIAL, batches, codepoints, strings
from ..core import Mismatch, Space, attempt
from ..ntref import IRI_BAD, Reject
from ..rdfmodel import (B, I, L, RDF, XSD, Realm, back_triple, canon_names, isomorphic, normset, shape)
from ..ttlref import Open, read, resolve
from pymantic.parsers import turtle_parser
from pymantic.primitives import Graph, PrefixMap, Profile
from pymantic.serializers import serialize_turtle

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive round trips of the real serializer and parser against a reference Turtle reader"
RULE = ("every graph, prefix map and base in the bounds is written by serialize_turtle; the text is decoded by an independent reader "
        "written from the W3C grammar and by the real parser, and both must be isomorphic to the graph")
ASSUMPTIONS = ["IRIs, prefixes and language tags that Turtle can express; IRIs and namespaces are absolute",
               "the rdf prefix is predeclared, as pymantic's reader has it", "lone surrogates are not Unicode text"]

S, P, Q, O = I("http://e/s"), I("http://e/p"), I("http://e/q"), I("http://e/o")
FIRST, REST, NIL = I(RDF + "first"), I(RDF + "rest"), I(RDF + "nil")
PREDEF = "@prefix rdf: <%s> .\n" % RDF


def names():
    i = 0
    while True:
        yield "_:x.%d-" % i
        i += 1


GENS = {None: {}, "names": {"bnode_name_generator": names}}


def roundtrip(stmts, prefixes=None, base=None, gen=None, graph=None):
    R, g = graph or (Realm(), Graph())
    stmts = list(dict.fromkeys(stmts))
    for s in () if graph else stmts:
        g.add(R.triple(s))
    kw = dict(GENS[gen])
    if base is not None:
        kw["base"] = base
    if prefixes is not None:
        kw["profile"] = prefixes if isinstance(prefixes, Profile) else Profile(PrefixMap(prefixes))
    f = io.StringIO()
    r = attempt(serialize_turtle, g, f, **kw)
    if r[0] == "exc":
        raise Mismatch("writing failed: %s prefixes=%r base=%r" % (ascii(stmts)[:1500], prefixes, base), "Turtle text", repr(r[1]))
    text = f.getvalue()
    want = normset(stmts)
    try:
        ref = normset(read(PREDEF + text))
    except (Reject, Open) as e:
        raise Mismatch("output is not in the grammar (%s: %s)" % (type(e).__name__, e), canon_names(want), ascii(text))
    if not isomorphic(want, ref):
        raise Mismatch("the output says something else (reference reader)\n" + ascii(text), canon_names(want - ref) or canon_names(want), canon_names(ref - want) or canon_names(ref))
    r = attempt(turtle_parser.parse, text)
    if r[0] == "exc":
        raise Mismatch("the output is refused by the Turtle parser\n" + ascii(text), canon_names(want), repr(r[1])[:800])
    got = normset(back_triple(t) for t in r[1])
    if not isomorphic(want, got):
        raise Mismatch("the output reads back as something else\n" + ascii(text), canon_names(want - got) or canon_names(want), canon_names(got - want) or canon_names(got))
    if len(g) != len(stmts):
        raise Mismatch("writing changed the graph", len(stmts), len(g))
    return shape(want)


# ---- small graphs ----
SUBS = [S, B("x"), B("y")]
PREDS = [P, Q, I(RDF + "type")]
OBJS = [O, S, B("x"), B("y"), L("v"), L("v", "en"), L("1", None, XSD + "integer"), NIL]
UNIV = [(s, p, o) for s in SUBS for p in PREDS for o in OBJS]
PROFS = [None, (("", "http://e/"),), (("e", "http://e/"), ("s", "http://e/s"))]


def c_graphs(kmax):
    def gen():
        for k in range(kmax + 1):
            confs = [(p, b, n) for p in range(3) for b in (None, "http://e/") for n in (None, "names")] if k < 2 else \
                [(1, None, None), (2, "http://e/", "names")] if k == 2 else [(1, None, None)]
            for conf in confs:
                for b in batches(itertools.combinations(range(len(UNIV)), k), 100):
                    yield ("graph", b, conf)
    return gen


def x_graphs(case):
    _, batch, (pi, base, gen) = case
    keys = [roundtrip([UNIV[i] for i in ix], dict(PROFS[pi]) if PROFS[pi] is not None else None, base, gen) for ix in batch]
    return keys, len(keys)


# ---- list heaps ----
def cellname(i, named):
    return I("http://e/c%d" % i) if named else B("c%d" % i)


def heap(cells, refs, named=-1):
    n = len(cells)
    nm = [cellname(i, i == named) for i in range(n)]

    def term(x):
        return nm[x] if isinstance(x, int) else {"L": L("v"), "M": L("v", "fr"), "I": O, "N": NIL, "D": L("7", None, XSD + "integer")}[x]
    out = []
    for i, (first, rest, extra) in enumerate(cells):
        out += [(nm[i], FIRST, term(x)) for x in first] + [(nm[i], REST, term(x)) for x in rest]
        if extra == 1:
            out.append((nm[i], P, L("extra")))
        if extra == 2:
            out.append((nm[i], I(RDF + "type"), I(RDF + "List")))
    for i, r in enumerate(refs):
        if r & 1:
            out.append((S, P, nm[i]))
        if r & 2:
            out.append((B("o"), Q, nm[i]))
    return out


def c_heaps(tier):
    def gen():
        # one cell
        f1 = [(), ("L",), ("I",), ("M",), ("N",), (0,), ("L", "I"), ("L", 0)]
        r1 = [(), ("N",), ("I",), ("L",), (0,), ("N", 0), ("N", "I")]
        for c in itertools.product(f1, r1, (0, 1, 2)):
            for ref in range(4):
                for named in (-1, 0):
                    yield ("heap", (((c,), (ref,), named),))
        # two cells
        f2 = [("L",), ("I",), ("N",), (0,), (1,), ("L", 1), ()]
        r2 = [("N",), ("I",), (0,), (1,), ("N", 0), ()]
        cells = list(itertools.product(f2, r2, (0, 1)))

        def two():
            for a in cells:
                for b in (cells if tier == "thorough" else cells[::1]):
                    for refs in ((1, 0), (1, 1), (3, 0), (0, 0)) if tier == "thorough" else ((1, 0), (3, 1)):
                        yield ((a, b), refs, -1)
                    if tier == "thorough":
                        yield ((a, b), (1, 1), 1)
        for b in batches(two(), 50):
            yield ("heap", b)
        # three clean cells, pointing anywhere
        f3 = [("L",), (0,), (1,), (2,)] + ([("D",), ("N",)] if tier == "thorough" else [])
        r3 = [("N",), (0,), (1,), (2,)]

        def three():
            c3 = list(itertools.product(f3, r3, (0,)))
            for t in itertools.product(c3, repeat=3):
                for refs in ((1, 0, 0), (1, 1, 0), (0, 0, 0)) if tier == "thorough" else ((1, 0, 0), (0, 0, 0)):
                    yield (t, refs, -1)
        for b in batches(three(), 50):
            yield ("heap", b)
        # long and nested lists
        for n in (0, 1, 2, 3, 10, 50, 300):
            yield ("long", n)
        for n in (1, 2, 3, 5, 10, 30):
            yield ("deep", n)
    return gen


def x_heaps(case):
    if case[0] == "heap":
        keys = [roundtrip(heap(c, r, nm), {"e": "http://e/"}) for c, r, nm in case[1]]
        return keys, len(keys)
    n = case[1]
    if case[0] == "long":
        st = [(S, P, B("0") if n else NIL)]
        for i in range(n):
            st += [(B(str(i)), FIRST, [L("v%d" % i), O, B("other%d" % i), L("1", None, XSD + "integer")][i % 4]),
                   (B(str(i)), REST, B(str(i + 1)) if i + 1 < n else NIL)]
    else:
        st = [(S, P, B("0"))]
        for i in range(n):
            st += [(B(str(i)), FIRST, B(str(i + 1)) if i + 1 < n else L("v")), (B(str(i)), REST, B("t%d" % i)),
                   (B("t%d" % i), FIRST, O), (B("t%d" % i), REST, NIL)]
    return roundtrip(st), 1


# ---- literals ----
DTS = [XSD + x for x in ("integer", "decimal", "double", "boolean", "string", "float", "int", "date")] + \
    [RDF + "langString", RDF + "XMLLiteral", "http://e/dt", "http://e/d/t", "urn:x:y", "http://e/"]
TAGS = ["en", "fr", "en-US", "x-y1-z2", "EN", "a"]


def lits(strs, mode):
    if mode == "plain":
        return [L(s) for s in strs] + [L(s, "en") for s in strs] + [L(s, None, "http://e/dt") for s in strs]
    if mode == "num":
        return [L(s, None, d) for s in strs for d in DTS[:7]]
    if mode == "dt":
        return [L(s, None, d) for s in strs for d in DTS] + [L(s, t) for s in strs for t in TAGS] + [L(s) for s in strs]


def edits(forms, alpha):
    """every form with one character replaced or inserted anywhere"""
    seen = set()
    for f in forms:
        for i in range(len(f) + 1):
            for c in alpha:
                for s in (f[:i] + c + f[i:], f[:i] + c + f[i + 1:]):
                    if s not in seen:
                        seen.add(s)
                        yield s


def c_literals(tier):
    def gen():
        for b in batches(strings(SPECIAL, 2), 150):
            yield ("lit", "plain", b)
        for b in batches(strings(ESCAPELIKE, 4 if tier != "thorough" else 5), 300):
            yield ("lit", "plain", b)
        for b in batches(strings(CORE, 3), 300):
            yield ("lit", "plain", b)
        if tier == "thorough":
            for b in batches(strings(CORE, 4), 400):
                yield ("lit", "plain", b)
            for b in batches((chr(c) for c in codepoints()), 800):
                yield ("lit", "plain", b)
        else:
            for b in batches((chr(c) for c in itertools.chain(range(0xD800), range(0xE000, 0x10000))), 800):
                yield ("lit", "plain", b)
        for b in batches(strings("+-.eE01 ", 5 if tier == "thorough" else 4), 150):
            yield ("lit", "num", b)
        for b in batches(edits(("1", "-12", "1.5", "+.5", "1e5", "-1.5e-2", "true", "false"), [chr(c) for c in range(0x80)] + list("\u00b2\u0660\u0661\u2212\uff10\uff11\uff0e\u0430\u0435\U0001d7ce")), 60):
            yield ("lit", "num", b)
        for b in batches(("true", "false", "True", "TRUE", "FALSE", "tru", "true ", " true", "1", "0", "INF", "NaN", "-INF", "a", "01", "+1", "1.", ".", "1.e1", ".5e0", "1e5", "\u0661",
                          "1\n", "true\n", "1.5\n", "1e5\n", "-", "+", "0x1", "1_000", "1.5.5", "--1", "1e", "e1", "1 # x", "000000000000000000000000000001",
                          "\\", '"', "\\u0041", '""', "'''", "a\\", "", "\uff11"), 8):
            yield ("lit", "dt", b)
    return gen


def x_literals(case):
    _, mode, strs = case
    st = [(S, P, x) for x in lits(strs, mode)]
    roundtrip(st, {"e": "http://e/"} if mode == "dt" else None)
    return [mode + "|" + s for s in strs[:3]], len(st)


# ---- IRIs: local names, namespaces ----
NS = ["http://e/", "http://e/#", "urn:x:", "http://e/a"]
LOCALCH = [c for c in SPECIAL + list("!$&'()*+/=?~[]|1e\u00b7\u0300\u203f\u2070\u037e\u00d7") if c not in IRI_BAD]


def legal(iri):
    return not any(c in IRI_BAD for c in iri)


def c_locals(tier):
    def gen():
        alpha = list(dict.fromkeys(LOCALCH))
        for b in batches(strings(alpha, 2), 200):
            yield ("local", b)
        core = [":", ".", "-", "_", "a", "1", "%", "#", "/", "\u00b7", "\u00e9", ",", "e"]
        for b in batches(strings(core, 4 if tier == "thorough" else 3), 200):
            yield ("local", b)
        cps = codepoints() if tier == "thorough" else itertools.chain(range(0x3100), range(0xD700, 0xD800), range(0xE000, 0xE010), range(0xF8F0, 0x10100), range(0x2FFF0, 0x30010), range(0xEFFE0, 0xF0020), range(0x10FFF0, 0x110000))
        for b in batches((chr(c) for c in cps if chr(c) not in IRI_BAD), 200):
            yield ("cp", b)
    return gen


def x_locals(case):
    kind, strs = case
    if kind == "cp":
        strs = tuple(x for s in strs for x in (s, s + "a", "a" + s, "a" + s + "a"))
    iris = ["http://e/" + s for s in strs]
    st = [(S, P, I(x)) for x in iris] + [(S, I(x), O) for x in iris[::3]] + [(I(x), P, L("v", None, x)) for x in iris[1::3]]
    roundtrip(st, {"": "http://e/"} if len(strs) % 2 else {"e": "http://e/"})
    return [kind + "|" + s for s in strs[:3]], len(st)


# ---- prefix maps ----
PNAMES = ["", "e", "a", "true", "rdf", "xsd", "e.f", "e-1", "\u00e9", "http", "E"]
PNS = ["http://e/", "http://e/a", "http://e/a/", "http://e/a#", "http://e", "urn:", "http://e/%41", RDF, XSD, "http://e/?q=", "http://e/type"]
PIRIS = ["http://e/", "http://e/a", "http://e/a/b", "http://e/a#b", "http://e", "http://ex", "urn:a:b", "urn:", "http://e/%41b", RDF, RDF + "type", RDF + "nil", RDF + "a/b",
         XSD + "string", XSD + "integer", "http://e/?q=1", "http://e/a/", "http://e/http://e/", "http://other/", "http://e/type", "http://e/a.", "http://e/a-", "http://e/true"]


def c_prefixes(tier):
    def gen():
        binds = [(p, n) for p in range(len(PNAMES)) for n in range(len(PNS))]
        yield ("pm", ((),))
        for b in batches(((x,) for x in binds), 10):
            yield ("pm", b)

        def pairs():
            for x in binds:
                for y in binds:
                    if x[0] != y[0] and (tier == "thorough" or (x[0] + 3 * x[1] + 5 * y[0] + 7 * y[1]) % 4 == 0 or x[0] < 2):
                        yield (x, y)
        for b in batches(pairs(), 20):
            yield ("pm", b)
    return gen


def x_prefixes(case):
    keys = []
    for m in case[1]:
        st = [(I(x), P, O) for x in PIRIS] + [(S, I(x), O) for x in PIRIS] + [(S, P, I(x)) for x in PIRIS] + [(S, P, L("v", None, x)) for x in PIRIS]
        roundtrip(st, {PNAMES[p]: PNS[n] for p, n in m})
        keys.append(m)
    return keys, len(keys)


# ---- bases ----
BASES = ["http://e/", "http://e", "http://e/a", "http://e/a/", "http://e/a/b", "http://e/a#", "http://e/a?q", "http://e/a?q#", "http://e/#", "urn:x", "urn:x:", "urn:x#", "http://e/a/../b/", "http://e/a.b/", "http://e//", "http:", "http://e/a#f", "file:///a/b", "HTTP://e/"]
TAILS = ["", "a", "/", "b", "#", "#f", "?q", "?", ":", "a:b", "//x", "/x", ".", "..", "./a", "../a", "a/b", "a/../b", "a/..", "%20", "a#b", "a?b", "?q#f", "a//b", "1", "x:", "/.", "/..", "é", "a:", "f", "http://e/"]


def c_bases(tier):
    def gen():
        for b in BASES:
            for pm in ((), (("e", "http://e/a"),), (("", "http://e/"),)):
                yield ("base", b, pm)
        if tier == "thorough":
            for b in BASES:
                for t in batches(strings("a/.:#?", 4), 300):
                    yield ("tails", b, t)
        else:
            for b in BASES:
                for t in batches(strings("a/.:#?", 3), 300):
                    yield ("tails", b, t)
    return gen


def absolute(iri):
    s = iri.split(":")[0]
    return ":" in iri and s.isalpha() and "/" not in s


def x_bases(case):
    kind, base, arg = case
    if kind == "base":
        iris = [b + t for b in BASES for t in TAILS]
        pm = dict(arg)
    else:
        iris = [base + t for t in arg]
        pm = None
    iris = [x for x in dict.fromkeys(iris) if absolute(x)]
    st = [(S, P, I(x)) for x in iris] + [(I(x), P, O) for x in iris[::4]] + [(S, I(x), L("v", None, x)) for x in iris[::5]]
    roundtrip(st, pm, base)
    return [repr((base, x)) for x in iris[:5]], len(st)


# ---- size ----
def c_scale(tier):
    def gen():
        for kind in scale.KINDS + ["bindings", "spaces"]:
            for n in scale.sizes(kind, tier):
                yield ("scale", kind, n)
    return gen


def x_scale(case):
    _, kind, n = case
    if kind == "bindings":
        pm = {"p%d" % i: "http://e/%d/" % i for i in range(n)}
        st = [(S, P, I("http://e/%d/x" % i)) for i in range(n)] + [(S, P, I("http://e/%dx" % i)) for i in range(n)]
        roundtrip(st, pm)
    elif kind == "spaces":
        pm = {"p": "http://e/" + "a/" * n}
        st = [(S, P, I("http://e/" + "a/" * i + "x")) for i in (n - 1, n, n + 1, 2 * n)]
        roundtrip(st, pm, "http://e/" + "a/" * (n // 2))
    else:
        st = scale.triples(kind, n)
        R, g = Realm(), Graph()
        g.addAll([R.triple(t) for t in st])
        pr = Profile(PrefixMap({"e": "http://e/"}))
        roundtrip(st, pr, gen="names" if n % 2 else None, graph=(R, g))
        # as many statements and prefixes as before, but not the same
        if not st:
            return "%s %d" % (kind, n), 0
        out, new = st[n // 2 % len(st)], (I("http://f/new"), P, L("new"))
        g.remove(R.triple(out))
        g.add(R.triple(new))
        del pr.prefixes["e"]
        pr.prefixes["f"] = "http://f/"
        roundtrip([new if t == out else t for t in dict.fromkeys(st)], pr, gen="names" if n % 2 else None, graph=(R, g))
    return "%s %d" % (kind, n), len(st)


# ---- what histories leave behind ----
HT = [(S, P, B("c")), (B("c"), FIRST, L("v")), (B("c"), REST, NIL), (S, I(RDF + "type"), O)]


def c_hist(depth):
    def gen():
        for first in range(3 * len(HT)):
            yield ("hist", first, depth)
    return gen


def x_hist(case):
    _, first, depth = case
    keys, n = set(), 0
    for rest in itertools.product(range(3 * len(HT)), repeat=depth - 1):
        R, g, m = Realm(), Graph(), set()
        for op in (first,) + rest:
            t = HT[op % len(HT)]
            if op < len(HT):
                g.add(R.triple(t))
                m.add(t)
            elif op < 2 * len(HT):
                attempt(g.remove, R.triple(t))
                m.discard(t)
            else:
                g.removeMatches(R.term(t[0]), None, R.term(t[2]))
                m = {x for x in m if x[0] != t[0] or x[2] != t[2]}
        keys.add(roundtrip(sorted(m, key=repr), {"e": "http://e/"}, graph=(R, g)))
        n += 1
    return list(keys), n * depth


# ---- written, changed, written again: each text is of what was there when it was written ----
WT = [(S, P, O), (S, Q, B("c")), (B("c"), FIRST, L("v")), (B("c"), REST, NIL), (I("http://f/s"), P, O)]
WSTART = [(0,), (0, 1), (1, 2, 3), (0, 1, 2, 3, 4)]
WOPS = [("t", i) for i in range(len(WT))] + [("bind", "e", "http://f/"), ("bind", "e", "http://e/"), ("bind", "f", "http://f/"), ("unbind", "e"), ("unbind", "f"), ("default",)] + [("w", k) for k in range(4)]


def c_again(depth):
    def gen():
        for start in range(len(WSTART)):
            for w in range(4):
                for op in range(len(WOPS)):
                    yield ("again", start, w, op, depth)
    return gen


def x_again(case):
    _, start, w, first, depth = case
    keys, n = set(), 0
    for rest in itertools.product(range(len(WOPS)), repeat=depth - 1):
        R, g, m = Realm(), Graph(), set(WT[i] for i in WSTART[start])
        g.addAll([R.triple(t) for t in sorted(m, key=repr)])
        p1, p2 = Profile(PrefixMap({"e": "http://e/"})), Profile()
        for op in [("w", w)] + [WOPS[i] for i in (first,) + rest] + [("w", w)]:
            if op[0] == "t":
                t = WT[op[1]]
                if t in m:
                    g.remove(R.triple(t))
                    m.discard(t)
                else:
                    g.add(R.triple(t))
                    m.add(t)
            elif op[0] == "bind":
                p1.prefixes[op[1]] = op[2]
            elif op[0] == "unbind":
                p1.prefixes.pop(op[1], None)
            elif op[0] == "default":
                p1.setDefaultPrefix("http://e/")
            else:
                n += 1
                keys.add(repr(roundtrip(sorted(m, key=repr), (p1, None, p2, p1)[op[1]], (None, None, "http://e/", "http://f/")[op[1]], graph=(R, g))) + repr(sorted(p1.prefixes.items())))
    return list(keys), n


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("graphs", c_graphs(3 if th else 2), x_graphs, "all graphs of <= %d statements over %d possible, 2 to 12 prefix/base/naming configurations" % (3 if th else 2, len(UNIV))),
        Space("list heaps", c_heaps(tier), x_heaps, "all heaps of 1 to 3 list cells whose first and rest point anywhere; long and nested lists", limit_s=300),
        Space("literals", c_literals(tier), x_literals, "all strings of <= 2 special characters, <= %d core characters, every %s, all numeric-looking strings of <= %d characters , every edit of one character of 8 numbers and booleans x datatypes" % (4 if th else 3, "code point" if th else "BMP character", 5 if th else 4)),
        Space("local names", c_locals(tier), x_locals, "all local parts of <= 2 special characters and <= %d core characters; characters alone, first, last and inside" % (4 if th else 3)),
        Space("prefix maps", c_prefixes(tier), x_prefixes, "all maps of <= 1 binding and %s of 2 over %d names x %d namespaces, 23 IRIs in every position" % ("all" if th else "a fixed part", len(PNAMES), len(PNS))),
        Space("histories", c_hist(5 if th else 4), x_hist, "what every history of %d adds and removes over 4 statements leaves behind" % (5 if th else 4)),
        Space("again", c_again(4 if th else 3), x_again, "written, %d changes to graph or prefixes or writings in another way, written again: every sequence of %d, 4 ways, 4 graphs" % (4 if th else 3, len(WOPS))),
        Space("size", c_scale(tier), x_scale, "12 families of graphs, terms and prefix maps of every size to 130 and some larger"),
        Space("bases", c_bases(tier), x_bases, "%d bases x (all bases + tails, and the base + every string of <= %d characters)" % (len(BASES), 4 if th else 3)),
    ]
