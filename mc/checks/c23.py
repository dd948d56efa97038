"""C23: a changeset transforms one graph exactly into the other."""
import collections
import datetime
import itertools

import rdflib

from .. import scale
from ..core import Mismatch, Space, attempt
from ..rdfmodel import RDF, XSD, B, I, L
from pymantic import sparql

LEVEL = "model_checking"
TECHNIQUE = "exhaustive pairs of graphs and exclusion lists through the real differences and changeset, against set difference"
RULE = ("every pair of subsets of confusable universes of statements, every exclusion list and way of giving it, every pair of one-statement "
        "graphs over a rich set of terms; sequences of calls; the changeset of every pair taken apart and applied")
ASSUMPTIONS = ["rdflib stores and compares terms correctly; language tags are lower case (rdflib compares them without case)"]

CS = "http://purl.org/vocab/changeset/schema#"
S, P, Q, O = I("http://c/s"), I("http://c/p"), I("http://c/q"), I("http://c/o")

UNIVERSE = [
    (S, P, L("x")), (S, P, L("x", "en")), (S, P, I("x")), (S, Q, L("x")), (B("x"), P, L("x")), (S, P, B("x")),
    (S, I(RDF + "type"), O), (S, I(RDF + "object"), L("x")), (O, P, S), (S, P, L("x", None, XSD + "string")),
]
EXCL = [P, Q, I(RDF + "type"), I("http://c/none"), S]

RICH = [
    I("http://c/o"), I("http://c/O"), I("x"), I(""), I("http://c/\u00e9"), B("x"), B("y"), B("en"),
    L("x"), L("X"), L(""), L("x", "en"), L("x", "fr"), L("x", "en-us"), L("x", None, XSD + "string"), L("x", None, "http://c/dt"),
    L("1"), L("1", None, XSD + "integer"), L("1", None, XSD + "decimal"), L("1.0", None, XSD + "decimal"), L("1.00", None, XSD + "double"),
    L("true", None, XSD + "boolean"), L("http://c/o"), L("None"), L("x "), L("x\n"), L('"'), L("\u00e9"), L("\U0001f600"),
    L("2020-01-01T00:00:00Z", None, XSD + "dateTime"), L("<a/>", None, RDF + "XMLLiteral"),
]


def term(m):
    if m[0] == "I":
        return rdflib.URIRef(m[1])
    if m[0] == "B":
        return rdflib.BNode(m[1])
    return rdflib.Literal(m[1], lang=m[2], datatype=rdflib.URIRef(m[3]) if m[3] is not None else None,
                          normalize=False)


def back(t):
    if isinstance(t, rdflib.URIRef):
        return ("I", str(t))
    if isinstance(t, rdflib.BNode):
        return ("B", str(t))
    if isinstance(t, rdflib.Literal):
        return ("L", str(t), t.language, None if t.datatype is None else str(t.datatype))
    raise Mismatch("not an rdflib term", None, repr(t))


def build(stmts, kind=0):
    """kind 0: a graph; 1: a graph with a name in a dataset; 2: with namespaces bound; 3: as a graph store gives it"""
    if kind == 3:   # what a graph store's get returns
        g = rdflib.ConjunctiveGraph()
    elif kind == 1:
        g = rdflib.Graph(identifier=rdflib.URIRef("http://c/g"))
    else:
        g = rdflib.Graph()
        if kind == 2:
            g.bind("c", "http://c/")
    for s in stmts:
        g.add(tuple(term(x) for x in s))
    return g


def model(g):
    return frozenset(tuple(back(x) for x in t) for t in g)


# ---- differences ----

WAYS = [
    ("none", lambda e: None), ("list", lambda e: [x[1] for x in e]), ("tuple", lambda e: tuple(x[1] for x in e)),
    ("uris", lambda e: [rdflib.URIRef(x[1]) for x in e]), ("set", lambda e: {x[1] for x in e}), ("iter", lambda e: iter([x[1] for x in e])),
]


def listed(what, got, want):
    if not isinstance(got, (list, tuple)):
        got = list(got)
    m = [tuple(back(x) for x in s) for s in got]
    if len(set(m)) != len(m):
        raise Mismatch("duplicates in the %s" % what, sorted(want), sorted(m))
    if set(m) != set(want):
        raise Mismatch("the %s" % what, sorted(want), sorted(m))
    return m


def one_difference(a, b, excl, way, kinds=(0, 0)):
    ga, gb = build(a, kinds[0]), build(b, kinds[1])
    given = dict(WAYS)[way](excl)
    if given is None:
        r = sparql.differences(ga, gb)
    else:
        keep = given if way == "iter" else type(given)(given)
        r = sparql.differences(ga, gb, given)
        if way != "iter" and given != keep:
            raise Mismatch("the exclusion list was changed", keep, given)
    ex = set() if way == "none" else set(excl)
    a, b = set(a), set(b)
    r = [x if isinstance(x, (list, tuple, set, frozenset)) else list(x) for x in r]
    if len(r) != 2:
        raise Mismatch("differences did not give a pair", None, repr(r))
    rem = listed("statements to remove", r[0], {s for s in a - b if s[1] not in ex})
    add = listed("statements to add", r[1], {s for s in b - a if s[1] not in ex})
    if model(ga) != frozenset(a) or model(gb) != frozenset(b):
        raise Mismatch("an input graph was changed", (sorted(a), sorted(b)), (sorted(model(ga)), sorted(model(gb))))
    for s in r[0]:
        ga.remove(s)
    for s in r[1]:
        ga.add(s)
    got, want = model(ga), frozenset(b)
    if {s for s in got if s[1] not in ex} != {s for s in want if s[1] not in ex}:
        raise Mismatch("applying the differences", sorted(want), sorted(got))
    if {s for s in got if s[1] in ex} != {s for s in a if s[1] in ex}:
        raise Mismatch("excluded statements were changed", None, sorted(got))
    return len(rem), len(add)


def x_diff(case):
    a, rest = case
    keys, n = set(), 0
    u = UNIVERSE[:rest["n"]]
    for bits in range(2 ** len(u)):
        b = [s for i, s in enumerate(u) if bits >> i & 1]
        one_difference(a, b, (), "none")
        n += 1
        keys.add((a, tuple(b)))
        for excl in rest["excl"]:
            for way in rest["ways"]:
                one_difference(a, b, excl, way)
                n += 1
    return [repr(k) for k in keys], n


def subsets(u):
    for bits in range(2 ** len(u)):
        yield tuple(s for i, s in enumerate(u) if bits >> i & 1)


def c_diff(n, excl, ways):
    def gen():
        for a in subsets(UNIVERSE[:n]):
            yield (a, dict(n=n, excl=excl, ways=ways))
    return gen


def exclusions(k):
    return [e for r in range(k + 1) for e in itertools.combinations(EXCL, r)]


# ---- sequences of calls: nothing is remembered ----

CALLS = [((0, 1, 3), (1, 2), ()), ((3,), (0, 3), (P,)), ((0, 3, 6), (), (Q,)), ((), (0, 1, 2, 3), ()), ((0, 3), (6,), (P, Q)), ((0, 1), (0, 1), ())]


def x_calls(case):
    ga = {}
    for k in case:
        i, j, excl = CALLS[k]
        a, b = [UNIVERSE[x] for x in i], [UNIVERSE[x] for x in j]
        one_difference(a, b, excl, "list" if excl else "none")
        one_changeset(a, b)
    return repr(case), len(case)


# ---- changeset ----

SLACK = datetime.timedelta(seconds=2)


def one_changeset(a, b, kind=0, name="http://c/g", as_ref=False):
    ga, gb = build(a, kind), build(b, kind)
    ma, mb = model(ga), model(gb)
    given = rdflib.URIRef(name) if as_ref else name
    t0 = datetime.datetime.now(datetime.timezone.utc)
    cs = sparql.changeset(ga, gb, given)
    t1 = datetime.datetime.now(datetime.timezone.utc)
    if model(ga) != ma or model(gb) != mb:
        raise Mismatch("an input graph was changed", (sorted(ma), sorted(mb)), (sorted(model(ga)), sorted(model(gb))))
    if cs is ga or cs is gb:
        raise Mismatch("the changeset is an input graph", None, None)
    triples = list(cs)
    by = collections.defaultdict(list)
    for s, p, o in triples:
        by[s].append((str(p), o))
    heads = [s for s, p, o in triples if str(p) == RDF + "type" and o == rdflib.URIRef(CS + "ChangeSet")]
    if len(heads) != 1:
        raise Mismatch("ChangeSet nodes", 1, len(heads))
    head = heads[0]
    props = collections.defaultdict(list)
    for p, o in by[head]:
        props[p].append(o)
    known = {RDF + "type", CS + "createdDate", CS + "subjectOfChange", CS + "removal", CS + "addition"}
    if set(props) - known:
        raise Mismatch("unexpected properties of the ChangeSet", None, sorted(set(props) - known))
    if [back(x) for x in props[CS + "subjectOfChange"]] != [("I", name)]:
        raise Mismatch("subjectOfChange", name, props[CS + "subjectOfChange"])
    if len(props[CS + "createdDate"]) != 1 or not isinstance(props[CS + "createdDate"][0], rdflib.Literal):
        raise Mismatch("createdDate", None, props[CS + "createdDate"])
    d = datetime.datetime.fromisoformat(str(props[CS + "createdDate"][0]))
    if d.tzinfo is None or not t0 - SLACK <= d <= t1 + SLACK:
        raise Mismatch("createdDate is not the time of creation", (t0, t1), d)
    used = {head}
    for which, want in (("removal", ma - mb), ("addition", mb - ma)):
        got = []
        for node in props[CS + which]:
            if node in used:
                raise Mismatch("a statement node is used twice", None, repr(node))
            if not isinstance(node, rdflib.BNode):
                raise Mismatch("a statement node is not blank", None, repr(node))
            used.add(node)
            d = collections.defaultdict(list)
            for p, o in by[node]:
                d[p].append(back(o))
            if set(d) != {RDF + "type", RDF + "subject", RDF + "predicate", RDF + "object"} or any(len(v) != 1 for v in d.values()) \
                    or d[RDF + "type"] != [("I", RDF + "Statement")]:
                raise Mismatch("a reified statement", None, dict(d))
            got.append((d[RDF + "subject"][0], d[RDF + "predicate"][0], d[RDF + "object"][0]))
        if len(set(got)) != len(got) or set(got) != set(want):
            raise Mismatch("the statements under %s" % which, sorted(want), sorted(got))
    if set(by) != used:
        raise Mismatch("statements about other nodes", None, sorted(map(repr, set(by) - used)))
    mine = {back(x) for x in used}
    if any(x in mine for s in ma | mb for x in s):
        raise Mismatch("a node of the changeset is a node of an input graph", None, None)
    return len(used)


def x_cs(case):
    a, n = case
    keys = set()
    for b in subsets(UNIVERSE[:n]):
        one_changeset(a, b)
        keys.add(repr((a, b)))
    return keys, len(keys)


NAMES = ["http://c/g", "http://c/g#x", "g", "http://c/\u00e9?a=b&c", "urn:x:1", "", "http://c/s"]


def x_names(case):
    name, kind, as_ref, i, j = case
    a, b = [UNIVERSE[x] for x in i], [UNIVERSE[x] for x in j]
    one_changeset(a, b, kind, name, as_ref)
    return repr(case), 1


def c_names():
    for name in NAMES:
        for kind in (0, 1, 2, 3):
            for as_ref in (False, True):
                for i, j in (((), ()), ((0,), ()), ((), (0, 4)), ((0, 1, 4), (1, 2, 5)), ((6, 7), (7,))):
                    yield (name, kind, as_ref, i, j)


# ---- confusable terms ----

def x_rich(case):
    i, pos = case
    n = 0
    for y in RICH:
        x = RICH[i]
        def stmt(t):
            return (t, P, O) if pos == 0 else (S, t, O) if pos == 1 else (S, P, t)
        if pos < 2 and (y[0] == "L" or pos == 1 and y[0] == "B"):
            continue
        for a, b in (([stmt(x)], [stmt(y)]), ([stmt(x)], [stmt(x), stmt(y)]), ([stmt(x), stmt(y)], [stmt(y)])):
            one_difference(list(dict.fromkeys(a)), list(dict.fromkeys(b)), (), "none")
            one_changeset(list(dict.fromkeys(a)), list(dict.fromkeys(b)))
            if pos == 1:
                for e in ((x,), (y,), (x, y)):
                    one_difference(list(dict.fromkeys(a)), list(dict.fromkeys(b)), e, "list")
            n += 2
    return repr(case), n


def c_rich():
    for pos in range(3):
        for i, x in enumerate(RICH):
            if pos < 2 and (x[0] == "L" or pos == 1 and x[0] == "B"):
                continue
            yield (i, pos)


# ---- inputs of several kinds, growing inputs ----
def x_kinds(case):
    k1, k2, a = case
    for b in subsets(UNIVERSE[:4]):
        one_difference(a, b, (P,), "none", (k1, k2))
        one_difference(a, b, (P,), "list", (k1, k2))
    return repr(case), 32


def c_kinds():
    for k1, k2 in itertools.product(range(4), repeat=2):
        for a in subsets(UNIVERSE[:4]):
            yield (k1, k2, a)


def x_scale(case):
    kind, n = case
    a, b = scale.triples(kind, n), scale.triples(kind, n + 1)
    h = len(a) // 2
    for x, y in ((a, b), (b, a), (a[:h], a[h:]), (a, a), (a, []), ([], b)):
        one_changeset(x, y)
        one_difference(x, y, (), "none")
        one_difference(x, y, [s[1] for s in a[:h]], "list")
    return repr(case), 18


def c_scale(tier):
    def gen():
        for kind in ("blank subjects", "blank objects", "one blank node", "subjects", "predicates", "objects", "literal length", "iri length"):
            for n in (list(range(0, 12)) + [20, 31, 32, 33, 64, 100, 101] + ([128, 256, 257, 500] if tier == "thorough" else [])):
                yield (kind, n)
    return gen


def spaces(tier):
    deep = tier == "thorough"
    n1, n2 = (7, 7) if not deep else (9, 7)
    return [
        Space("kinds of graph", c_kinds, x_kinds, "plain, named, with namespaces and as fetched, in all pairs, all pairs of subsets of 4 statements"),
        Space("scale", c_scale(tier), x_scale, "8 families of graphs of growing size, one step apart, halves, equal, to and from nothing"),
        Space("calls", lambda: itertools.product(range(len(CALLS)), repeat=3 if deep else 2), x_calls, "sequences of calls"),
        Space("names", c_names, x_names, "graph names, kinds of input graphs"),
        Space("confusable terms", c_rich, x_rich, "pairs of one-statement graphs over %d terms in each position" % len(RICH)),
        Space("exclusions", c_diff(5 if not deep else 7, exclusions(3 if deep else 2), ["list"]), x_diff, "pairs of subsets x exclusion lists"),
        Space("ways", c_diff(4, [(), (P,), (Q, I(RDF + "type"))], [w for w, _ in WAYS if w != "none"]), x_diff, "ways of giving the exclusions"),
        Space("differences", c_diff(n1, [(P,)], ["list"]), x_diff, "pairs of subsets of %d statements" % n1),
        Space("changesets", lambda: ((a, n2) for a in subsets(UNIVERSE[:n2])), x_cs, "pairs of subsets of %d statements" % n2),
    ]
