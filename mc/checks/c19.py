"""C19: creating, copying, finding and erasing resources match the graph."""
import itertools

from ..core import Mismatch, Space, attempt
from ..explore import Opaque, bfs, canon
from ..rdfmodel import RDF, B, I, L, Realm, back, back_triple
import pymantic.rdf as prdf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over operation histories of real resources against a set-of-triples model"
RULE = ("breadth-first over new/copy/erase/add/remove histories from several start graphs; states merged only when the complete real (types and orders included) graph "
        "and the model coincide; is_a, in_graph, object_of and iteration of every class and node compared in every state; every graph over a "
        "small triple universe as a start state for each single operation")
ASSUMPTIONS = ["a class without RDF classes has no instances to look for (in_graph left open); its is_a is true"]

NS = "http://n/"
T1, T2, T3 = I(NS + "T1"), I(NS + "T2"), I(NS + "T3")
TYPE, P, Q = I(RDF + "type"), I(NS + "p"), I(NS + "q")
a, b, x, y = I(NS + "a"), I(NS + "b"), B("x"), B("y")


class Base(prdf.Resource):
    prefixes = {"n": NS}


@prdf.register_class("n:T1")
class One(Base):
    pass


@prdf.register_class(NS + "T2")
class Other(Base):
    pass


class Both(Base):
    rdf_classes = frozenset((NamedNode(NS + "T1"), NamedNode(NS + "T2")))


class Three(One):
    rdf_classes = frozenset((NamedNode(NS + "T1"), NamedNode(NS + "T2"), NamedNode(NS + "T3")))


@prdf.register_class("n:T4")
class Sub(One):
    pass


@prdf.register_class("n:T6")
@prdf.register_class("n:T5")
class Twice(Both):
    pass


CLASSES = {"One": (One, {T1}), "Other": (Other, {T2}), "Both": (Both, {T1, T2}), "Three": (Three, {T1, T2, T3}), "Base": (Base, set()), "Sub": (Sub, {I(NS + "T4")})}
NODES = [a, b, x, y, I(NS + "c"), I("")]


class World:
    def __init__(self, start):
        self.R, self.g, self.m = Realm(), Graph(), set(start)
        for t in start:
            self.g.add(self.R.triple(t))
        self.fresh = 0

    def now(self):
        rev = {id(n): ("B", k) for k, n in self.R.nodes.items()}
        return {tuple(rev.get(z[1], z) if z[0] == "B" else z for z in back_triple(t)) for t in self.g}

    def model(self, real):
        for k, n in self.R.nodes.items():
            if real is n:
                return ("B", k)
        return back(real)


def same(w, what):
    got = w.now()
    if got != w.m or len(w.g) != len(w.m):
        raise Mismatch("statements after " + what, sorted(w.m, key=repr), sorted(got, key=repr))


def do(w, op):
    k = op[0]
    if k == "new":
        _, cn, subj, form = op
        cls, types = CLASSES[cn]
        if subj is None:
            r = attempt(cls.new, w.g) if form == 0 else attempt(cls.new, w.g, None)
            if r[0] == "exc":
                raise Mismatch("%r raised" % (op,), "a resource", repr(r[1]))
            n = r[1].subject
            if not isinstance(n, BlankNode) or any(n is z for z in w.R.nodes.values()):
                raise Mismatch("new without subject", "a fresh blank node", repr(n))
            subj = B("fresh%d" % w.fresh)
            w.fresh += 1
            w.R.nodes[subj[1]] = n
        else:
            arg = w.R.term(subj)
            if form == 1 and subj[0] == "I":
                arg = subj[1]
            r = attempt(cls.new, w.g, arg) if form != 2 else attempt(cls.new, graph=w.g, subject=arg)
            if r[0] == "exc":
                raise Mismatch("%r raised" % (op,), "a resource", repr(r[1]))
        res = r[1]
        w.m |= {(subj, TYPE, t) for t in types}
        if type(res) is not cls or res.graph is not w.g or w.model(res.subject) != subj or isinstance(res.subject, str) and not isinstance(res.subject, NamedNode):
            raise Mismatch("result of %r" % (op,), (cn, subj), repr(res))
        if not res.is_a():
            raise Mismatch("is_a after %r" % (op,), True, False)
    elif k == "copy":
        _, s, t, form, cn = op
        src = CLASSES[cn][0](w.g, w.R.term(s))
        arg = t[1] if form == 1 and t[0] == "I" else w.R.term(t)
        r = attempt(src.copy, arg)
        if r[0] == "exc":
            raise Mismatch("%r raised" % (op,), "a resource", repr(r[1]))
        w.m |= {(t, q, o) for s2, q, o in w.m if s2 == s}
        if not isinstance(r[1], prdf.Resource) or w.model(r[1].subject) != t or r[1].graph is not w.g:
            raise Mismatch("result of %r" % (op,), t, repr(r[1]))
        if src.subject != w.R.term(s):
            raise Mismatch("copy changed its source", s, repr(src))
    elif k == "erase":
        _, s, cn = op
        r = attempt(CLASSES[cn][0](w.g, w.R.term(s)).erase)
        if r[0] == "exc":
            raise Mismatch("%r raised" % (op,), "no exception", repr(r[1]))
        w.m = {t for t in w.m if t[0] != s}
    elif k == "add":
        w.g.add(w.R.triple(op[1]))
        w.m.add(op[1])
    elif k == "remove":
        if op[1] in w.m:
            w.g.remove(w.R.triple(op[1]))
            w.m.discard(op[1])
    elif k == "ask":
        observe(w)
    else:
        raise AssertionError(op)
    same(w, repr(op))


def observe(w, hist=()):
    for cn, (cls, types) in CLASSES.items():
        having = {n for n in {t[0] for t in w.m} if all((n, TYPE, t) in w.m for t in types)}
        if types:
            got = list(cls.in_graph(w.g))
            names = [w.model(r.subject) for r in got]
            if any(type(r) is not cls or r.graph is not w.g for r in got) or len(names) != len(set(names)) or set(names) != having:
                raise Mismatch("%s.in_graph with %r" % (cn, sorted(w.m, key=repr)), sorted(having, key=repr), sorted(names, key=repr))
        for n in NODES + [("B", k) for k in w.R.nodes if k.startswith("fresh")]:
            r = cls(w.g, w.R.term(n))
            want = all((n, TYPE, t) in w.m for t in types)
            if r.is_a() is not want:
                raise Mismatch("%s(%r).is_a() with %r" % (cn, n, sorted(w.m, key=repr)), want, r.is_a())
    for n in NODES:
        r = Base(w.g, w.R.term(n))
        got = sorted(((w.model(s.subject), w.model(p)) for s, p in r.object_of()), key=repr)
        want = sorted(((s, p) for s, p, o in w.m if o == n), key=repr)
        if got != want:
            raise Mismatch("%r.object_of() with %r" % (n, sorted(w.m, key=repr)), want, got)
        for p in (P, Q, TYPE):
            want = sorted((s for s, q, o in w.m if o == n and q == p), key=repr)
            for form in (w.R.term(p), p[1], {P: "n:p", Q: "n:q", TYPE: "rdf:type"}[p]):
                rs = list(r.object_of(form))
                if not all(isinstance(s, prdf.Resource) for s in rs) or sorted((w.model(s.subject) for s in rs), key=repr) != want:
                    raise Mismatch("%r.object_of(%r) with %r" % (n, form, sorted(w.m, key=repr)), want, rs)
            rs = list(r.object_of(predicate=w.R.term(p)))
            if len(rs) != len(want):
                raise Mismatch("%r.object_of(predicate=) with %r" % (n, sorted(w.m, key=repr)), want, rs)
        got = sorted(((w.model(p), w.model(o)) for p, o in r), key=repr)
        want = sorted(((p, o) for s, p, o in w.m if s == n), key=repr)
        if got != want:
            raise Mismatch("iterating %r with %r" % (n, sorted(w.m, key=repr)), want, got)
    same(w, "asking")


STARTS = {
    "empty": [],
    "cycle": [(a, P, b), (b, P, a), (a, P, a)],
    "typed": [(a, TYPE, T1), (b, TYPE, T2), (a, P, x)],
    "both": [(a, TYPE, T1), (a, TYPE, T2), (x, TYPE, T2), (x, P, L("1"))],
    "refs": [(a, P, x), (x, Q, a), (a, Q, x), (b, P, L("l", "en"))],
    "types as nodes": [(T1, TYPE, T1), (a, TYPE, T1), (T1, P, a), (a, TYPE, T3)],
}


def ops(w):
    out = [("ask",)]
    for cn in ("One", "Both", "Base"):
        out += [("new", cn, s, f) for s, f in ((a, 0), (a, 1), (x, 0), (b, 2), (None, 0))]
    out += [("new", "Sub", s, 0) for s in (a, None)]
    out += [("new", "Three", x, 0), ("new", "Other", a, 1), ("new", "Both", None, 1)]
    for s, t in itertools.product((a, b, x), repeat=2):
        out.append(("copy", s, t, 0, "Base"))
    out += [("copy", a, b, 1, "One"), ("copy", x, y, 0, "Both"), ("copy", a, y, 0, "Base")]
    out += [("erase", s, c) for s, c in ((a, "Base"), (b, "One"), (x, "Both"), (y, "Base"))]
    out += [("add", (a, P, b)), ("add", (x, Q, a)), ("remove", (a, TYPE, T1))]
    if w.fresh:
        out += [("copy", B("fresh0"), a, 0, "Base"), ("copy", a, B("fresh0"), 0, "Base"), ("erase", B("fresh0"), "One")]
    return [o for o in out if not (o[0] == "new" and o[2] is None and w.fresh >= 2)]


def key(w):
    names = {id(n): k for k, n in w.R.nodes.items()}
    try:
        return (repr(sorted(w.m, key=repr)), canon(w.g, names))
    except Opaque:
        return (repr(sorted(w.m, key=repr)), None)


def x_hist(case):
    _, start, first, depth = case

    def build(hist):
        w = World(STARTS[start])
        for op in (first,) + tuple(hist):
            do(w, op)
        return w
    return bfs(build, ops, observe, key, depth - 1)


def c_hist(depth):
    def gen():
        for s in STARTS:
            for op in ops(World(STARTS[s])):
                yield ("hist", s, op, depth)
    return gen


# ---- every graph over a universe, each operation once ----
UNI = [(a, TYPE, T1), (a, TYPE, T2), (x, TYPE, T1), (x, TYPE, T2), (a, P, x), (x, P, a), (a, P, a), (a, Q, L("1")), (x, Q, b), (b, TYPE, T1)]


def x_every(case):
    _, mask, n = case
    start = [t for i, t in enumerate(UNI) if mask >> i & 1]
    k = 0
    w = World(start)
    observe(w)
    for op in ops(w):
        w = World(start)
        do(w, op)
        k += 1
        if k % 7 == mask % 7:
            observe(w)
    return repr(mask), k


def c_every(n):
    def gen():
        for mask in range(1 << n):
            yield ("every", mask, n)
    return gen


# ---- the resource under every kind of object, with confusable IRIs ----
CONF = [I(NS + "a"), I(NS + "A"), I(NS + "a/"), I(NS + "a#"), I(NS), I(""), I("urn:a"), B("x"), B("y"), I(NS + "\u00e9"), I("http://n/%C3%A9"), I("_:x"), I("None")]


def x_conf(case):
    _, s1, s2 = case
    w = World([(s1, P, L("1")), (s1, TYPE, T1), (s1, TYPE, T2), (s2, P, s1), (s2, Q, L("2", "en")), (a, Q, L(s1[1])), (b, Q, s1)])
    m0 = set(w.m)
    n = 0
    for op in (("new", "Both", s2, 0), ("copy", s1, s2, 0, "Base"), ("copy", s1, s2, 1, "One"), ("erase", s1, "Base"), ("erase", s2, "Base")):
        w = World(m0)
        do(w, op)
        for z in {s1, s2}:
            got = sorted(((w.model(s.subject), w.model(p)) for s, p in Base(w.g, w.R.term(z)).object_of()), key=repr)
            want = sorted(((s, p) for s, p, o in w.m if o == z), key=repr)
            if got != want:
                raise Mismatch("%r.object_of() after %r" % (z, op), want, got)
        for cn in ("One", "Both"):
            got = {w.model(r.subject) for r in CLASSES[cn][0].in_graph(w.g)}
            want = {z for z in {t[0] for t in w.m} if all((z, TYPE, t) in w.m for t in CLASSES[cn][1])}
            if got != want:
                raise Mismatch("%s.in_graph after %r" % (cn, op), want, got)
        n += 1
    return repr(case), n


def c_conf():
    for s1, s2 in itertools.product(CONF, repeat=2):
        yield ("conf", s1, s2)


# ---- many statements, many instances, many referrers ----
SIZES = list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025]


def x_scale(case):
    _, kind, n = case
    start = [(a, TYPE, T1), (a, TYPE, T2), (b, P, a), (x, TYPE, T1)]
    if kind == "statements":
        start += [(a, [P, Q][i % 2], [L("v%d" % i), I(NS + "o%d" % i), B("o%d" % (i % 7))][i % 3]) for i in range(n)]
    elif kind == "properties":
        start += [(a, I(NS + "p%d" % i), [a, b, x][i % 3]) for i in range(n)]
    elif kind == "instances":
        start += [(I(NS + "i%d" % i), TYPE, t) for i in range(n) for t in ([T1], [T2], [T1, T2], [T1, T2, T3])[i % 4 if n % 2 else 3]]
    elif kind == "referrers":
        start += [([I(NS + "r%d" % i), B("r%d" % i)][i % 2], [P, Q][n % 2 and i % 3 == 0], [a, y][n % 2 and i % 5 == 0]) for i in range(n)]
    else:  # values of one property that other resources have too
        start += [(s, P, L("v%d" % i, "en")) for i in range(n) for s in (a, b)]
    steps = 0
    for op in (("copy", a, b, 0, "Base"), ("copy", a, I(NS + "c"), 1, "One"), ("copy", a, y, 0, "Both"), ("erase", a, "Base"), ("erase", b, "One"), ("new", "Three", a, 0), ("new", "Both", None, 0)):
        w = World(start)
        do(w, op)
        same(w, "%r with %s %d" % (op, kind, n))
        for cn in ("One", "Other", "Both", "Three"):
            got = [w.model(r.subject) for r in CLASSES[cn][0].in_graph(w.g)]
            want = {z for z in {t[0] for t in w.m} if all((z, TYPE, t) in w.m for t in CLASSES[cn][1])}
            if len(got) != len(want) or set(got) != want:
                raise Mismatch("%s.in_graph after %r with %s %d" % (cn, op, kind, n), sorted(want, key=repr), sorted(got, key=repr))
        for z in (a, y):
            res = Base(w.g, w.R.term(z))
            got = sorted(((w.model(s.subject), w.model(p)) for s, p in res.object_of()), key=repr)
            want = sorted(((s, p) for s, p, o in w.m if o == z), key=repr)
            if got != want:
                raise Mismatch("%r.object_of() after %r with %s %d" % (z, op, kind, n), want, got)
            got = sorted((w.model(s.subject) for s in res.object_of(NS + "p")), key=repr)
            want = sorted((s for s, p, o in w.m if o == z and p == P), key=repr)
            if got != want:
                raise Mismatch("%r.object_of(p) after %r with %s %d" % (z, op, kind, n), want, got)
        steps += 9
    return repr(case), steps


def c_scale(th):
    def gen():
        for kind in ("statements", "properties", "instances", "referrers", "shared values"):
            for n in SIZES + ([4096, 4097, 10000] if th else []):
                yield ("scale", kind, n)
    return gen


# ---- which resources are the same: those of one subject, whatever their class or graph ----
SAMECLASSES = ["Base", "One", "Both", "Sub"]


def x_same(case):
    _, s1, s2 = case
    R = Realm()
    g1, g2 = Graph(), Graph()
    g1.add(R.triple((s1, P, s2)))
    g1.add(R.triple((s1, TYPE, T1)))
    before = {back_triple(t) for t in g1}
    n = 0
    for (c1, h1), (c2, h2) in itertools.product(itertools.product(SAMECLASSES, (g1, g2)), repeat=2):
        r1, r2 = CLASSES[c1][0](h1, R.term(s1)), CLASSES[c2][0](h2, R.term(s2))
        want = s1 == s2
        if (r1 == r2) != want or (r1 != r2) == want:
            raise Mismatch("equality of the resources %r and %r (classes %s, %s)" % (s1, s2, c1, c2), want, not want)
        if want and hash(r1) != hash(r2):
            raise Mismatch("equal resources with different hashes", None, (r1, r2))
        if len({r1, r2}) != (1 if want else 2) or (r2 in {r1: 1}) != want or (r2 in [r1]) != want:
            raise Mismatch("a set or a mapping of the resources %r and %r" % (s1, s2), want, None)
        n += 1
    r1 = Base(g1, R.term(s1))
    if s2[0] == "I" and not (s1[0] == "B" or {s1, s2} == {CONF[-4], CONF[-3]}):
        for z in (NamedNode(s2[1]), s2[1]):
            if (r1 == z) != (s1 == s2) or (r1 != z) == (s1 == s2):
                raise Mismatch("the resource %r against the IRI %r" % (s1, z), s1 == s2, s1 != s2)
        if s1 == s2 and hash(r1) != hash(R.term(s2)):
            raise Mismatch("a resource and its IRI with different hashes", None, s1)
    for z in (Literal(s1[1]), 5, None, (s1[1],), object(), [R.term(s1)], g1, Triple(R.term(s1), R.term(P), R.term(s2)), b"x"):
        if r1 == z or not r1 != z:
            raise Mismatch("the resource %r equals something of another kind" % (s1,), None, repr(z))
    if {back_triple(t) for t in g1} != before or len(g2):
        raise Mismatch("comparing changed the graph", None, None)
    return repr(case), n


def c_same():
    for s1, s2 in itertools.product(CONF, repeat=2):
        yield ("same", s1, s2)


# ---- a class registered for several types: what new makes is found, and is classified as, an instance ----
def x_twice(case):
    _, mask = case
    w = World([t for i, t in enumerate([(a, TYPE, T1), (a, TYPE, T2), (b, TYPE, I(NS + "T5")), (a, P, b)]) if mask >> i & 1])
    for s in (a, b, x):
        r = Twice.new(w.g, w.R.term(s))
        new = {t for t in w.now() if t not in w.m}
        if not new <= {(s, TYPE, I(NS + "T5")), (s, TYPE, I(NS + "T6"))} or not w.m <= w.now():
            raise Mismatch("new of a class registered for two types", "its type statements", sorted(new, key=repr))
        if not r.is_a() or not isinstance(prdf.Resource.classify(w.g, w.R.term(s)), Twice) or r not in Twice.in_graph(w.g):
            raise Mismatch("a new instance of a class registered for two types is not one", None, repr(w.now()))
        w.m = w.now()
    return repr(mask), 3


def c_twice():
    for mask in range(16):
        yield ("twice", mask)


# ---- classes registered for other types, or given other ones, between the operations ----
COPS = [("register", 0), ("register", 1), ("set", ()), ("set", (0, 1)), ("set", (2,)), ("new", a), ("new", x), ("new", None), ("subclass", None), ("sub new", b)]
CT = [NS + "C0", NS + "C1", NS + "C2"]


def x_classes(case):
    _, seq = case
    K = type(prdf.Resource)("K", (Base,), {})
    w = World([(a, P, b), (I(NS + "c"), TYPE, I(CT[0])), (I(NS + "c"), TYPE, I(CT[1]))])
    S, n = None, 0
    for i, k in enumerate(seq):
        op, arg = COPS[k]
        where = "after %r" % ([COPS[j] for j in seq[:i + 1]],)
        if op == "register":
            prdf.register_class(CT[arg])(K)
            if {str(t) for t in K.rdf_classes} - {CT[arg]} - set(CT) or CT[arg] not in K.rdf_classes:
                raise Mismatch("the types of a class registered for %s %s" % (CT[arg], where), CT[arg], K.rdf_classes)
        elif op == "set":
            K.rdf_classes = frozenset(NamedNode(CT[t]) for t in arg)
        elif op == "subclass":
            S = type(prdf.Resource)("S", (K,), {})
        else:
            cls = S if op == "sub new" else K
            if cls is None:
                continue
            types = {I(str(t)) for t in cls.rdf_classes}
            if arg is None:
                r = cls.new(w.g)
                s = B("fresh%d" % i)
                w.R.nodes[s[1]] = r.subject
            else:
                s = arg
                r = cls.new(w.g, w.R.term(arg))
            w.m |= {(s, TYPE, t) for t in types}
            if type(r) is not cls or r.is_a() is not True:
                raise Mismatch("what new gave " + where, cls, (r, r.is_a()))
        same(w, where)
        for cls in (K, S) if S else (K,):
            types = {I(str(t)) for t in cls.rdf_classes}
            have = set()
            for s in (a, b, x, I(NS + "c")):
                want = all((s, TYPE, t) in w.m for t in types)
                got = cls(w.g, w.R.term(s)).is_a()
                if bool(got) != want:
                    raise Mismatch("is_a of %r for types %r %s" % (s, types, where), want, got)
            have = {s for s, _, _ in w.m if all((s, TYPE, t) in w.m for t in types)}
            if types:
                got = cls.in_graph(w.g)
                if {w.model(r.subject) for r in got} != have or len(got) != len(have) or any(type(r) is not cls for r in got):
                    raise Mismatch("in_graph for types %r %s" % (types, where), have, repr(got))
            n += 1
    return repr(seq), n


def c_classes(depth):
    def gen():
        for k in range(1, depth + 1):
            for seq in itertools.product(range(len(COPS)), repeat=k):
                yield ("classes", seq)
    return gen


# ---- resources kept: asked something, the graph changed with nothing asked in between, asked again ----
KUNI = [(a, TYPE, T1), (a, TYPE, T2), (a, P, L("1")), (b, P, a), (b, TYPE, T1), (x, TYPE, T2), (x, TYPE, T1), (x, Q, a)]
KOPS = [("toggle", i) for i in range(len(KUNI))] + [("swap", i, j) for i, j in ((0, 1), (0, 4), (0, 2), (5, 6), (3, 7), (1, 5))] + [("erase", a), ("erase", x), ("copy", a, b), ("new", "Both", a)]
KASKS = ["is_a", "in_graph", "object_of", "iterate"]


def kask(w, kept, what, where):
    for (cn, s), r in kept.items():
        cls, types = CLASSES[cn]
        if what == "is_a":
            got, want = bool(r.is_a()), all((s, TYPE, t) in w.m for t in types)
        elif what == "in_graph":
            if not types:
                continue
            got = sorted((w.model(z.subject) for z in cls.in_graph(w.g)), key=repr)
            want = sorted({z for z in {t[0] for t in w.m} if all((z, TYPE, t) in w.m for t in types)}, key=repr)
        elif what == "object_of":
            got = sorted(((w.model(z.subject), w.model(p)) for z, p in r.object_of()), key=repr)
            want = sorted(((z, p) for z, p, o in w.m if o == s), key=repr)
            if got == want:
                got = sorted((w.model(z.subject) for z in r.object_of("n:p")), key=repr)
                want = sorted((z for z, p, o in w.m if o == s and p == P), key=repr)
        else:
            got = sorted(((w.model(p), w.model(o)) for p, o in r), key=repr)
            want = sorted(((p, o) for z, p, o in w.m if z == s), key=repr)
        if got != want:
            raise Mismatch("%s of %s(%r) %s" % (what, cn, s, where), want, got)


def x_kept(case):
    _, mask, what, first = case
    n = 0
    for rest in [()] + [(k,) for k in range(len(KOPS))] + [(k, j) for k in range(len(KOPS)) for j in range(8, len(KOPS), 3)]:
        w = World([t for i, t in enumerate(KUNI) if mask >> i & 1])
        kept = {(cn, s): CLASSES[cn][0](w.g, w.R.term(s)) for cn in ("Base", "One", "Both", "Other") for s in (a, b, x)}
        for q in KASKS if what == "all" else [what]:
            kask(w, kept, q, "first")
        ops = [KOPS[k] for k in (first,) + rest]
        for op in ops:
            if op[0] in ("toggle", "swap"):
                for i in op[1:]:
                    t = KUNI[i]
                    (w.g.remove if t in w.m else w.g.add)(w.R.triple(t))
                    w.m ^= {t}
            elif op[0] == "erase":
                kept["Base", op[1]].erase()
                w.m = {t for t in w.m if t[0] != op[1]}
            elif op[0] == "copy":
                kept["Base", op[1]].copy(w.R.term(op[2]))
                w.m |= {(op[2],) + t[1:] for t in w.m if t[0] == op[1]}
            else:
                CLASSES[op[1]][0].new(w.g, w.R.term(op[2]))
                w.m |= {(op[2], TYPE, t) for t in CLASSES[op[1]][1]}
        where = "after %r" % (ops,)
        for q in KASKS if what == "all" else [what] + [z for z in KASKS if z != what]:
            kask(w, kept, q, where)
        same(w, where)
        n += 1
    return repr(case), n


def c_kept(th):
    def gen():
        for mask in range(1 << len(KUNI)):
            if not th and bin(mask).count("1") not in (2, 3, 6):
                continue
            for what in KASKS + ["all"]:
                for first in range(len(KOPS)):
                    if th or what in ("is_a", "all") or (mask + first) % 4 == 0:
                        yield ("kept", mask, what, first)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("confusable subjects", c_conf, x_conf, "every ordered pair of %d subjects, 5 operations" % len(CONF)),
        Space("sameness", c_same, x_same, "every ordered pair of %d subjects under every pair of %d classes and 2 graphs; other kinds of value" % (len(CONF), len(SAMECLASSES))),
        Space("scale", c_scale(th), x_scale, "5 families of graphs of growing size x 7 operations, with in_graph and object_of after each"),
        Space("several types", c_twice, x_twice, "all subsets of 4 statements, a class registered for two types"),
        Space("changing classes", c_classes(5 if th else 4), x_classes, "every history of %d of %d registrations, changes of a class's types, subclasses and new, with is_a and in_graph after each" % (5 if th else 4, len(COPS))),
        Space("kept resources", c_kept(th), x_kept, "resources of 4 classes kept and asked, 1 to 3 of %d changes with nothing asked between, asked again" % len(KOPS)),
        Space("every graph", c_every(10 if th else 8), x_every, "every graph over %d statements, every operation" % (10 if th else 8)),
        Space("histories", c_hist(4 if th else 3), x_hist, "all histories of <= %d operations from %d start graphs" % (4 if th else 3, len(STARTS)), limit_s=300),
    ]
