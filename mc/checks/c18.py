"""C18: classification depends only on a resource's types and the registered classes."""
import itertools

from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..rdfmodel import RDF
import pymantic.rdf as prdf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple

LEVEL = "model_checking"
TECHNIQUE = "exhaustive registration/classification histories on the real class registry against a function of (types, registered classes)"
RULE = ("every ordered choice of registrations out of a family with derived, shared, many-typed and replaced classes, with every kind of "
        "classification between any two of them, then every set of types in two statement orders and beside types of every kind that nothing is registered for; every access path that classifies")
ASSUMPTIONS = ["of two classes registered for one type the later counts", "where two classes bind one prefix differently either binding may win",
               "the Python classes of a resource's types have a common linearisation"]

TYPE, LABEL = RDF + "type", "http://www.w3.org/2000/01/rdf-schema#label"
SK = "http://www.w3.org/2004/02/skos/core#"
counter = itertools.count()


class Family:
    """Fresh classes and type IRIs, so that no case sees another one's registrations."""

    def __init__(self):
        reg = getattr(prdf.MetaResource, "_classes", None)
        if isinstance(reg, dict) and len(reg) > 400:  # only bounds memory
            for k in list(reg)[50:]:
                reg.pop(k, None)
        self.ns = ns = "http://e/%d/" % next(counter)
        R = prdf.Resource
        self.T = ["%sT%d" % (ns, i) for i in range(4)]

        class Mixin(R):
            prefixes = {"m": ns + "m/"}
            scalars = frozenset(("m:s",))

        class A(R):
            prefixes = {"a": ns + "a/", "x": ns + "xa/"}
            scalars = frozenset(("a:s",))

        class B(R):
            prefixes = {"b": ns + "b/", "x": ns + "xb/"}
            scalars = frozenset(("b:s", "x:s"))

        class SubA(A):
            prefixes = {"sa": ns + "sa/"}

        class Wide(Mixin):
            scalars = frozenset((ns + "wide",))

        class A2(R):
            prefixes = {"a": ns + "a2/"}
            scalars = frozenset(("a:t",))

        A2.__name__, A2.__qualname__, A2.__module__ = A.__name__, A.__qualname__, A.__module__  # like a module loaded again

        class Plain:  # no resource
            def who(self):
                return self.subject

        class Two(SubA, Mixin, Plain):
            pass

        self.classes = dict(A=A, B=B, SubA=SubA, Wide=Wide, A2=A2, Two=Two)
        base = {"rdf": {RDF}, "rdfs": {"http://www.w3.org/2000/01/rdf-schema#"}}
        s0 = {LABEL}
        self.prefixes = {
            "A": {"a": ns + "a/", "x": ns + "xa/"}, "B": {"b": ns + "b/", "x": ns + "xb/"}, "SubA": {"a": ns + "a/", "x": ns + "xa/", "sa": ns + "sa/"},
            "Wide": {"m": ns + "m/"}, "A2": {"a": ns + "a2/"}, "Two": {"a": ns + "a/", "x": ns + "xa/", "sa": ns + "sa/", "m": ns + "m/"}}
        self.scalars = {
            "A": {ns + "a/s"}, "B": {ns + "b/s", ns + "xb/s"}, "SubA": {ns + "a/s"}, "Wide": {ns + "m/s", ns + "wide"}, "A2": {ns + "a2/t"}, "Two": {ns + "a/s", ns + "m/s"}}
        self.reg = {}
        self.base_prefixes, self.base_scalars = base, s0

    def register(self, name, ti):
        c = self.classes[name]
        r = prdf.register_class(self.T[ti])(c)
        if r is not c:
            raise Mismatch("register_class did not give back the class", c, r)
        self.reg[ti] = name

    def expected(self, types):
        return {self.reg[i] for i in types if i in self.reg}

    def check(self, res, types, where, graph, subject):
        want = self.expected(types)
        cl = self.classes
        if not isinstance(res, prdf.Resource):
            raise Mismatch(where + ": not a Resource", want or "Resource", repr(res))
        if res.subject != subject or res.graph is not graph:
            raise Mismatch(where + ": another subject or graph", subject, repr(res))
        if not want and type(res) is not prdf.Resource:
            raise Mismatch(where, "a plain Resource", type(res))
        if len(want) == 1 and type(res) is not cl[next(iter(want))]:
            raise Mismatch(where, want, type(res).__mro__)
        got = {n for n in cl if isinstance(res, cl[n])}
        exp = {n for n in cl if any(issubclass(cl[w], cl[n]) for w in want)}
        if got != exp:
            raise Mismatch(where + ": instance of", sorted(exp), sorted(got))
        pre = {}
        for w in want:
            for k, v in self.prefixes[w].items():
                pre.setdefault(k, set()).add(v)
        pre.update(self.base_prefixes)
        for k, vs in pre.items():
            r = attempt(res.resolve, k + ":z")
            if r[0] == "exc" or r[1] not in {v + "z" for v in vs}:
                raise Mismatch(where + ": prefix %s" % k, vs, r)
        for k in ("a", "b", "x", "sa", "m"):
            if k not in pre and attempt(res.resolve, k + ":z")[0] == "ok":
                raise Mismatch(where + ": knows prefix %s of a class it does not have" % k, sorted(pre), repr(res.resolve(k + ":z")))
        sc = set(self.base_scalars).union(*[self.scalars[w] for w in want])
        if set(res.scalars) != sc:
            raise Mismatch(where + ": scalars", sorted(sc), sorted(res.scalars))


SETS = [s for n in range(5) for s in itertools.combinations(range(4), n)]
REGS = [("A", 0), ("B", 1), ("SubA", 2), ("A", 1), ("Wide", 3), ("A2", 0), ("Two", 3)]


def make_graph(fam, order):
    g = Graph()
    nodes = {}
    for k, s in enumerate(SETS):
        n = NamedNode(fam.ns + "n%d" % k) if k % 2 else BlankNode()
        nodes[s] = n
        for i in (s if order == 0 else s[::-1]):
            g.add(Triple(n, NamedNode(TYPE), NamedNode(fam.T[i])))
        g.add(Triple(n, NamedNode(fam.ns + "p"), Literal("x")))
        if order == 2:  # what does not count: types nothing is registered for, of every kind, and type IRIs in other places
            rest = [i for i in range(4) if i not in s]
            for o in [BlankNode(), BlankNode(), Literal("T"), Literal("T", "en"), Literal("T", datatype=NamedNode(fam.T[0])), NamedNode(fam.ns + "T"), NamedNode(fam.ns + "T00"), n] + [Literal(fam.T[i]) for i in rest]:
                g.add(Triple(n, NamedNode(TYPE), o))
            for i in rest:
                g.add(Triple(n, NamedNode(TYPE + "s"), NamedNode(fam.T[i])))
                g.add(Triple(NamedNode(fam.T[i]), NamedNode(TYPE), n))
            for i in s:
                for j in rest:
                    g.add(Triple(NamedNode(fam.T[i]), NamedNode("http://www.w3.org/2000/01/rdf-schema#subClassOf"), NamedNode(fam.T[j])))
    return g, nodes


def linear(fam, s):
    """does the set of classes have a linearisation at all"""
    cs = [fam.classes[n] for n in fam.expected(s)]
    if len(cs) < 2:
        return True
    for perm in itertools.permutations(cs):
        try:
            type("x", perm, {}) if False else mro(perm)
            return True
        except TypeError:
            pass
    return False


def mro(bases):
    class M(type):
        pass
    seqs = [list(b.__mro__) for b in bases] + [list(bases)]
    out = []
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            if not any(s[0] in t[1:] for t in seqs):
                c = s[0]
                break
        else:
            raise TypeError
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]
    return out


def classify_all(fam, g, nodes, sets, tag):
    n = 0
    for s in sets:
        if not linear(fam, s):
            continue
        r = attempt(prdf.Resource.classify, g, nodes[s])
        where = "%s: classify of types %r with registered %r" % (tag, s, sorted(fam.reg.items()))
        if r[0] == "exc":
            raise Mismatch(where + " raised", "a resource", repr(r[1]))
        fam.check(r[1], s, where, g, nodes[s])
        n += 1
    return n


BETWEEN = {"nothing": [], "all": SETS, "reversed": SETS[::-1], "pairs": [(0, 1), (0, 2), (1, 3)], "full": [(0, 1, 2, 3)]}


def x_hist(case):
    _, regs, betweens = case
    n = 0
    for bw in betweens:
        for order in (0, 1, 2):
            fam = Family()
            g, nodes = make_graph(fam, order)
            tag = "registrations %r, classified between them: %r" % ([REGS[i] for i in regs], bw)
            for k, ri in enumerate(regs):
                n += classify_all(fam, g, nodes, BETWEEN[bw[k]], tag)
                fam.register(*REGS[ri])
            n += classify_all(fam, g, nodes, SETS if order == 0 else SETS[::-1], tag)
    return repr(regs), n


def c_hist(k, names):
    def gen():
        for m in range(k + 1):
            for regs in itertools.permutations(range(len(REGS)), m):
                for b in batches(itertools.product(names, repeat=m), 50):
                    yield ("hist", regs, b)
    return gen


# ---- every access that classifies ----
def paths(fam, g, node, types):
    """(name, thunk -> resource) for each way to get at node"""
    ns = fam.ns
    holder = prdf.Resource(g, ns + "holder")
    A = fam.classes["A"]
    p = NamedNode(ns + "to")
    g.add(Triple(holder.subject, p, node))
    g.add(Triple(holder.subject, NamedNode(RDF + "first"), node))
    g.add(Triple(holder.subject, NamedNode(RDF + "rest"), NamedNode(RDF + "nil")))

    class S(prdf.Resource):
        scalars = frozenset((ns + "to",))
    hs = S(g, ns + "holder")
    return [
        ("A.classify", lambda: A.classify(g, node)),
        ("instance classify", lambda: holder.classify(g, node)),
        ("reading", lambda: next(iter(holder[p]))),
        ("reading with None", lambda: next(iter(holder[p, None]))),
        ("reading with a language", lambda: next(iter(holder[p, "en"]))),
        ("reading by class", lambda: next(iter(holder[p, prdf.Resource]))),
        ("reading a scalar", lambda: hs[p]),
        ("get_scalar", lambda: holder.get_scalar(p)),
        ("list iteration", lambda: next(iter(prdf.List(g, ns + "holder")))),
        ("copy", lambda: prdf.Resource(g, node).copy(BlankNode() if isinstance(node, BlankNode) else NamedNode(ns + "copy"))),
        ("object_of", lambda: object_of(g, node, ns)),
    ]


def object_of(g, node, ns):
    v = NamedNode(ns + "v")
    g.add(Triple(node, NamedNode(ns + "q"), v))
    x = list(prdf.Resource(g, v).object_of(NamedNode(ns + "q")))
    g.remove(Triple(node, NamedNode(ns + "q"), v))
    return x[0][0] if isinstance(x[0], tuple) else x[0]


def x_paths(case):
    _, regs, s, order = case
    fam = Family()
    for ri in regs:
        fam.register(*REGS[ri])
    g, nodes = make_graph(fam, order)
    node = nodes[s]
    n = 0
    for name, f in paths(fam, g, node, s):
        r = attempt(f)
        where = "%s of types %r with registered %r" % (name, s, sorted(fam.reg.items()))
        if r[0] == "exc":
            raise Mismatch(where + " raised", "a resource", repr(r[1]))
        fam.check(r[1], s, where, g, r[1].subject if name == "copy" else node)
        if name == "copy" and (r[1].subject == node or isinstance(r[1].subject, BlankNode) != isinstance(node, BlankNode)):
            raise Mismatch("copy: subject", "the copy", r[1])
        n += 1
    for l in (Literal("x"), Literal("x", "en"), Literal("1", None, NamedNode("http://www.w3.org/2001/XMLSchema#integer"))):
        if prdf.Resource.classify(g, l) != l or type(prdf.Resource.classify(g, l)) is not Literal:
            raise Mismatch("classify of a literal", l, prdf.Resource.classify(g, l))
    return repr((regs, s, order)), n


def c_paths():
    for m in range(4):
        for regs in itertools.combinations(range(len(REGS)), m):
            fam = None
            for s in SETS:
                if {0, 3} <= set(regs) and False:
                    continue
                for order in (0, 1, 2):
                    yield ("paths", regs, s, order)


# ---- classes defined below others: prefixes and scalars are merged, nearest first ----
def x_merge(case):
    _, shape, decl = case
    ns = "http://m/%d/" % next(counter)
    R = prdf.Resource

    def mk(name, bases, d):
        dct = {}
        if d & 1:
            dct["prefixes"] = {"p": ns + name + "/p/"}
        if d & 2:
            dct["prefixes"] = dict(dct.get("prefixes", {}), **{name: ns + name + "/own/"})
            dct["scalars"] = frozenset((name + ":s",))
        return type(R)(name, bases, dct)
    class N:
        def plain(self):
            return "plain"
    classes = {"R": R, "M": type("M", (), {"attr": 1}), "N": N, "O": type("O", (object,), {})}
    nothing = ({}, set())
    model = {"M": nothing, "N": nothing, "O": nothing, "R": ({"rdf": RDF, "rdfs": "http://www.w3.org/2000/01/rdf-schema#"}, {LABEL})}
    for (name, bases), d in zip(shape, decl):
        classes[name] = mk(name, tuple(classes[b] for b in bases), d)
        pre, sc = {}, set()
        for b in bases:
            for k, v in model[b][0].items():
                pre.setdefault(k, set()).update(v if isinstance(v, set) else {v})
            sc |= model[b][1]
        if d & 1:
            pre["p"] = {ns + name + "/p/"}
        if d & 2:
            pre[name] = {ns + name + "/own/"}
            sc.add(ns + name + "/own/s")
        model[name] = (pre, sc)
        for c in sorted(set(classes) - {"M", "N", "O"}):  # defining a class leaves the others alone
            got_p, got_s = dict(classes[c].prefixes), set(classes[c].scalars)
            wp, ws = model[c]
            if set(got_p) != set(wp) or any(str(got_p[k]) not in (wp[k] if isinstance(wp[k], set) else {wp[k]}) and got_p[k]("") not in (wp[k] if isinstance(wp[k], set) else {wp[k]}) for k in wp):
                raise Mismatch("prefixes of %s after defining %s in %r" % (c, name, (shape, decl)), wp, got_p)
            if got_s != ws:
                raise Mismatch("scalars of %s after defining %s in %r" % (c, name, (shape, decl)), ws, got_s)
    return repr((shape, decl)), len(shape)


SHAPES = [
    [("a", ("R",)), ("b", ("R",)), ("c", ("a", "b"))],
    [("a", ("R",)), ("b", ("a",)), ("c", ("b",))],
    [("a", ("R",)), ("b", ("a",)), ("c", ("a",)), ("d", ("b", "c"))],
    [("a", ("R",)), ("b", ("R",)), ("c", ("b", "a")), ("d", ("c",))],
    # M and N: Python classes that are no resources
    [("a", ("R", "M")), ("b", ("M", "R")), ("c", ("a", "N"))],
    [("a", ("N", "M", "R")), ("b", ("a",)), ("c", ("b", "O"))],
    [("a", ("M", "R")), ("b", ("R",)), ("c", ("N", "a", "b"))],
]


def c_merge():
    for sh in SHAPES:
        for decl in itertools.product(range(4), repeat=len(sh)):
            yield ("merge", sh, decl)


# ---- types that change, in graphs that keep their size ----
CREGS = [(0, 1, 2, 4), (0, 1), (2, 1, 5), (0, 1, 2, 6)]


def x_change(case):
    _, regs, s0, depth, mirrored = case
    n = 0
    for rest in itertools.product(SETS, repeat=depth):
        fam = Family()
        for ri in regs:
            fam.register(*REGS[ri])
        g = Graph()
        holder, to = prdf.Resource(g, fam.ns + "h"), NamedNode(fam.ns + "to")
        a, b = NamedNode(fam.ns + "a"), BlankNode()
        now = {a: set(), b: set()}
        for x in now:
            g.add(Triple(holder.subject, to, x))
        seq = (s0,) + rest
        for i, s in enumerate(seq):
            for x, types in ((a, set(s)), (b, set(range(4)) - set(s) if mirrored else set(s0))):
                for t in sorted(now[x] - types):
                    g.remove(Triple(x, NamedNode(TYPE), NamedNode(fam.T[t])))
                for t in sorted(types - now[x]):
                    g.add(Triple(x, NamedNode(TYPE), NamedNode(fam.T[t])))
                now[x] = types
            where = "types %r in turn, registered %r" % (seq[:i + 1], sorted(fam.reg.items()))
            read = attempt(lambda: {x.subject: x for x in holder[to]}) if all(linear(fam, tuple(sorted(now[x]))) for x in now) else None
            if read is not None and read[0] == "exc":
                raise Mismatch(where + ": reading raised", "resources", repr(read[1]))
            for x in now:
                types = tuple(sorted(now[x]))
                if linear(fam, types):
                    r = attempt(prdf.Resource.classify, g, x)
                    if r[0] == "exc":
                        raise Mismatch(where + ": classify raised", "a resource", repr(r[1]))
                    fam.check(r[1], types, where, g, x)
                    if read is not None:
                        fam.check(read[1].get(x), types, where + ", reading", g, x)
                    n += 1
    return repr(case), n


def c_change(depth):
    def gen():
        for regs in CREGS:
            for s0 in SETS:
                for mirrored in (True, False):
                    yield ("change", regs, s0, depth, mirrored)
    return gen


# ---- one node with different types in different graphs, among foreign types ----
def x_graphs(case):
    _, regs, pad, keep, depth, s0 = case
    n = 0
    foreign = [NamedNode("http://foreign/%d" % i) for i in range(pad)]
    for rest in itertools.product(SETS, repeat=depth):
        fam = Family()
        for ri in regs:
            fam.register(*REGS[ri])
        a, b = NamedNode(fam.ns + "a"), BlankNode()
        made = []
        for s in (s0,) + rest:
            if keep or not made:
                g = Graph()
            else:
                g = made[0][0]
                g.removeMatches(None, None, None)
                made = []
            for x, types in ((a, s), (b, s0)):
                for t in [NamedNode(fam.T[t]) for t in types] + foreign:
                    g.add(Triple(x, NamedNode(TYPE), t))
            made.append((g, s))
            for h, types in made + made[:1]:
                for x, ts in ((a, types), (b, s0)):
                    ts = tuple(sorted(ts))
                    if linear(fam, ts):
                        where = "types %r and %d foreign ones, %d graphs, registered %r" % (ts, pad, len(made), sorted(fam.reg.items()))
                        r = attempt(prdf.Resource.classify, h, x)
                        if r[0] == "exc":
                            raise Mismatch(where + ": classify raised", "a resource", repr(r[1]))
                        fam.check(r[1], ts, where, h, x)
                        n += 1
    return repr(case), n


def c_graphs(depth):
    def gen():
        for regs in CREGS:
            for pad in (0, 1, 2, 3, 4, 5, 6, 10, 40):
                for keep in (True, False):
                    for s0 in SETS:
                        yield ("graphs", regs, pad, keep, depth, s0)
    return gen


# ---- many classes, many types, many combinations ----
def x_scale(case):
    _, n, order = case
    ns = "http://s/%d/" % next(counter)
    R = prdf.Resource
    reg = getattr(prdf.MetaResource, "_classes", None)
    if isinstance(reg, dict) and len(reg) > 2000:  # only bounds memory
        for k in list(reg)[50:]:
            reg.pop(k, None)
    cl = []
    for i in range(n):
        cl.append(type(R)("C%d" % i, (R,), {"prefixes": {"p%d" % i: ns + "p%d/" % i}, "scalars": frozenset(("p%d:s" % i,))}))
    g = Graph()
    done = 0

    def check(node, have, where):
        r = attempt(R.classify, g, node)
        if r[0] == "exc":
            raise Mismatch(where, "a resource", repr(r[1]))
        r = r[1]
        got = {i for i in range(n) if isinstance(r, cl[i])}
        if got != set(have):
            raise Mismatch(where + ": instance of", sorted(have), sorted(got))
        if len(have) == 1 and type(r) is not cl[have[0]] or not have and type(r) is not R:
            raise Mismatch(where, have, type(r))
        if set(r.scalars) != {LABEL} | {ns + "p%d/s" % i for i in have} or set(r.prefixes) != {"rdf", "rdfs"} | {"p%d" % i for i in have}:
            raise Mismatch(where + ": prefixes and scalars", have, (sorted(r.prefixes), sorted(r.scalars)))

    def node(name, have):
        nd = NamedNode(ns + name)
        for i in have if order == 0 else have[::-1]:
            g.add(Triple(nd, NamedNode(TYPE), NamedNode(ns + "T%d" % i)))
        for i in range(order * n):
            g.add(Triple(nd, NamedNode(TYPE), NamedNode(ns + "foreign%d" % i)))
        return nd
    # every class alone, every neighbouring pair, every prefix of all classes, before and after the registrations
    want = [("one%d" % i, [i]) for i in range(n)] + [("two%d" % i, [i, (i + 1) % n]) for i in range(n) if n > 1] + [("to%d" % i, list(range(i))) for i in range(n + 1)]
    nodes = [(node(*w), w[1]) for w in want]
    for i in range(n):
        prdf.register_class(ns + "T%d" % i)(cl[i])
        for nd, have in nodes[i::max(1, n // 4)] if order else ():
            check(nd, sorted(set(have) & set(range(i + 1))), "after %d of %d registrations, types %r" % (i + 1, n, have))
            done += 1
    for _ in range(2):
        for nd, have in nodes:
            check(nd, sorted(have), "%d classes registered, types %r" % (n, have))
            done += 1
    return "scale %r" % (case[1:],), done


def c_scale(top):
    def gen():
        for n in range(1, top + 1):
            for order in (0, 1):
                yield ("scale", n, order)
    return gen


# ---- the vocabulary that comes with the package ----
def x_skos(case):
    _, types, order = case
    import pymantic.vocab.skos as skos
    cl = {SK + "Concept": skos.Concept, SK + "ConceptScheme": skos.ConceptScheme}
    g = Graph()
    n = NamedNode("http://e/c")
    for t in types if order else types[::-1]:
        g.add(Triple(n, NamedNode(TYPE), NamedNode(t)))
    res = prdf.Resource.classify(g, n)
    want = {cl[t] for t in types if t in cl}
    for c in cl.values():
        if isinstance(res, c) != (c in want):
            raise Mismatch("SKOS class of %r" % (types,), want, type(res).__mro__)
    if len(want) == 1 and type(res) not in want or not want and type(res) is not prdf.Resource:
        raise Mismatch("SKOS class of %r" % (types,), want, type(res).__mro__)
    if want:
        res["skos:prefLabel"] = "a"
        if res["skos:prefLabel"] != Literal("a", "en") or set(g.match(n, NamedNode(SK + "prefLabel"), None)) != {Triple(n, NamedNode(SK + "prefLabel"), Literal("a", "en"))}:
            raise Mismatch("SKOS prefix and scalar", Literal("a", "en"), list(g))
    new = skos.Concept.new(g, "http://e/new")
    if not new.is_a() or type(prdf.Resource.classify(g, new.subject)) is not skos.Concept:
        raise Mismatch("a new Concept", skos.Concept, list(g))
    return repr(case), 2


def c_skos():
    T = [SK + "Concept", SK + "ConceptScheme", "http://e/Other"]
    for k in range(4):
        for ts in itertools.combinations(T, k):
            for order in (0, 1):
                yield ("skos", ts, order)


def spaces(tier):
    th = tier == "thorough"
    b = tuple(BETWEEN) if th else ("nothing", "all", "pairs")
    return [
        Space("vocabulary", c_skos, x_skos, "all subsets of the SKOS types and a foreign type"),
        Space("class definitions", c_merge, x_merge, "%d inheritance shapes x all declarations" % len(SHAPES)),
        Space("access paths", c_paths, x_paths, "all sets of <= 3 of %d registrations x all 16 type sets x both orders, and other types beside them, x 11 ways of access" % len(REGS)),
        Space("changing types", c_change(3 if th else 2), x_change, "%d sets of registrations x every sequence of %d type sets of one resource, with another one that mirrors it or stays" % (len(CREGS), 4 if th else 3)),
        Space("several graphs", c_graphs(2 if th else 1), x_graphs, "%d sets of registrations x every sequence of %d type sets of one node in as many graphs, or one emptied between, x up to 40 foreign types" % (len(CREGS), 3 if th else 2)),
        Space("scale", c_scale(80 if th else 48), x_scale, "1..%d registered classes x every class, every neighbouring pair and every first i classes as types" % (80 if th else 48)),
        Space("histories", c_hist(4 if th else 3, b), x_hist, "all orders of <= %d of %d registrations x what is classified between them (%s)" % (4 if th else 3, len(REGS), ", ".join(b)), limit_s=120),
    ]
