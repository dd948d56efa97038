"""C17: resource operations touch only their own statements, or nothing at all if refused."""
import itertools

from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..rescheck import BADV, C1, C2, EX, FILTERS, NOTYPE, OBJS, SEQS, SINGLE, En, Fr, Open, Refuse, Scene, assign, prdf
from ..rdfmodel import RDF, B, I, L
from pymantic.primitives import Graph, Literal, NamedNode

LEVEL = "model_checking"
TECHNIQUE = "exhaustive object sets x keys x operations x values on the real Resource, the whole graph compared before and after each"
RULE = ("every set of up to k objects with bystander statements sharing the subject, the predicate or the objects; every assignment and "
        "deletion (accepted, refused, malformed): statements off (subject, predicate) must be untouched, all of them if it raised; every "
        "question and every combination of two questions: the graph and its listings must be identical")
ASSUMPTIONS = ["the name of a predicate is a CURIE, an IRI or a NamedNode", "which values are refused is decided by C16; here a refusal must leave everything as it was"]

LABEL = "http://www.w3.org/2000/01/rdf-schema#label"


def snap(sc):
    g = sc.g
    return (frozenset(g), len(g), frozenset(g.subjects()), frozenset(g.predicates()), frozenset(g.objects()))


def diff(a, b):
    return "only before: %r; only after: %r" % (sorted(map(repr, a[0] - b[0])), sorted(map(repr, b[0] - a[0])))


def confined(sc, before, what, raised):
    now = snap(sc)
    if raised:
        if now != before:
            raise Mismatch(what + " raised %r but changed the graph" % raised, "the graph as before", diff(before, now))
        return
    s, p = sc.R.term(sc.subj), sc.R.term(sc.pred)
    for t in now[0] ^ before[0]:
        if t.subject != s or t.predicate != p:
            raise Mismatch(what + " touched another statement", "changes under %r %r only" % (sc.subj, sc.pred), diff(before, now))
    if now[1] != len(now[0]) or now[2] != {t.subject for t in now[0]} or now[3] != {t.predicate for t in now[0]} or now[4] != {t.object for t in now[0]}:
        raise Mismatch(what + ": the graph's listings disagree with its statements", now[0], now[1:])


def other_graph(sc):
    g2 = Graph()
    for t in list(sc.g):
        g2.add(t)
    return g2


def x_write(case):
    _, batch, rclass, subject = case
    n = 0
    for ix in batch:
        objs = [OBJS[i] for i in ix]
        for scalar in (False, True):
            ops = [("del", f, None) for f in FILTERS] + [("set", f, v) for f in FILTERS for v in SINGLE + SEQS + BADV]
            sc = None
            for kind, flt, v in ops:
                if sc is None:
                    sc = Scene(objs, scalar, rclass, subject)
                    before = snap(sc)
                    g2 = other_graph(sc)
                    g2before = frozenset(g2)
                key = sc.key(flt, n % 4)
                n += 1
                what = "%s[%r]%s with objects %r" % (rclass, key, "" if kind == "del" else " = %r" % (v,), objs)
                must = False
                if kind == "set":
                    try:
                        assign(objs, scalar, flt, sc.lang, v)
                    except Refuse:
                        must = True
                    except Open:
                        pass
                    val = sc.value(v)
                    r = attempt(sc.res.__setitem__, key, val)
                else:
                    r = attempt(sc.res.__delitem__, key)
                if must and r[0] == "ok":
                    raise Mismatch(what + " was not refused", "an exception", diff(before, snap(sc)))
                confined(sc, before, what, r[0] == "exc" and repr(r[1]))
                if frozenset(g2) != g2before:
                    raise Mismatch(what + " changed another graph")
                if r[0] == "ok":
                    sc = None
    return [repr((ix, rclass, subject)) for ix in batch], n


def subsets(k):
    for n in range(k + 1):
        yield from itertools.combinations(range(len(OBJS)), n)


def c_sets(tag, k, k2, size=4):
    def gen():
        for b in batches(subsets(k), size):
            yield (tag, b, "En", "I")
        for b in batches(subsets(k2), size):
            yield (tag, b, "Fr", "B")
    return gen


# ---- questions ----
def questions():
    out = []
    for flt in FILTERS:
        out.append(("get %r" % (flt,), lambda sc, flt=flt: drain(sc.res[sc.key(flt)])))
        out.append(("in %r" % (flt,), lambda sc, flt=flt: sc.key(flt) in sc.res))
        out.append(("get_scalar %r" % (flt,), lambda sc, flt=flt: sc.res.get_scalar(sc.key(flt))))
    out += [
        ("get-one of two", lambda sc: next(iter(sc.res[(sc.name, None)]), None)),
        ("iter", lambda sc: list(sc.res)),
        ("iter-part", lambda sc: next(iter(sc.res), None)),
        ("repr", lambda sc: repr(sc.res)),
        ("str", lambda sc: str(sc.res)),
        ("format", lambda sc: "%s %r" % (sc.res, sc.res)),
        ("eq", lambda sc: (sc.res == sc.res, sc.res == En(sc.g, EX + "s2"), sc.res == EX + "s", sc.res != NamedNode(EX + "s"), sc.res == 5)),
        ("hash", lambda sc: {sc.res: 1, En(sc.g, EX + "s2"): 2}),
        ("bool", lambda sc: bool(sc.res)),
        ("is_a", lambda sc: (sc.res.is_a(), C1(sc.g, EX + "r1").is_a(), C2(sc.g, EX + "r1").is_a())),
        ("in_graph", lambda sc: (C1.in_graph(sc.g), C2.in_graph(sc.g), En.in_graph(sc.g), prdf.Resource.in_graph(sc.g))),
        ("object_of", lambda sc: list(sc.res.object_of())),
        ("object_of p", lambda sc: list(sc.res.object_of("ex:one"))),
        ("object_of absent", lambda sc: list(sc.res.object_of("ex:never"))),
        ("absent", lambda sc: (list(sc.res["ex:never"]), "ex:never" in sc.res, sc.res["ex:never", "en"] and None)),
        ("absent subject", lambda sc: (list(En(sc.g, EX + "nobody")["ex:many"]), "ex:one" in En(sc.g, EX + "nobody"), str(En(sc.g, EX + "nobody")))),
        ("classify", lambda sc: [prdf.Resource.classify(sc.g, sc.R.term(o)) for o in (I(EX + "r1"), B("r12"), NOTYPE, I(EX + "nobody"), L("x"), sc.subj)]),
        ("as_", lambda sc: sc.res.as_(Fr)["ex:one"]),
        ("as_ list", lambda sc: sc.res.as_(prdf.List)),
        ("is_list", lambda sc: (prdf.List.is_list(sc.R.term(sc.subj), sc.g), prdf.List.is_list(NamedNode(RDF + "nil"), sc.g))),
        ("list", lambda sc: list(prdf.List(sc.g, RDF + "nil"))),
        ("by_lang", lambda sc: sc.res.objects_by_lang(sc.R.term(sc.pred), "en")),
        ("by_lang none", lambda sc: sc.res.objects_by_lang(sc.R.term(sc.pred))),
        ("by_datatype", lambda sc: sc.res.objects_by_datatype(sc.R.term(sc.pred))),
        ("by_type", lambda sc: (sc.res.objects_by_type(sc.R.term(sc.pred)), sc.res.objects_by_type(sc.R.term(sc.pred), C1))),
        ("objects", lambda sc: sc.res.objects(sc.R.term(sc.pred))),
        ("plain", lambda sc: (sc.res.bare_literals(sc.R.term(sc.pred)), sc.res.plain_literals(sc.R.term(sc.pred)))),
        ("bad keys", lambda sc: [attempt(f, k)[0] for k in BADKEYS for f in (sc.res.__getitem__, sc.res.__contains__, sc.res.get_scalar, sc.res.__delitem__)]),
    ]
    return out


BADKEYS = ["nope:x", "[nope:x]", ("nope:x", "en"), ("nope:x", None), ("nope:x", C1), "", ":"]
QUESTIONS = questions()


def drain(x):
    return x if x is None or isinstance(x, (prdf.Resource, Literal)) else list(x)


def x_ask(case):
    _, batch, rclass, subject = case
    n = 0
    for ix in batch:
        objs = [OBJS[i] for i in ix]
        for scalar in (False, True):
            sc = Scene(objs, scalar, rclass, subject)
            before = snap(sc)
            for name, f in QUESTIONS:
                attempt(f, sc)
                n += 1
                if snap(sc) != before:
                    raise Mismatch("%s changed the graph: %s with objects %r" % (name, rclass, objs), "no change", diff(before, snap(sc)))
    return [repr((ix, rclass, subject)) for ix in batch], n


# ---- refused because of the key ----
def x_badkey(case):
    _, ki, vi, rclass, scalar = case
    sc = Scene([L("a", "en"), I(EX + "r1"), L("1")], scalar, rclass, "I")
    before = snap(sc)
    key, v = BADKEYS[ki], (SINGLE + SEQS + BADV)[vi]
    bad = not (rclass == "Fr" and key in ("", ":"))   # Fr has a default prefix
    r = attempt(sc.res.__setitem__, key, sc.value(v))
    if r[0] == "ok" and bad and key not in ("", ":"):
        raise Mismatch("assignment under %r was not refused" % (key,), "an exception", diff(before, snap(sc)))
    if r[0] == "exc" and snap(sc) != before:
        raise Mismatch("assignment under %r raised %r but changed the graph" % (key, r[1]), "no change", diff(before, snap(sc)))
    if r[0] == "ok":
        for t in snap(sc)[0] ^ before[0]:
            if t.subject != sc.R.term(sc.subj) or t.predicate != (EX + "d/"):
                raise Mismatch("assignment under %r touched another statement" % (key,), None, diff(before, snap(sc)))
    return repr(case), 1


def c_badkey():
    for ki in range(len(BADKEYS)):
        for vi in range(len(SINGLE + SEQS + BADV)):
            for rclass in ("En", "Fr"):
                for scalar in (False, True):
                    yield ("badkey", ki, vi, rclass, scalar)


# ---- sequences with one bad element in every position ----
GOOD = [("str", "v"), ("term", L("v", "en")), ("term", I(EX + "r1")), ("res", B("r12")), ("int", 7)]
BAD = [("bad", "None"), ("bad", "object"), ("bad", "dict"), ("bad", "bytes"), ("term", L("v", "de")), ("term", L("v", None, EX + "other")), ("term", NOTYPE)]


def c_mixed(n):
    def gen():
        for flt in range(len(FILTERS)):
            for scalar in (False, True):
                for m in range(1, n + 1):
                    for good in itertools.product(range(len(GOOD)), repeat=m - 1):
                        yield ("mixed", flt, scalar, good)
    return gen


def x_mixed(case):
    _, fi, scalar, good = case
    n = 0
    objs = [L("a", "en"), L("a", "fr"), L("a"), L("1", None, "http://www.w3.org/2001/XMLSchema#integer"), I(EX + "r1"), B("r12")]
    flt = FILTERS[fi]
    for b in BAD:
        for pos in range(len(good) + 1):
            for kind in ("list", "tuple", "set"):
                vals = [GOOD[i] for i in good[:pos]] + [b] + [GOOD[i] for i in good[pos:]]
                if kind == "set" and b == ("bad", "dict"):
                    continue
                v = ("seq", kind, tuple(vals))
                sc = Scene(objs, scalar)
                before = snap(sc)
                must = False
                try:
                    assign(objs, scalar, flt, sc.lang, v)
                except Refuse:
                    must = True
                except Open:
                    pass
                r = attempt(sc.res.__setitem__, sc.key(flt), sc.value(v))
                n += 1
                what = "En[%r] = %r" % (sc.key(flt), v)
                if must and r[0] == "ok":
                    raise Mismatch(what + " was not refused", "an exception", diff(before, snap(sc)))
                confined(sc, before, what, r[0] == "exc" and repr(r[1]))
    return repr(case), n


# ---- histories through several resources over one graph ----
HOPS = [("set", "s", ("implicit",), ("str", "v")), ("set", "s", ("lang", "fr"), ("term", L("w", "fr"))), ("set", "s", ("none",), ("seq", "list", (("str", "x"), ("res", I(EX + "r1"))))),
        ("set", "s", ("implicit",), ("bad", "None")), ("set", "s", ("lang", "en"), ("term", L("v", "de"))), ("set", "s", ("cls", "C1"), ("res", I(EX + "r1"))),
        ("set", "t", ("implicit",), ("int", 3)), ("set", "t", ("bare",), ("str", "b")), ("del", "s", ("implicit",), None), ("del", "s", ("lang", "en"), None), ("del", "t", ("none",), None), ("del", "s", ("cls", "Resource"), None)]


def x_hist(case):
    _, scalar, first, depth = case
    n = 0
    keys = set()
    start = [L("a", "en"), L("a", "fr"), L("a"), I(EX + "r1"), B("r12")]
    for rest in itertools.product(range(len(HOPS)), repeat=depth - 1):
        sc = Scene(start, scalar)
        other = En(sc.g, EX + "s2")
        res = sc.res
        for k in (first,) + rest:
            kind, who, flt, v = HOPS[k]
            sc.res, sc.subj = (res, I(EX + "s")) if who == "s" else (other, I(EX + "s2"))
            before = snap(sc)
            if kind == "set":
                r = attempt(sc.res.__setitem__, sc.key(flt), sc.value(v))
            else:
                r = attempt(sc.res.__delitem__, sc.key(flt))
            n += 1
            confined(sc, before, "history %r: %r" % ((first,) + rest, HOPS[k]), r[0] == "exc" and repr(r[1]))
            if v and v[0] == "bad" and r[0] == "ok":
                raise Mismatch("assigning %r was not refused" % (v,), "an exception", None)
        keys.add(repr(sorted(sc.now(), key=repr)))
    return list(keys), n


def c_hist(depth):
    def gen():
        for scalar in (False, True):
            for k in range(len(HOPS)):
                yield ("hist", scalar, k, depth)
    return gen


# ---- among many statements; with many values ----
def x_many(case):
    _, n, own, scalar = case
    objs = [L("v%d" % i, ("en", "fr", None, None, None)[i % 5], (None, None, None, EX + "dt", None)[i % 5]) for i in range(own)] + [I(EX + "r1")] * (own % 2)
    total = 0
    long = [("seq", "list", tuple(("term", L("w%d" % i, "en")) for i in range(n))), ("seq", "list", tuple(("str", "w%d" % i) for i in range(n)) + (("bad", "None"),)),
            ("seq", "list", tuple(("term", L("w%d" % i, "en")) for i in range(n)) + (("term", L("w", "fr")),))]
    for flt in FILTERS:
        for v in [None, ("str", "v"), ("term", L("v", "fr")), ("term", I(EX + "new1")), ("bad", "object")] + long:
            sc = Scene(objs, scalar, "En", "I", frame=False)
            for i in range(n):
                o = [L("v%d" % i, "en"), I(EX + "o%d" % i), L("v%d" % i)][i % 3]
                sc.add((sc.subj, I(EX + "p%d" % i), o))
                sc.add((I(EX + "s%d" % i), sc.pred, o))
                sc.add((I(EX + "s%d" % i), I(EX + "q"), sc.subj))
            before = snap(sc)
            what = "%r %s with %d objects among %d statements" % (flt, "deleted" if v is None else "= " + repr(v)[:80], own, 3 * n)
            must = False
            if v is not None:
                try:
                    assign(objs, scalar, flt, sc.lang, v)
                except Refuse:
                    must = True
                except Open:
                    pass
            r = attempt(sc.res.__delitem__, sc.key(flt)) if v is None else attempt(sc.res.__setitem__, sc.key(flt), sc.value(v))
            if must and r[0] == "ok":
                raise Mismatch(what + " was not refused", "an exception", None)
            confined(sc, before, what, r[0] == "exc" and repr(r[1]))
            total += 1
    return "many %d %d %s" % (n, own, scalar), total


def c_many(tier):
    def gen():
        for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129] + ([255, 256, 257, 1000, 1025] if tier == "thorough" else []):
            for own in {0, 1, 3, n}:
                for scalar in (False, True):
                    yield ("many", n, own, scalar)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("writing", c_sets("write", 3 if th else 2, 2 if th else 1), x_write,
              "all sets of <= %d of %d objects x scalar or not x %d filters x deletion and %d values" % (3 if th else 2, len(OBJS), len(FILTERS), len(SINGLE + SEQS + BADV))),
        Space("asking", c_sets("ask", 4 if th else 3, 3 if th else 2, 20), x_ask, "all sets of <= %d objects x %d questions, each after all the earlier ones" % (4 if th else 3, len(QUESTIONS))),
        Space("many", c_many(tier), x_many, "up to %d values and objects among up to %d statements x %d filters x 8 operations" % ((1025, 3075, len(FILTERS)) if th else (129, 387, len(FILTERS)))),
        Space("unresolvable keys", c_badkey, x_badkey, "%d keys x all values" % len(BADKEYS)),
        Space("mixed sequences", c_mixed(3 if th else 2), x_mixed, "a value that does not fit at every position of sequences of <= %d values, every filter" % (3 if th else 2)),
        Space("histories", c_hist(4 if th else 3), x_hist, "all histories of %d assignments and deletions through two resources" % (4 if th else 3)),
    ]
