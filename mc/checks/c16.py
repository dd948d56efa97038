"""C16: resource item access follows the documented filter rules in every state."""
import itertools

from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..rescheck import BADV, CLASSES, EX, FILTERS, INT, OBJS, RDFS, SEQS, SINGLE, STRING, En, Open, Refuse, Scene, assign, isref, select
from ..rescheck import lang_match
import pymantic.primitives as primitives
import pymantic.rdf as prdf
import pymantic.util as util
from ..rdfmodel import RDF, B, I, L, Realm, back_triple
from pymantic.primitives import Graph, Literal, NamedNode, Profile, Triple

LEVEL = "model_checking"
TECHNIQUE = "exhaustive object sets x keys x operations x values on the real Resource against a set model of the documented rules"
RULE = ("every set of up to k objects (of 17 kinds differing in language, datatype, reference class) under a scalar and a plain predicate, "
        "every filter, every operation and value; histories of assignments and deletions")
ASSUMPTIONS = ["a literal has not both a language and a datatype", "left open: references assigned under the bare filter, sequences for a scalar under the None filter, whether a bare assignment to a scalar also replaces other objects"]


def read_checked(sc, flt, objs, form):
    key = sc.key(flt, form)
    want = select(objs, sc.scalar, flt, sc.lang)
    single = sc.scalar and flt[0] != "none"
    where = "%s[%r] with objects %r" % (type(sc.res).__name__, key, sorted(objs, key=repr))
    r = attempt(lambda: sc.res[key])
    if single and len(want) > 1:
        if r[0] == "ok" or not isinstance(r[1], ValueError):
            raise Mismatch("reading " + where, "ValueError", repr(r[1]))
    else:
        if r[0] == "exc":
            raise Mismatch("reading " + where, want, repr(r[1]))
        if single:
            got = [] if r[1] is None else [sc.model_of(r[1])]
        else:
            r = attempt(list, r[1])
            if r[0] == "exc":
                raise Mismatch("reading " + where, want, repr(r[1]))
            got = [sc.model_of(x) for x in r[1]]
        if len(got) != len(set(got)) or set(got) != want:
            raise Mismatch("reading " + where, sorted(want, key=repr), got)
    if (key in sc.res) is not bool(want):
        raise Mismatch("testing " + where, bool(want), key in sc.res)
    r = attempt(sc.res.get_scalar, key)
    if len(want) > 1:
        if r[0] == "ok" or not isinstance(r[1], ValueError):
            raise Mismatch("get_scalar " + where, "ValueError", repr(r[1]))
    elif r[0] == "exc" or (set() if r[1] is None else {sc.model_of(r[1])}) != want:
        raise Mismatch("get_scalar " + where, want, repr(r[1]))


def x_read(case):
    _, batch, rclass, subject = case
    n = 0
    for ix in batch:
        objs = [OBJS[i] for i in ix]
        for scalar in (False, True):
            sc = Scene(objs, scalar, rclass, subject)
            for fi, flt in enumerate(FILTERS):
                read_checked(sc, flt, set(objs), (fi + len(ix)) % 4)
                n += 1
            for flt in FILTERS:
                sc2 = Scene(objs, scalar, rclass, subject, frame=False)
                key = sc2.key(flt)
                del sc2.res[key]
                want = set(objs) - select(objs, scalar, flt, sc2.lang)
                if sc2.objects_now() != want:
                    raise Mismatch("del [%r] with objects %r" % (key, objs), sorted(want, key=repr), sorted(sc2.objects_now(), key=repr))
                n += 1
    return [repr((ix, rclass, subject)) for ix in batch], n


def subsets(k):
    for n in range(k + 1):
        yield from itertools.combinations(range(len(OBJS)), n)


def c_read(k, k2):
    def gen():
        for b in batches(subsets(k), 20):
            yield ("read", b, "En", "I")
        for b in batches(subsets(k2), 20):
            yield ("read", b, "Fr", "B")
    return gen


def set_checked(sc, flt, objs, v, form=0):
    """-> the object set afterwards"""
    key = sc.key(flt, form)
    where = "%s[%r] = %r with objects %r" % (type(sc.res).__name__, key, v, sorted(objs, key=repr))
    try:
        want = assign(objs, sc.scalar, flt, sc.lang, v)
    except Refuse:
        want = None
    except Open:
        return None
    val = sc.value(v)
    r = attempt(sc.res.__setitem__, key, val)
    got = sc.objects_now()
    if want is None:
        if r[0] == "ok":
            raise Mismatch("assignment was not refused: " + where, "an exception", sorted(got, key=repr))
        if flt[0] != "implicit" and v[0] != "bad" and not any(x[0] == "bad" for x in (v[2] if v[0] == "seq" else ())) and not isinstance(r[1], ValueError):
            raise Mismatch("assignment refused with another error: " + where, "ValueError", repr(r[1]))
        return set(objs)
    if r[0] == "exc":
        raise Mismatch("assignment was refused: " + where, want, repr(r[1]))
    if got not in want:
        raise Mismatch("assignment: " + where, [sorted(w, key=repr) for w in want], sorted(got, key=repr))
    return got


def x_set(case):
    _, batch, rclass, subject, full = case
    n = 0
    for ix in batch:
        objs = [OBJS[i] for i in ix]
        for scalar in (False, True):
            for flt in FILTERS:
                for v in SINGLE + SEQS + (BADV if full else []):
                    sc = Scene(objs, scalar, rclass, subject, frame=False)
                    after = set_checked(sc, flt, set(objs), v, n % 4)
                    n += 1
                    if after is not None and full:
                        read_checked(sc, flt, after, 0)
    return [repr((ix, rclass, subject)) for ix in batch], n


def c_set(k, k2):
    def gen():
        for b in batches(subsets(k), 4):
            yield ("set", b, "En", "I", len(b[0]) <= 2)
        for b in batches(subsets(k2), 4):
            yield ("set", b, "Fr", "B", True)
    return gen


# ---- a reading being consumed while another is, or while the graph changes ----
RF = [("implicit",), ("none",), ("lang", "en"), ("bare",), ("cls", "C1"), ("dt", INT)]
CHANGES = ["read", "del", "assign", "erase", "remove", "add", "other"]


def x_while(case):
    _, batch, rclass, subject = case
    n = 0
    for ix in batch:
        objs = [OBJS[i] for i in ix]
        for f1 in RF:
            probe = Scene(objs, False, rclass, subject, frame=False)
            want = select(set(objs), False, f1, probe.lang)
            for cut in range(len(want) + 1):
                for change in CHANGES:
                    for f2 in RF if change in ("read", "del", "assign") else RF[:1]:
                        sc = Scene(objs, False, rclass, subject, frame=False)
                        reading = iter(sc.res[sc.key(f1)])
                        got = [sc.model_of(next(reading)) for _ in range(cut)]
                        where = "%r[%r] with %r after %d values and then %s %r" % (rclass, f1, objs, cut, change, f2)
                        if change == "read":
                            other = iter(sc.res[sc.key(f2)])
                            theirs = []
                            for _ in range(len(objs) + 1):  # turn by turn
                                for it, acc in ((other, theirs), (reading, got)):
                                    v = next(it, None)
                                    if v is not None:
                                        acc.append(sc.model_of(v))
                            w2 = select(set(objs), False, f2, sc.lang)
                            if len(theirs) != len(w2) or set(theirs) != w2:
                                raise Mismatch("the second reading, " + where, sorted(w2, key=repr), theirs)
                        elif change == "del":
                            del sc.res[sc.key(f2)]
                        elif change == "assign":
                            attempt(sc.res.__setitem__, sc.key(f2), "fresh")
                        elif change == "erase":
                            sc.res.erase()
                        elif change == "remove":
                            sc.g.removeMatches(None, None, None)
                        elif change == "add":
                            sc.g.addAll([Triple(sc.res.subject, t.predicate, Literal("new%d" % k, language="en")) for k in range(3)
                                         for t in list(sc.g.match(sc.res.subject, None, None))[:1]])
                        else:
                            sc.res[sc.key(("implicit",))] = "changed"
                        got += [sc.model_of(v, change != "remove") for v in reading]
                        if len(got) != len(want) or set(got) != want:
                            raise Mismatch("the reading of " + where, sorted(want, key=repr), got)
                        n += 1
    return [repr((ix, rclass, subject)) for ix in batch], n


def c_while(k):
    def gen():
        for b in batches(subsets(k), 6):
            yield ("while", b, "En", "I")
    return gen


# ---- histories: does an operation depend on what was done before? ----
HF = [("implicit",), ("none",), ("lang", "en"), ("lang", "fr"), ("bare",), ("dt", "http://www.w3.org/2001/XMLSchema#integer"), ("cls", "C1")]
HV = [("str", "v"), ("term", L("v", "fr")), ("int", 7), ("res", I(EX + "r1")), ("seq", "list", (("str", "x"), ("str", "y"))), ("bad", "None")]


def c_hist(depth):
    ops = [("set", f, v) for f in range(len(HF)) for v in range(len(HV))] + [("del", f) for f in range(len(HF))]

    def gen():
        for scalar in (False, True):
            for first in ops:
                yield ("hist", scalar, first, depth)
    return gen


def x_hist(case):
    _, scalar, first, depth = case
    ops = [("set", f, v) for f in range(len(HF)) for v in range(len(HV))] + [("del", f) for f in range(len(HF))]
    n = 0
    keys = []
    start = [L("a", "en"), L("a", "fr"), L("a"), L("1", None, "http://www.w3.org/2001/XMLSchema#integer"), I(EX + "r1")]

    def apply(sc, objs, op):
        if op[0] == "set":
            return set_checked(sc, HF[op[1]], objs, HV[op[2]])
        del sc.res[sc.key(HF[op[1]])]
        want = objs - select(objs, scalar, HF[op[1]], sc.lang)
        if sc.objects_now() != want:
            raise Mismatch("del [%r] with objects %r" % (HF[op[1]], objs), want, sc.objects_now())
        return want
    for rest in itertools.product(ops, repeat=depth - 1):
        sc = Scene(start, scalar, "En", "I", frame=False)
        objs = set(start)
        for op in (tuple(first),) + rest:
            objs = apply(sc, objs, op)
            n += 1
            if objs is None:
                break
        if objs is not None:
            keys.append(repr(sorted(objs, key=repr)))
    return list(set(keys)) or ["open"], n


# ---- language tags ----
TAGS = ["en", "en-us", "en-uk", "en-u", "en-gb", "e", "eng", "fr", "fr-ca", "fr-cab", "fr-us", "i-klingon", "x-us", "zh-hans-cn", "zh-hans-tw", "zh"]


def c_lang(k):
    def gen():
        for n in range(k + 1):
            for b in batches(itertools.combinations(range(len(TAGS)), n), 10):
                yield ("lang", b)
    return gen


def x_lang(case):
    n = 0
    for ix in case[1]:
        for rest in ((), (L("p"), I(EX + "r1"), L("1", None, EX + "dt"))):
            objs = [L("a", TAGS[i]) for i in ix] + list(rest)
            for scalar in (False, True):
                for rclass in ("En", "Fr"):
                    for t in TAGS if not rest else ("en-us",):
                        flt = ("lang", t)
                        sc = Scene(objs, scalar, rclass, "I", frame=False)
                        read_checked(sc, flt, set(objs), n % 4)
                        del sc.res[sc.key(flt)]
                        want = set(objs) - select(objs, scalar, flt, sc.lang)
                        if sc.objects_now() != want:
                            raise Mismatch("del [%r] with objects %r" % (sc.key(flt), objs), sorted(want, key=repr), sorted(sc.objects_now(), key=repr))
                        for v in [("str", "v"), ("term", L("v", t))] + ([("term", L("w", u)) for u in TAGS] if len(ix) < 2 else []):
                            sc = Scene(objs, scalar, rclass, "I", frame=False)
                            set_checked(sc, flt, set(objs), v)
                            n += 1
                    for v in [("str", "v")] + [("term", L("w", u)) for u in TAGS]:
                        sc = Scene(objs, scalar, rclass, "I", frame=False)
                        read_checked(sc, ("implicit",), set(objs), 0)
                        set_checked(sc, ("implicit",), set(objs), v)
                        n += 1
    return [repr(ix) for ix in case[1]], n


# ---- how a key names its predicate ----
def curie(key, pre):
    """The IRI a name stands for with these prefixes, None if none."""
    sure = key[:1] == "[" and key[-1:] == "]"
    if sure:
        key = key[1:-1]
    p, colon, ref = key.partition(":")
    if colon and not sure and p in ("http", "urn", "mailto", "tag"):
        return key
    if not colon:
        return pre[""] + key if "" in pre else None
    return pre[p] + ref if p in pre else None


W = "http://w/"
OWN = [{}, {"ex": W + "ex/"}, {"ex": W + "ex/", "both": W + "cls/"}, {"": W + "d/"}, {"": W + "d/", "both": W + "cls/", "xsd": W + "x/", "urn": W + "u/"}]
GLOBAL = [
    ({}, {}, None), ({"gp": W + "gp/", "both": W + "glob/"}, {}, None), ({}, {"t": W + "term", "http": W + "ht"}, None), ({"gp": W + "gp/"}, {"t": W + "term"}, W + "v/"), ({"": W + "gd/", "both": W + "glob/"}, {}, W + "v/"),
]
NAMES = ["ex:a", "ex:", "both:a", "gp:a", "xsd:a", "rdf:a", "rdfs:a", ":a", "t", "http", "a", "none", "no:a", W + "ex/a", "urn:a", "mailto:a", "[ex:a]", "[urn:a]", "[both:a]", "[gp:a]", "ex:a:b", "both:a/b#c", "gp:gp:a"]
BASEPRE = {"rdf": RDF, "rdfs": RDFS}
GBASE = {"rdf": RDF, "xsd": "http://www.w3.org/2001/XMLSchema#"}


def x_keys(case):
    _, oi, gi, depth = case
    own, (gpre, gterms, gdef) = OWN[oi], GLOBAL[gi]
    old = prdf.Resource.global_profile
    n = 0
    keys = []
    try:
        prof = prdf.Resource.global_profile = Profile()
        for k, v in gpre.items():
            prof.setPrefix(k, v)
        for k, v in gterms.items():
            prof.setTerm(k, v)
        if gdef:
            prof.setDefaultVocabulary(gdef)
        K = type(prdf.Resource)("K", (prdf.Resource,), {"prefixes": dict(own)})
        for _ in range(depth):
            K = type(prdf.Resource)("K", (K,), {})
        pre = dict(BASEPRE, **own)

        def want(key):
            r = curie(key, pre)
            if r is None:
                if ":" in key:
                    r = curie(key, dict(GBASE, **gpre))
                elif key in gterms:
                    r = gterms[key]
                elif gdef:
                    r = gdef + key
            return r
        iris = sorted({want(k) for k in NAMES} - {None})
        for name in NAMES:
            w = want(name)
            where = "class prefixes %r, global profile %r, key %r" % (own, GLOBAL[gi], name)
            g = Graph()
            s = NamedNode(W + "s")
            for i in iris:
                g.add(Triple(s, NamedNode(i), Literal(i)))
                g.add(Triple(NamedNode(i), NamedNode(i), s))
            before = set(g)
            r = K(g, s)
            got = attempt(K.resolve, name)
            if w is None:
                if got[0] == "ok" or not isinstance(got[1], ValueError):
                    raise Mismatch(where + ": resolve", "ValueError", got)
                for f in (lambda: list(r[name]), lambda: name in r, lambda: r.__setitem__(name, "v"), lambda: r.__delitem__(name), lambda: r.get_scalar(name),
                          lambda: list(r.object_of(name)), lambda: list(r[name, "en"])):
                    x = attempt(f)
                    if x[0] == "ok" or not isinstance(x[1], ValueError) or set(g) != before:
                        raise Mismatch(where + ": use of an unresolvable key", "ValueError, graph unchanged", (x, set(g) ^ before))
                n += 8
                continue
            if got != ("ok", w) or not isinstance(got[1], NamedNode):
                raise Mismatch(where + ": resolve", w, got)
            p = NamedNode(w)
            for what, f, exp in (
                    ("reading", lambda: list(r[name]), [Literal(w)]), ("reading with None", lambda: list(r[name, None]), [Literal(w)]), ("reading bare", lambda: list(r[name, ""]), [Literal(w)]),
                    ("reading with a language", lambda: list(r[name, "en"]), []), ("in", lambda: name in r, True), ("in with a language", lambda: (name, "en") in r, False),
                    ("get_scalar", lambda: r.get_scalar(name), Literal(w)), ("object_of", lambda: [x.subject for x in r.object_of(name)], [p]),
                    ("assigning", lambda: r.__setitem__(name, "v"), r), ("reading what was assigned", lambda: list(r[name]), [Literal("v")]),
                    ("assigning with a language", lambda: r.__setitem__((name, "en"), "l"), r), ("reading it", lambda: set(r[name]), {Literal("v"), Literal("l", "en")}),
                    ("deleting", lambda: r.__delitem__((name, "")), None), ("reading the rest", lambda: list(r[name]), [Literal("l", "en")])):
                x = attempt(f)
                n += 1
                if x != ("ok", exp):
                    raise Mismatch(where + ": " + what, exp, x)
            if set(g) != before - {Triple(s, p, Literal(w))} | {Triple(s, p, Literal("l", "en"))}:
                raise Mismatch(where + ": the graph afterwards", None, set(g) ^ before)
            S = type(prdf.Resource)("S", (K,), {"scalars": frozenset((name,))}) if curie(name, pre) else None
            if S is not None:
                g.add(Triple(s, p, Literal("f", "fr")))
                if S(g, s)[name] != Literal("l", "en") or S(g, s)[w] != Literal("l", "en"):
                    raise Mismatch(where + ": reading a scalar", Literal("l", "en"), attempt(lambda: S(g, s)[name]))
            o = S(g, s) if S else r
            o.lang = "fr"  # of this one resource
            if S is not None and (o[name] != Literal("f", "fr") or S(g, s)[name] != Literal("l", "en")):
                raise Mismatch(where + ": the language of a single resource", Literal("f", "fr"), (o[name], S(g, s)[name]))
            keys.append(where)
    finally:
        prdf.Resource.global_profile = old
    return keys, n


# ---- prefixes bound after the class and its resources exist (as in the README) ----
BINDS = [("class", "ex", W + "A/"), ("class", "ex", W + "B/"), ("class", "", W + "D/"), ("class all", "ex", W + "C/"), ("class delete", "ex", None), ("class", "none", W + "N/"),
         ("global", "ex", W + "G/"), ("global", "ex", W + "H/"), ("global", "", W + "E/"), ("global delete", "ex", None), ("global vocabulary", None, W + "V/"), ("global term", "a", W + "T"), ("new profile", None, None)]
BNAMES = ["ex:a", "a", ":a", "[ex:a]", "none:a", "rdfs:a", "xsd:a", "ex:"]


def x_binds(case):
    _, seq = case
    from pymantic.primitives import Prefix
    old = prdf.Resource.global_profile
    n = 0
    try:
        prdf.Resource.global_profile = Profile()
        M = type(prdf.Resource)
        K, J = M("K", (prdf.Resource,), {"prefixes": {"none": W + "n/"}}), M("J", (prdf.Resource,), {})
        g = Graph()
        s = NamedNode(W + "s")
        for x in "ABCDEFGHNVn":
            for ref in ("", "a", "/a", "/"):
                g.add(Triple(s, NamedNode(W + x + ref), Literal(W + x + ref)))
        g.add(Triple(s, NamedNode(W + "T"), Literal(W + "T")))
        r = K(g, s)
        own, other, gpre, terms, vocab = dict(BASEPRE, none=W + "n/"), dict(BASEPRE), dict(GBASE), {}, None
        for i, b in enumerate((None,) + seq):
            if b is not None:
                what, k, v = BINDS[b]
                if what == "class":
                    K.prefixes[k] = own[k] = v if i % 2 else Prefix(v)
                elif what == "class all":
                    K.prefixes.addAll({k: v, "none": v})  # without override
                    own.setdefault(k, v)
                elif what == "class delete":
                    if k in own:
                        del K.prefixes[k], own[k]
                elif what == "global":
                    prdf.Resource.global_profile.setPrefix(k, v)
                    gpre[k] = v
                elif what == "global delete":
                    if k in gpre:
                        del prdf.Resource.global_profile.prefixes[k], gpre[k]
                elif what == "global vocabulary":
                    prdf.Resource.global_profile.setDefaultVocabulary(v)
                    vocab = v
                elif what == "global term":
                    prdf.Resource.global_profile.setTerm(k, v)
                    terms[k] = v
                else:
                    prdf.Resource.global_profile = Profile()
                    gpre, terms, vocab = dict(GBASE), {}, None
            for name in BNAMES:
                for cls, pre in ((K, own), (J, other)):
                    w = curie(name, pre)
                    if w is None:
                        w = curie(name, gpre) if ":" in name else terms[name] if name in terms else vocab + name if vocab else None
                    for o in (r, K(g, s)) if cls is K else (J(g, s),):
                        where = "%r of class %s after %r" % (name, cls.__name__, [BINDS[j] for j in seq[:i]])
                        got = (attempt(o.resolve, name), attempt(lambda: list(o[name])), attempt(lambda: name in o))
                        n += 1
                        if w is None:
                            if any(x[0] == "ok" or not isinstance(x[1], ValueError) for x in got):
                                raise Mismatch(where, "ValueError", got)
                        else:
                            exp = [Literal(w)] if Triple(s, NamedNode(w), Literal(w)) in g else []
                            if got != (("ok", w), ("ok", exp), ("ok", bool(exp))):
                                raise Mismatch(where, (w, exp), got)
    finally:
        prdf.Resource.global_profile = old
    return repr(seq), n


def c_binds(depth):
    def gen():
        for k in range(depth + 1):
            for seq in itertools.product(range(len(BINDS)), repeat=k):
                yield ("binds", seq)
    return gen


def c_keys():
    for oi in range(len(OWN)):
        for gi in range(len(GLOBAL)):
            for depth in (0, 1):
                yield ("keys", oi, gi, depth)


# ---- many objects under one predicate ----
def x_many(case):
    n = case[1]
    total = 0
    objs = [L("v%d" % i, ("en", "fr", None, None, None)[i % 5], (None, None, None, INT, STRING)[i % 5]) for i in range(n)] + [I(EX + "r1")] * (n % 2)
    for scalar in (False, True):
        for flt in FILTERS:
            sc = Scene(objs, scalar, "En", "I", frame=False)
            read_checked(sc, flt, set(objs), 0)
            total += 1
            del sc.res[sc.key(flt)]
            want = set(objs) - select(objs, scalar, flt, sc.lang)
            if sc.objects_now() != want:
                raise Mismatch("del [%r] with %d objects" % (flt, n), len(want), sorted(sc.objects_now(), key=repr)[:20])
            for v in (("str", "v"), ("term", I(EX + "r1")), ("term", L("v1", "fr"))) + (() if scalar else (("seq", "list", tuple(("term", o) for o in objs if o[0] == "L" and o[2] == "en") + (("str", "z"),)),)):
                sc = Scene(objs, scalar, "En", "I", frame=False)
                set_checked(sc, flt, set(objs), v)
                total += 1
    return "many %d" % n, total


def c_many(tier):
    def gen():
        for n in list(range(0, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129] + ([255, 256, 257, 1000, 1025] if tier == "thorough" else []):
            yield ("many", n)
    return gen


# ---- the methods item access is made of; str() of a resource ----
def x_methods(case):
    n = 0
    for ix in case[1]:
        objs = {OBJS[i] for i in ix}
        sc = Scene(sorted(objs, key=repr), True, "En", "I")
        p = NamedNode(sc.pred[1])
        r = sc.res
        some = {o for o in objs if o[0] == "L" and o[2] is not None}
        table = [("objects", (), objs), ("bare_literals", (), {o for o in objs if o[0] == "L" and o[2] is None and o[3] is None}),
                 ("plain_literals", (), select(objs, True, ("bare",), "en")),
                 ("objects_by_lang", (), some), ("objects_by_lang", (None,), some), ("objects_by_datatype", (), {o for o in objs if o[0] == "L" and o[3] is not None}),
                 ("objects_by_type", (), {o for o in objs if isref(o)}), ("objects_by_lang", ("",), {o for o in objs if o[0] == "L" and o[2] is None and o[3] is None}),
                 ("objects_by_datatype", ("",), {o for o in objs if o[0] == "L" and o[2] is None and o[3] is None})]
        table += [("objects_by_lang", (t,), select(objs, True, ("lang", t), "en")) for t in ("en", "en-us", "fr", "de")]
        table += [("objects_by_datatype", (NamedNode(d),), {o for o in objs if o[0] == "L" and o[3] == d}) for d in (STRING, INT, EX + "dt", EX + "none")]
        table += [("objects_by_type", (CLASSES[c],), select(objs, True, ("cls", c), "en")) for c in CLASSES]
        for name, args, want in table:
            res = attempt(lambda: list(getattr(r, name)(p, *args)))
            where = "%s(predicate, %r) with objects %r" % (name, args, sorted(objs, key=repr))
            if res[0] == "exc":
                raise Mismatch(where, sorted(want, key=repr), repr(res[1]))
            rev = {id(x): ("B", k) for k, x in sc.R.nodes.items()}
            got = [rev.get(id(x)) or back_triple(Triple(x, x, x))[0] for x in res[1]]
            if len(got) != len(set(got)) or set(got) != want:
                raise Mismatch(where, sorted(want, key=repr), got)
            n += 1
        # its name is its label
        R = Realm()
        g = Graph()
        for subj in (I(EX + "s"), B("s")):
            for o in objs:
                g.add(R.triple((subj, I(RDFS + "label"), o)))
            labels = select(objs, True, ("implicit",), "en")
            node = R.term(subj)
            res = attempt(str, En(g, node))
            where = "str() of a resource with labels %r" % (sorted(objs, key=repr),)
            if len(labels) <= 1:
                if res[0] == "exc":
                    raise Mismatch(where, "a str", repr(res[1]))
                if not labels and res[1] != str(node) or labels and list(labels)[0][0] == "L" and res[1] != list(labels)[0][1]:
                    raise Mismatch(where, sorted(labels) or str(node), res[1])
            if str(node) not in repr(En(g, node)):
                raise Mismatch("repr() of a resource does not name it", str(node), repr(En(g, node)))
            n += 1
    return [repr(ix) for ix in case[1]], n


# ---- the helpers values and keys are made with ----
def x_helpers(case):
    a = case[1]
    n = 0
    for b in TAGS + [None]:
        if attempt(primitives.lang_match, a, b) != ("ok", lang_match(a, b)):
            raise Mismatch("lang_match(%r, %r)" % (a, b), lang_match(a, b), attempt(primitives.lang_match, a, b))
        n += 1
    for f, lang in ((util.en, "en"), (util.de, "de")):
        for v in ("v", "", "a b", "\u00e9", str(a)):
            x = f(v)
            if (type(x), x.value, x.language, x.datatype) != (Literal, v, lang, None):
                raise Mismatch("%s(%r)" % (lang, v), Literal(v, lang), (x, x.language))
            sc = Scene([L("old", lang), L("old", "fr")], False, "En", "I", frame=False)
            sc.res[sc.key(("lang", lang))] = x
            if sc.objects_now() != {L(v, lang), L("old", "fr")}:
                raise Mismatch("assigning %s(%r)" % (lang, v), None, sc.objects_now())
            n += 2
    for vs in itertools.chain.from_iterable(itertools.product(("x", None, a), repeat=k) for k in range(4)):
        r = attempt(util.one_or_none, list(vs))
        if len(vs) > 1:
            if r[0] == "ok" or not isinstance(r[1], ValueError):
                raise Mismatch("one_or_none(%r)" % (vs,), "ValueError", r)
        elif r != ("ok", vs[0] if vs else None):
            raise Mismatch("one_or_none(%r)" % (vs,), vs, r)
        n += 1
    return repr(a), n


def c_helpers():
    for t in TAGS + [None]:
        yield ("helpers", t)


def c_methods(k):
    def gen():
        for b in batches(subsets(k), 40):
            yield ("methods", b)
    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("reading and deleting", c_read(5 if th else 3, 3 if th else 2), x_read, "all sets of <= %d of %d objects x scalar or not x %d filters" % (5 if th else 3, len(OBJS), len(FILTERS))),
        Space("assigning", c_set(3 if th else 2, 2 if th else 1), x_set, "all sets of <= %d of %d objects x scalar or not x %d filters x %d values" % (3 if th else 2, len(OBJS), len(FILTERS), len(SINGLE + SEQS + BADV))),
        Space("while being read", c_while(3 if th else 2), x_while, "all sets of <= %d objects x %d filters x how much is read x 7 things done meanwhile" % (3 if th else 2, len(RF))),
        Space("histories", c_hist(3 if th else 2), x_hist, "all histories of %d assignments and deletions" % (3 if th else 2)),
        Space("language tags", c_lang(3 if th else 2), x_lang, "all sets of <= %d of %d tags, alone and among others x every filter tag x reading, deleting, assigning" % (3 if th else 2, len(TAGS))),
        Space("keys", c_keys, x_keys, "%d class prefix maps x %d global profiles x %d names x 14 uses" % (len(OWN), len(GLOBAL), len(NAMES))),
        Space("bindings", c_binds(4 if th else 3), x_binds, "all histories of %d of %d ways of changing the class's prefixes or the global profile x %d names" % (4 if th else 3, len(BINDS), len(BNAMES))),
        Space("many objects", c_many(tier), x_many, "up to %d objects x scalar or not x all filters x reading, deleting, 4 values" % (1025 if th else 129)),
        Space("helpers", c_helpers, x_helpers, "all pairs of %d language tags; en() and de() values; all value lists of <= 3" % (len(TAGS) + 1)),
        Space("methods", c_methods(4 if th else 3), x_methods, "all sets of <= %d objects x 20 method calls; str() and repr()" % (4 if th else 3)),
    ]
