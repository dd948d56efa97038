"""Reference model of Resource item access (C16, C17)."""
import datetime
import itertools

from . import sut  # noqa: F401
from .core import Mismatch, attempt
from .rdfmodel import RDF, XSD, B, I, L, Realm, back_triple
import pymantic.rdf as prdf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple

EX = "http://e/"
STRING = XSD + "string"
INT = XSD + "integer"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"


@prdf.register_class(EX + "T1")
class C1(prdf.Resource):
    pass


@prdf.register_class(EX + "T2")
class C2(prdf.Resource):
    pass


class En(prdf.Resource):
    prefixes = {"ex": EX}
    scalars = frozenset(("ex:one",))


class Fr(prdf.Resource):
    prefixes = {"ex": EX, "": EX + "d/"}
    scalars = frozenset(("ex:one", EX + "d/x"))
    lang = "fr-ca"


# the objects a predicate may have
OBJS = [
    L("a", "en"), L("b", "en"), L("a", "en-us"), L("a", "en-gb"), L("a", "fr"), L("a", "fr-ca"), L("a"), L("b"), L("a", None, STRING), L("1", None, INT), L("2", None, INT), L("x", None, EX + "dt"),
    I(EX + "r1"), I(EX + "r2"), I(EX + "r0"), B("r1b"), B("r12"),
]
TYPES = {I(EX + "r1"): [EX + "T1"], I(EX + "r2"): [EX + "T2"], I(EX + "r0"): [EX + "T0"], B("r1b"): [EX + "T1"], B("r12"): [EX + "T1", EX + "T2"], I(EX + "new1"): [EX + "T1"]}
NOTYPE = I(EX + "untyped")
CLASSES = {"C1": C1, "C2": C2, "Resource": prdf.Resource}
CLASSTYPES = {"C1": EX + "T1", "C2": EX + "T2"}


def lang_match(a, b):
    """en is the same language as en-us, en-us is not en-gb"""
    if a is None or b is None:
        return a is None and b is None
    x, y = a.split("-", 1), b.split("-", 1)
    return x[0] == y[0] and (len(x) == 1 or len(y) == 1 or x[1] == y[1])


def isref(o):
    return o[0] in "IB"


def of_class(o, cls):
    return isref(o) and (cls == "Resource" or CLASSTYPES[cls] in TYPES.get(o, ()))


# filters: ("implicit",) ("none",) ("lang", x) ("dt", iri) ("bare",) ("string",) ("cls", name)
def by_lang(objs, l):
    return {o for o in objs if o[0] == "L" and o[2] is not None and lang_match(l, o[2])}


def typed(objs):
    return {o for o in objs if o[0] == "L" and o[3] is not None}


def refs(objs):
    return {o for o in objs if isref(o)}


def bare(objs):
    return {o for o in objs if o[0] == "L" and o[2] is None and o[3] is None}


def plain(objs):
    return bare(objs) | {o for o in objs if o[0] == "L" and o[3] == STRING}


def select(objs, scalar, flt, lang):
    """What reading, testing and deleting select."""
    k = flt[0]
    if k == "implicit":
        if not scalar:
            return set(objs)
        for cand in (by_lang(objs, lang), refs(objs), typed(objs), bare(objs)):
            if cand:
                return cand
        return set()
    if k == "none":
        return set(objs)
    if k == "cls":
        return {o for o in objs if of_class(o, flt[1])}
    if k == "lang":
        return by_lang(objs, flt[1]) | (set() if scalar else refs(objs))
    if k == "dt":
        return {o for o in objs if o[0] == "L" and o[3] == flt[1]} | (set() if scalar else refs(objs))
    if k in ("bare", "string"):
        return plain(objs)
    raise AssertionError(flt)


# values: ("str", s) ("int", n) ("dt", datetime text) ("term", model term) ("res", model term) ("seq", kind, [values]) ("bad", name)
class Refuse(Exception):
    pass


class Open(Exception):
    """The documentation leaves the outcome open."""


def stored(v, flt, scalar, lang):
    k = v[0]
    if k in ("term", "res"):
        return v[1]
    if k == "int":
        return L(str(v[1]), None, INT)
    if k == "datetime":
        return L(v[1], None, XSD + "dateTime")
    if k == "str":
        if flt[0] == "lang":
            return L(v[1], flt[1])
        if flt[0] == "dt":
            return L(v[1], None, flt[1])
        if flt[0] == "implicit" and scalar:
            return L(v[1], lang)
        return L(v[1])
    if k == "bad":
        raise Refuse()
    raise AssertionError(v)


def fits(o, flt):
    k = flt[0]
    if k == "cls":
        return of_class(o, flt[1])
    if k in ("bare", "string"):
        if isref(o):
            raise Open()
        return o[2] is None and o[3] in (None, STRING)
    if isref(o) or k in ("implicit", "none"):
        return True
    if k == "lang":
        return o[2] is not None and lang_match(o[2], flt[1])
    if k == "dt":
        return o[3] == flt[1]


def assign(objs, scalar, flt, lang, v):
    """-> list of acceptable new object sets; raises Refuse / Open"""
    objs = set(objs)
    seq = v[0] == "seq"
    vals = {stored(x, flt, scalar, lang) for x in (v[2] if seq else [v])}
    k = flt[0]
    if seq and scalar and k == "none":
        raise Open()
    if seq and scalar:
        raise Refuse()
    if not all([fits(o, flt) for o in vals]):
        raise Refuse()
    one = None if seq else next(iter(vals))
    also = None
    if k == "implicit":
        if scalar and one[0] == "L" and one[2]:
            gone = by_lang(objs, one[2]) | typed(objs) | refs(objs) | bare(objs)
        else:
            gone = objs
    elif k == "none":
        gone = objs
    elif scalar:
        if k == "lang" and not isref(one):
            gone = by_lang(objs, flt[1]) | typed(objs) | refs(objs)
        elif k in ("bare", "string"):
            gone, also = objs, plain(objs)
        else:
            gone = objs
    elif k == "cls":
        gone = {o for o in objs if of_class(o, flt[1])}
    elif k in ("bare", "string"):
        gone, also = plain(objs), plain(objs) | refs(objs)
    else:
        gone = select(objs, scalar, flt, lang)
    out = [(objs - gone) | vals]
    if also is not None:
        out.append((objs - also) | vals)
    return out


# ---- the real side ----
class Scene:
    """A graph whose resource has the given objects under one predicate, plus bystanders."""

    def __init__(self, objs, scalar, rclass="En", subject="I", frame=True, conf=0):
        self.R = Realm()
        self.g = Graph()
        self.cls = {"En": En, "Fr": Fr}[rclass]
        self.lang = {"En": "en", "Fr": "fr-ca"}[rclass]
        self.scalar = scalar
        self.name = "ex:one" if scalar else "ex:many"
        self.pred = I(EX + ("one" if scalar else "many"))
        self.subj = I(EX + "s") if subject == "I" else B("s")
        self.objs = set(objs)
        for o in objs:
            self.add((self.subj, self.pred, o))
        for r, ts in TYPES.items():
            for t in ts:
                self.add((r, I(RDF + "type"), I(t)))
        if frame:
            other = I(EX + ("many" if scalar else "one"))
            for o in list(objs)[:4] + [L("a", "en"), I(EX + "r1")]:
                self.add((self.subj, other, o))
                self.add((I(EX + "s2"), self.pred, o))
            self.add((I(EX + "r1"), self.pred, self.subj))
            self.add((self.subj, I(EX + "oneX"), L("a", "en")))
            self.add((B("z"), self.pred, B("z")))
            self.add((self.subj, I(RDF + "type"), I(EX + "T0")))
        self.before = self.now()
        self.res = self.cls(self.g, self.R.term(self.subj))

    def add(self, t):
        self.g.add(self.R.triple(t))

    def now(self):
        rev = {id(n): ("B", k) for k, n in self.R.nodes.items()}
        out = set()
        for t in self.g:
            m = back_triple(t)
            out.add(tuple(rev.get(x[1], x) if x[0] == "B" else x for x in m))
        return out

    def objects_now(self, now=None):
        return {t[2] for t in (self.now() if now is None else now) if t[0] == self.subj and t[1] == self.pred}

    def key(self, flt, form=0):
        name = [self.name, self.pred[1], NamedNode(self.pred[1]), "[%s]" % self.name][form]
        k = flt[0]
        if k == "implicit":
            return name
        f = {"none": None, "bare": "", "string": NamedNode(STRING)}.get(k, 0)
        if k == "lang":
            f = flt[1]
        elif k == "dt":
            f = NamedNode(flt[1])
        elif k == "cls":
            f = CLASSES[flt[1]]
        return (name, f)

    def value(self, v):
        k = v[0]
        if k in ("str", "int"):
            return v[1]
        if k == "datetime":
            return datetime.datetime.fromisoformat(v[1])
        if k == "term":
            return self.R.term(v[1])
        if k == "res":
            return prdf.Resource.classify(self.g, self.R.term(v[1]))
        if k == "seq":
            vs = [self.value(x) for x in v[2]]
            return {"list": list, "set": set, "tuple": tuple, "frozenset": frozenset}[v[1]](vs)
        if k == "bad":
            return {"None": None, "object": object(), "dict": {"a": 1}, "bytes": b"x"}[v[1]]
        raise AssertionError(v)

    def model_of(self, x, typed=True):
        """model term of something reading gave back; checks its class"""
        if isinstance(x, prdf.Resource):
            t = x.subject
            if x.graph is not self.g:
                raise Mismatch("a resource read belongs to another graph")
        elif isinstance(x, Literal):
            t = x
        else:
            raise Mismatch("reading gave something that is neither a literal nor a resource", None, repr(x))
        for k, n in self.R.nodes.items():
            if t is n:
                m = ("B", k)
                break
        else:
            m = back_triple(Triple(t, t, t))[0] if not isinstance(t, BlankNode) else ("B", "?")
        if isref(m) and typed:
            want = {CLASSES[c] for c in CLASSTYPES if of_class(m, c)}
            if not all(isinstance(x, c) for c in want) or not want and type(x) is not prdf.Resource:
                raise Mismatch("class of a resource read: %r" % (m,), want or prdf.Resource, type(x))
        return m


FILTERS = [("implicit",), ("none",), ("lang", "en"), ("lang", "en-us"), ("lang", "fr"), ("lang", "de"), ("bare",), ("string",), ("dt", INT), ("dt", EX + "dt"), ("cls", "C1"), ("cls", "C2"), ("cls", "Resource")]
SINGLE = [("str", "v"), ("str", ""), ("int", 7), ("datetime", "2001-02-03T04:05:06"), ("term", L("v", "en")), ("term", L("v", "en-us")), ("term", L("v", "fr")), ("term", L("v", "de")), ("term", L("a", "en")), ("term", L("v")), ("term", L("v", None, STRING)),
          ("term", L("1", None, INT)), ("term", L("v", None, EX + "dt")), ("term", I(EX + "r1")), ("term", I(EX + "new1")), ("term", NOTYPE), ("term", B("r12")), ("res", I(EX + "r1")), ("res", B("r1b")), ("res", NOTYPE), ("res", I(EX + "r2"))]
SEQS = [("seq", "list", ()), ("seq", "set", (("str", "v"),)), ("seq", "tuple", (("str", "v"), ("str", "w"))), ("seq", "frozenset", (("term", L("v", "en")), ("term", L("w", "en")))),
        ("seq", "list", (("term", L("v", "en")), ("term", L("v", "fr")))), ("seq", "list", (("int", 1), ("int", 2))), ("seq", "list", (("term", I(EX + "r1")), ("str", "v"))), ("seq", "set", (("res", I(EX + "r1")), ("term", B("r12")))),
        ("seq", "list", (("res", I(EX + "r2")), ("term", L("1", None, INT)), ("term", L("v", "en")))), ("seq", "list", (("term", L("v")), ("term", L("v", None, STRING)))), ("seq", "list", (("term", L("v", None, EX + "dt")),)),
        ("seq", "list", (("term", L("a", "en")), ("term", L("a"))))]
BADV = [("bad", "None"), ("bad", "object"), ("bad", "dict"), ("seq", "list", (("str", "v"), ("bad", "None"))), ("seq", "list", (("bad", "object"),)), ("seq", "tuple", (("term", L("v", "en")), ("bad", "bytes")))]
