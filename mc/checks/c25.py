"""C25: terms and statements are values: equal exactly when their parts are."""
import copy
import datetime
import itertools
import pickle
import re

from ..chars import batches
from ..core import Mismatch, Space, attempt
from ..rdfmodel import RDF, RICH, XSD, B, I, L, Realm, back
from ..ntref import quoted, quoted_stmts, read
from pymantic.primitives import BlankNode, Literal, NamedNode, Prefix, Quad, Triple, q_as_t, t_as_q

LEVEL = "model_checking"
TECHNIQUE = "exhaustive pairs of confusable values and sequences of operations on them, on the real types, against equality of their parts"
RULE = ("every pair of terms and of statements over confusable components (equality, hash, set membership, N-Triples form), every character, "
        "every subset of fields replaced, every copy and pickle, every attempt to change a field, every sequence of operations up to a depth")
ASSUMPTIONS = ["literals have a text value, no empty language and not both a language and a datatype",
               "IRIs that differ only in percent-encoding share an N-Triples form (quote_normalized_iri)",
               "blank nodes are compared while both are alive"]

MORE = [
    I("http://e/a b"), I("http://e/a>"), I("http://e/%61"), I("http://e/\U0001f600"), I('"x"'), I("x@en"), I("http://e/\\"), I(" "), I("\n"),
    L("x\\n"), L("x\r"), L("x\t"), L('x"@en'), L('x"^^<http://e/a>'), L("x@en"), L("<http://e/a>"), L("x", "en-u"), L("x", "e"),
    L("x", None, "en"), L("x", None, XSD + "integer"), L("x", None, "x"), L("a", None, "http://e/b"), L("\\u0041"), L("A"), L("\x00"), L("\x7f"), L("\ufffe"),
    L("", None, XSD + "string"), L("", "x"), B("z"),
]
TERMS = RICH + MORE

def iri_key(t):
    """Equal for IRIs whose URIs are equal: a character and its percent-encoding share a form."""
    return quoted(t[1])


def nt_key(t):
    if t is None:
        return None
    if t[0] == "I":
        return ("I", iri_key(t))
    if t[0] == "L":
        return ("L", t[1], t[2], None if t[3] is None else iri_key(("I", t[3])))
    return t


def same(what, x, y, want):
    for f, v in (("==", x == y), ("reflected ==", y == x), ("not !=", not (x != y)), ("in set", x in {y}), ("in list", x in [y]), ("dict key", {y: 1}.get(x) == 1)):
        if bool(v) != want:
            raise Mismatch("%s: %s of %r and %r" % (what, f, x, y), want, v)
    if want and hash(x) != hash(y):
        raise Mismatch("%s: equal values with different hashes" % what, None, (x, y))


def x_term(case):
    i = case[0]
    R, a = Realm(), TERMS[case[0]]
    ra = R.term(a)
    n = 0
    for b in TERMS:
        rb = R.term(b)
        same("terms", ra, rb, a == b)
        if not isinstance(ra, str) and type(ra) is not type(rb) and ra == rb:
            raise Mismatch("terms of different kinds are equal", None, (ra, rb))
        na, nb = ra.toNT(), rb.toNT()
        if (na == nb) != (nt_key(a) == nt_key(b)):
            raise Mismatch("N-Triples forms of %r and %r" % (a, b), nt_key(a) == nt_key(b), (na, nb))
        n += 8
    if a[0] == "B" and (ra == BlankNode() or ra != ra):
        raise Mismatch("a blank node equals another", None, None)
    return repr(a), n


# ---- statements ----

PARTS = {
    "s": [I("http://e/a"), I("http://e/b"), B("x"), B("y"), I("x")],
    "p": [I("http://e/a"), I("http://e/b"), I("x")],
    "o": [I("http://e/a"), I("x"), B("x"), B("y"), L("x"), L("x", "en"), L("x", None, "http://e/a"), L("http://e/a")],
    "g": [None, I("http://e/a"), I("http://e/b"), B("x"), I("x")],
}


def stmts(kind):
    return list(itertools.product(*[PARTS[k] for k in ("spo" if kind == 3 else "spog")]))


def build(R, s):
    return R.triple(s) if len(s) == 3 else R.quad(s)


def x_stmt(case):
    i, kind, other = case
    R = Realm()
    a = stmts(kind)[i]
    ra = build(R, a)
    line = str(ra)
    for j, b in enumerate(stmts(other)):
        rb = build(R, b)
        want = a == b
        if (ra == rb) != want or (ra != rb) == want or (rb == ra) != want:
            raise Mismatch("equality of %r and %r" % (a, b), want, ra == rb)
        if want and hash(ra) != hash(rb):
            raise Mismatch("equal statements with different hashes", None, (a, b))
        if (ra in {rb}) != want:
            raise Mismatch("membership of %r in the set of %r" % (a, b), want, not want)
        la = str(rb)
        if (line == la) != (a == b or a[:3] == b[:3] and (a + (None,))[3] == (b + (None,))[3]):
            raise Mismatch("N-Triples forms of %r and %r" % (a, b), None, (line, la))
    return repr(a), len(stmts(other))


# ---- characters: different texts give different forms ----

def x_chars(case):
    lo, hi = case
    seen = {}
    n = 0
    for c in range(lo, hi):
        if 0xD800 <= c <= 0xDFFF:
            continue
        ch = chr(c)
        for v in (ch, ch + "0", "a" + ch):
            nt = Literal(v).toNT()
            if seen.setdefault(nt, v) != v:
                raise Mismatch("two literals with one N-Triples form", None, (nt, v, seen[nt]))
            if "\n" in nt or "\r" in nt:
                raise Mismatch("N-Triples form of more than one line", None, nt)
            n += 1
        if Literal(ch) != Literal(chr(c)) or hash(Literal(ch)) != hash(Literal(chr(c))) or NamedNode(ch) != NamedNode(chr(c)):
            raise Mismatch("equality of character %x" % c, None, None)
    return ["%x" % c for c in range(lo, hi, 64)], n


# ---- copies, pickles ----

VALUES = [
    ("I", "http://e/a"), ("I", "\u00e9"), ("I", ""), ("L", "x", None, None), ("L", "x", "en", None), ("L", "x", None, "http://e/a"), ("L", "", None, None),
    ("L", "\u00e9\n", "fr", None),
    (("I", "a"), ("I", "b"), ("L", "x", "en", None)), (("I", "a"), ("I", "b"), ("L", "x", None, "d")), (("I", "a"), ("I", "b"), ("I", "c")),
    (("I", "a"), ("I", "b"), ("L", "x", "en", None), None), (("I", "a"), ("I", "b"), ("I", "c"), ("I", "g")),
    (("B", "x"), ("I", "b"), ("B", "x")), (("B", "x"), ("I", "b"), ("B", "y"), ("B", "x")), ("B", "x"),
]


def is_term(v):
    return isinstance(v[0], str)


def make(R, v):
    return R.term(v) if is_term(v) else build(R, v)


def kind_of(v):
    return {"I": NamedNode, "L": Literal, "B": BlankNode}[v[0]] if is_term(v) else Triple if len(v) == 3 else Quad


def shape(x, seen):
    """The value as a model, blank nodes numbered as met."""
    if type(x) is Triple or type(x) is Quad:
        return tuple(shape(y, seen) for y in x)
    if x is None:
        return None
    if isinstance(x, BlankNode):
        return ("B", seen.setdefault(id(x), len(seen)))
    return back(x)


def ground(v):
    return "'B'" not in repr(v)


WAYS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [
    ("pickle %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]


def x_copy(case):
    vi, ways, wrap = case
    v = VALUES[vi]
    R = Realm()
    x = make(R, v)
    text, h = str(x), hash(x)
    y = [x] if wrap == 1 else (x, x) if wrap == 2 else {"k": x} if wrap == 3 else x
    for w in ways:
        f = dict(WAYS)[w]
        st, y = attempt(f, y)
        if st != "ok":
            raise Mismatch("%s of %r raised" % (w, v), None, repr(y))
    z = y[0] if wrap in (1, 2) else y["k"] if wrap == 3 else y
    if type(z) is not kind_of(v):
        raise Mismatch("kind of a copy of %r" % (v,), kind_of(v), type(z))
    if wrap == 2 and (shape(y[1], s := {}) != shape(y[0], {}) or (not ground(v) and [b for b in s] != list(ids(y[0])))):
        raise Mismatch("blank nodes of two copies made together differ", None, None)
    if shape(z, {}) != shape(x, {}):
        raise Mismatch("%s of %r" % (ways, v), shape(x, {}), shape(z, {}))
    if ground(v):
        same("copy", x, z, True)
    if all(w == "copy" for w in ways) and is_term(v) is False:
        same("copy", x, z, True)
    if str(x) != text or hash(x) != h:
        raise Mismatch("copying changed the original", None, None)
    return repr(case), len(ways)


def ids(x):
    seen = {}
    shape(x, seen)
    return seen


# ---- fields ----

FIELDS = {Literal: ("value", "language", "datatype"), Triple: ("subject", "predicate", "object"), Quad: ("subject", "predicate", "object", "graph")}
NEW = {"value": "new", "language": "de", "datatype": NamedNode("http://e/new"), "subject": NamedNode("http://e/s2"), "predicate": NamedNode("http://e/p2"),
       "object": Literal("o2", "it"), "graph": NamedNode("http://e/g2")}


def x_fields(case):
    vi, names, nones = case
    v = VALUES[vi]
    x = make(Realm(), v)
    kind = kind_of(v)
    fields = FIELDS[kind]
    names = [n for n in names if n in fields]
    before = tuple(x)
    if tuple(getattr(x, f) for f in fields) != before or tuple(x._fields) != fields or len(x) != len(fields):
        raise Mismatch("fields of %r" % (v,), fields, tuple(x))
    d = x._asdict()
    if list(d.items()) != list(zip(fields, before)):
        raise Mismatch("_asdict of %r" % (v,), list(zip(fields, before)), d)
    change = {n: (None if nones else NEW[n]) for n in names}
    y = x._replace(**change)
    want = tuple(change.get(f, o) for f, o in zip(fields, before))
    if type(y) is not kind or tuple(y) != want or any(p is not q for p, q in zip(y, want)):
        raise Mismatch("%r with %r replaced" % (v, sorted(change)), want, tuple(y))
    if tuple(x) != before:
        raise Mismatch("replacing changed the original", before, tuple(x))
    same("replaced", x, y, want == before)
    for bad in ("nonsense", "Value", "index", "_fields"):
        st, r = attempt(lambda: x._replace(**dict(change, **{bad: 1})))
        if st == "ok":
            raise Mismatch("an unknown field was accepted", None, repr(r))
    z = kind._make(want)
    same("made", z, y, True)
    if type(z) is not kind:
        raise Mismatch("kind of a made value", kind, type(z))
    for wrong in (want[:-1], want + (None,), ()):
        st, r = attempt(kind._make, wrong)
        if st == "ok":
            raise Mismatch("_make accepted %d fields" % len(wrong), None, repr(r))
    return repr(case), 1


def c_fields():
    for vi, v in enumerate(VALUES):
        if kind_of(v) in FIELDS:
            f = FIELDS[kind_of(v)]
            for k in range(len(f) + 1):
                for names in itertools.combinations(f, k):
                    for nones in (False, True):
                        yield (vi, names, nones)


# ---- nothing changes in place; operations leave no trace ----

def try_set(x):
    for n in ("value", "language", "datatype", "subject", "predicate", "object", "graph"):
        if hasattr(type(x), n):
            st, r = attempt(setattr, x, n, NEW[n])
            if st == "ok":
                raise Mismatch("field %s could be set" % n, None, repr(x))
            st, r = attempt(delattr, x, n)
            if st == "ok":
                raise Mismatch("field %s could be deleted" % n, None, repr(x))


def try_item(x):
    def seti():
        x[0] = 1

    def deli():
        del x[0]

    def iadd():
        y = x
        y += type(y)(*y) if isinstance(y, tuple) else y
        return y
    for f in (seti, deli):
        st, r = attempt(f)
        if st == "ok":
            raise Mismatch("an item could be set", None, repr(x))
    if not isinstance(x, BlankNode):
        attempt(iadd)


OPS = [
    ("set", try_set), ("item", try_item), ("str", str), ("repr", repr), ("hash", hash), ("nt", lambda x: x.toNT() if hasattr(x, "toNT") else str(x)),
    ("eq", lambda x: (x == x, x == 1, x != None, x == Literal("x"))),  # noqa: E711
    ("copy", copy.copy), ("pickle", lambda x: pickle.dumps(x)),
    ("replace", lambda x: x._replace(**{x._fields[0]: NEW[x._fields[0]]}) if hasattr(x, "_fields") else None),
    ("convert", lambda x: t_as_q(None, x) if type(x) is Triple else q_as_t(x) if type(x) is Quad else None),
    ("value", lambda x: getattr(x, "value", None)),
]


def look(x):
    return (str(x), repr(x), hash(x), shape(x, {}), x.toNT() if hasattr(x, "toNT") else str(x), type(x), getattr(x, "value", None))


def x_ops(case):
    vi, ops = case
    R = Realm()
    x = make(R, VALUES[vi])
    y = make(R, VALUES[vi])
    first = look(y)
    for o in ops:
        dict(OPS)[o](x)
        if look(x) != first:
            raise Mismatch("%r after %s" % (VALUES[vi], ops), first, look(x))
    same("after operations", x, y, True)
    return repr(case), len(ops)


# ---- forms ----

def x_form(case):
    s = stmts(case[1])[case[0]]
    R = Realm()
    x = build(R, s)
    if x.toString() != str(x) if hasattr(x, "toString") else False:
        raise Mismatch("toString differs from str", str(x), x.toString())
    names = {b.toNT(): ("B", k) for k, b in R.nodes.items()}
    got = [tuple(names["_:" + z[1]] if z is not None and z[0] == "B" else z for z in t) for t in read(str(x), len(s) == 4)]
    if set(got) != quoted_stmts([s]) or len(got) != 1:
        raise Mismatch("reading the form of %r" % (s,), s, got)
    if not str(x).endswith(".\n") or str(x).count("\n") != 1:
        raise Mismatch("form of a statement", None, str(x))
    want = " ".join(t.toNT() for t in x if t is not None) + " .\n"
    if str(x).split() != want.split():
        raise Mismatch("form of %r" % (s,), want, str(x))
    t = q_as_t(R.quad(s if len(s) == 4 else s + (None,)))
    same("q_as_t", t, R.triple(s[:3]), True)
    if type(t) is not Triple:
        raise Mismatch("q_as_t", Triple, type(t))
    for g in PARTS["g"]:
        q = t_as_q(R.term(g), R.triple(s[:3]))
        same("t_as_q", q, R.quad(s[:3] + (g,)), True)
        if type(q) is not Quad:
            raise Mismatch("t_as_q", Quad, type(q))
        same("q_as_t of t_as_q", q_as_t(q), t, True)
    return repr(s), 1


# ---- Python values ----

def x_int(case):
    lo, hi = case
    for v in range(lo, hi):
        a_number(v)
    return ["%d" % v for v in range(lo, hi, 16)], hi - lo


def a_number(v):
    l = Literal(v)
    if type(l.value) is not str or l.value != format(v, "d") or l.language is not None or l.datatype != XSD + "integer" or not isinstance(l.datatype, NamedNode):
        raise Mismatch("literal of %d" % v, (str(v), None, XSD + "integer"), tuple(l))
    same("number", l, Literal(format(v, "d"), None, NamedNode(XSD + "integer")), True)
    k = Literal(v, datatype=NamedNode("http://e/dt"))
    if tuple(k) != (format(v, "d"), None, "http://e/dt"):
        raise Mismatch("literal of %d with a datatype" % v, None, tuple(k))


def x_big(case):
    b, d, s = case
    a_number(s * (2 ** b + d))
    a_number(s * (10 ** (b // 3) + d))
    return repr(case), 2


ZONES = [None, 0, 60, -60, 330, -570, 14 * 60, -14 * 60, 1]


def x_date(case):
    y, mo, d, h, mi, s, us, z = case
    tz = None if z is None else datetime.timezone(datetime.timedelta(minutes=z))
    v = datetime.datetime(y, mo, d, h, mi, s, us, tz)
    l = Literal(v)
    if type(l.value) is not str or l.language is not None or l.datatype != XSD + "dateTime" or not isinstance(l.datatype, NamedNode):
        raise Mismatch("literal of %r" % v, None, tuple(l))
    m = re.fullmatch(r"(\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?", l.value)
    if not m:
        raise Mismatch("not an xsd:dateTime: %r" % v, None, l.value)
    got = tuple(int(m.group(i)) for i in range(1, 7)) + (int((m.group(7) or "0").ljust(6, "0")[:6]),)
    if m.group(8) is None:
        gz = None
    elif m.group(8) == "Z":
        gz = 0
    else:
        gz = (int(m.group(8)[1:3]) * 60 + int(m.group(8)[4:])) * (-1 if m.group(8)[0] == "-" else 1)
    if got + (gz,) != case:
        raise Mismatch("time of %r" % v, case, l.value)
    k = Literal(v, datatype=NamedNode("http://e/dt"))
    if k.value != l.value or k.datatype != "http://e/dt":
        raise Mismatch("literal of %r with a datatype" % v, None, tuple(k))
    return repr(case), 1


DATES = [[1, 999, 1900, 2020, 9999], [1, 12], [1, 28], [0, 23], [0, 59], [0, 59], [0, 1, 100000, 999999], ZONES]


# ---- blank nodes ----

def x_blank(case):
    n = case[0]
    nodes = [BlankNode() for _ in range(n)]
    texts = [b.toNT() for b in nodes]
    if len(set(texts)) != n or len({b.value for b in nodes}) != n or len(set(nodes)) != n:
        raise Mismatch("blank nodes share a name", n, len(set(texts)))
    for t in texts:
        if not re.fullmatch(r"_:[A-Za-z0-9_][A-Za-z0-9_.-]*", t) or t.endswith("."):
            raise Mismatch("not a blank node label", None, t)
    if [b.toNT() for b in nodes] != texts or [str(b) for b in nodes] != texts:
        raise Mismatch("a blank node changed its name", None, None)
    return "%d" % n, n


def x_prefix(case):
    a, b = case
    p = Prefix(a)
    n = p(b)
    if n != a + b or type(n) is not NamedNode:
        raise Mismatch("prefix %r called with %r" % case, a + b, repr(n))
    same("prefix", n, NamedNode(a + b), True)
    same("prefix", p, NamedNode(a), True)
    if p != a or p.toNT() != NamedNode(a).toNT():
        raise Mismatch("prefix changed", a, repr(p))
    return repr(case), 1


STRS = ["", "a", "http://e/", "#", "\u00e9", " ", "b", "ab", ":"]


def spaces(tier):
    deep = tier == "thorough"
    top = 0x110000 if deep else 0x30000
    return [
        Space("terms", lambda: ((i,) for i in range(len(TERMS))), x_term, "pairs of %d terms" % len(TERMS)),
        Space("triples", lambda: ((i, 3, 3) for i in range(len(stmts(3)))), x_stmt, "pairs of triples"),
        Space("quads", lambda: ((i, 4, 4) for i in range(0, len(stmts(4)))), x_stmt, "pairs of quads"),
        Space("triples and quads", lambda: ((i, 3, 4) for i in range(len(stmts(3)))), x_mixed, "triples against quads"),
        Space("forms", lambda: ((i, k) for k in (3, 4) for i in range(len(stmts(k)))), x_form, "forms and conversions of every statement"),
        Space("characters", lambda: ((lo, lo + 512) for lo in range(0, top, 512)), x_chars, "every character up to %x" % top),
        Space("copies", lambda: ((vi, w, wrap) for vi in range(len(VALUES)) for wrap in range(4) for n in range(1, 4 if deep else 3)
                                 for w in itertools.product([w for w, _ in WAYS], repeat=n)), x_copy, "copies and pickles of copies"),
        Space("fields", c_fields, x_fields, "every set of fields replaced"),
        Space("operations", lambda: ((vi, o) for vi in range(len(VALUES)) for n in range(1, 5 if deep else 4)
                                     for o in itertools.product([o for o, _ in OPS], repeat=n)), x_ops, "sequences of operations"),
        Space("integers", lambda: ((lo, lo + 1000) for lo in range(-20000, 20000, 1000)), x_int, "integers"),
        Space("large integers", lambda: itertools.product(range(0, 300), (-1, 0, 1), (-1, 1)), x_big, "integers near powers"),
        Space("times", lambda: itertools.product(*DATES), x_date, "datetimes"),
        Space("blank nodes", lambda: ((n,) for n in (1, 2, 3, 10, 1000, 100000, 2000000)), x_blank, "blank nodes alive together"),
        Space("prefixes", lambda: itertools.product(STRS, repeat=2), x_prefix, "prefixes"),
    ]


def x_mixed(case):
    i = case[0]
    R = Realm()
    t = build(R, stmts(3)[i])
    for q in stmts(4):
        rq = build(R, q)
        if t == rq or rq == t or not t != rq or t in {rq}:
            raise Mismatch("a triple equals a quad", None, (t, rq))
    for b in TERMS:
        if b[0] == "L" and t == R.term(b):
            raise Mismatch("a triple equals a literal", None, (t, b))
    return repr(stmts(3)[i]), len(stmts(4))
