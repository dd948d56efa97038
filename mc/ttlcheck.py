"""Comparing the real Turtle parser with the reference reader."""
from .core import Mismatch, attempt
from .ntref import Reject
from .rdfmodel import back_triple, canon_names, isomorphic
from .ttlref import Open, read
from pymantic.parsers import turtle_parser


def verdict(doc, base=""):
    try:
        want = read(doc, base)
    except Open:
        return "open"
    except Reject as e:
        want = e
    r = attempt(turtle_parser.parse, doc, base=base) if base else attempt(turtle_parser.parse, doc)
    if isinstance(want, Exception):
        if r[0] == "ok":
            raise Mismatch("document outside Turtle (%s) was read: %s" % (want, ascii(doc)), "an exception",
                           ascii([tuple(t) for t in r[1]]))
        return "reject"
    if r[0] == "exc":
        raise Mismatch("document was refused: " + ascii(doc), canon_names(want), repr(r[1])[:800])
    got = [back_triple(t) for t in r[1]]
    if len(got) != len(set(got)) or not isomorphic(set(want), set(got)):
        raise Mismatch("document was read as something else: %s base=%r" % (ascii(doc), base), canon_names(set(want)), canon_names(got))
    return "accept %d" % len(set(want))
