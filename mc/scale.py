"""Families of graphs in which one number grows: what holds for small graphs has to hold for graphs of any size."""
from .rdfmodel import XSD, B, I, L

P, O, S = I("http://e/p"), I("http://e/o"), I("http://e/s")
TEXT = "ab \"\\\n\u00e9\U0001f600'"


def text(n):
    return (TEXT * (n // len(TEXT) + 1))[:n]


def triples(kind, n):
    """model statements of a graph of the family `kind` of size n"""
    r = range(n)
    if kind == "blank subjects":
        return [(B("n%d" % i), P, L("v%d" % i)) for i in r]
    if kind == "blank objects":
        return [(I("http://e/s%d" % i), P, B("n%d" % i)) for i in r]
    if kind == "blank chain":
        return [(B("n%d" % i), I("http://e/p%d" % i), B("n%d" % (i + 1))) for i in r]
    if kind == "one blank node":
        return [(B("n"), P, O)] + [(I("http://e/s%d" % i), P, B("n")) for i in r]
    if kind == "subjects":
        return [(I("http://e/s%d" % i), P, O) for i in r]
    if kind == "predicates":
        return [(S, I("http://e/p%d" % i), O) for i in r]
    if kind == "objects":
        return [(S, P, [I("http://e/o%d" % i), L("%d" % i), L("%d" % i, None, XSD + "integer"), L("v", "en-x%d" % i)][i % 4]) for i in r]
    if kind == "literal length":
        return [(S, P, L(text(n))), (S, P, L(text(n), "en")), (S, P, L(text(n)[::-1], None, "http://e/dt"))]
    if kind == "iri length":
        return [(I("http://e/" + "a/b.c~" * (n // 6) + "x" * (n % 6)), P, I("http://e/?q=" + "z" * n)), (S, I("http://e/#" + "\u00e9" * n), L("x", None, "urn:x:" + "y" * n))]
    if kind == "tag length":
        return [(S, P, L("x", "en" + "-abcdefgh" * n)), (S, P, L("x", "a" * (n + 1)))]
    raise AssertionError(kind)


KINDS = ["blank subjects", "blank objects", "blank chain", "one blank node", "subjects", "predicates", "objects", "literal length", "iri length", "tag length"]


def sizes(kind, tier):
    if kind in ("literal length", "iri length"):
        return list(range(0, 140)) + [k + d for k in (256, 512, 1024, 4096, 8192, 16384) + ((65536,) if tier == "thorough" else ()) for d in (-1, 0, 1)]
    if kind == "tag length":
        return list(range(1, 40))
    return list(range(0, 131)) + [255, 256, 257, 300] + ([999, 1000, 1001, 1025, 3000] if tier == "thorough" else [1001])
