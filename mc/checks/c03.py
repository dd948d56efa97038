"""C03: N-Triples output reads back as the same graph."""
from ..ntcheck import make_spaces

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive round trips of the real serializer and parser against a reference N-Triples reader"
RULE = ("every graph in the bounds is written by serialize_ntriples; the text is decoded by an independent reader written from the "
        "W3C grammar and by the real parser, and both must be isomorphic to the graph (IRIs percent-encoded as a URI)")
ASSUMPTIONS = ["lone surrogates are not Unicode text", "language tags follow the grammar; a literal has not both a language and a datatype"]


def spaces(tier):
    return make_spaces(tier, False)
