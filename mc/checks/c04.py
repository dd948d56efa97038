"""C04: N-Quads output reads back as the same dataset."""
from ..ntcheck import make_spaces

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive round trips of the real serializer and parser against a reference N-Quads reader"
RULE = ("every dataset in the bounds is written by serialize_nquads; the text is decoded by an independent reader written from the "
        "W3C grammar and by the real parser, and both must be isomorphic to the dataset (IRIs percent-encoded as a URI)")
ASSUMPTIONS = ["lone surrogates are not Unicode text", "language tags follow the grammar; a literal has not both a language and a datatype"]


def spaces(tier):
    return make_spaces(tier, True)
