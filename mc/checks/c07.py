"""C07: the statement structure of Turtle, against a recursive-descent reference reader."""
import itertools

from .. import docscale
from ..core import Mismatch, Space, heartbeat
from ..ntref import Reject
from ..ttlcheck import verdict
from ..ttlref import Open, Reader

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive token sequences and syntax trees, real Turtle parser against a reference reader"
RULE = ("depth-first over all token sequences that begin some document, every one-token extension (viable or not) compared; all syntax "
        "trees up to a size; results compared up to isomorphism so that fresh nodes must be fresh")
ASSUMPTIONS = ["nesting is explored to depth 100 (the parser is recursive, so Python's recursion limit applies far beyond that)"]

HEAD = "@prefix : <http://e/> .\n"
TOK = [":x", "a", '"l"', "_:b", "[", "]", "(", ")", ";", ",", ".", "[]"]
ENDS = {1: (".", ":x .", ":x :x .", ":x :x :x .", "] .", ") .", ":x ] .", ":x :x ] .", ") :x :x ."),
        2: (".", "5 .", "_:c .", "] .", ") .", "<http://e/x> 5 .", "<http://e/x> 5 ] .")}
TOK2 = ["<http://e/x>", "_:b", "_:c", "5", "[", "]", "(", ")", ";", ",", "."]


def viable(doc):
    """Can the text be continued to a document? (the reference reader fails only by running out of text)"""
    r = Reader(doc)
    try:
        r.run()
        return True
    except Open:
        return False
    except Reject:
        return r.peek() == ""


def x_tokens(case):
    _, alpha, prefix, depth = case
    toks = TOK if alpha == 1 else TOK2
    keys, n = [], 0
    stack = [tuple(prefix)]
    while stack:
        p = stack.pop()
        heartbeat()
        for t in toks:
            q = p + (t,)
            doc = HEAD + " ".join(q)
            v = verdict(doc)
            n += 1
            if v.startswith("accept"):
                keys.append(" ".join(q))
            if v.startswith("accept") or viable(doc):
                if len(q) < depth:
                    stack.append(q)
            else:
                # nothing that begins like this is a document, however it goes on
                for end in ENDS[alpha]:
                    verdict(doc + " " + end)
                n += len(ENDS[alpha])
    return keys or ["none"], n


def prefixes(toks, k):
    out, level = [()], [()]
    for _ in range(k):
        level = [p + (t,) for p in level for t in toks if viable(HEAD + " ".join(p + (t,)))]
        out += level
    return level


def c_tokens(d1, d2):
    def gen():
        for alpha, toks, d in ((1, TOK, d1), (2, TOK2, d2)):
            for k in range(0, 3):
                for p in prefixes(toks, k):
                    yield ("tok", alpha, p, k + 1)
            for p in prefixes(toks, 3):
                yield ("tok", alpha, p, d)
    return gen


# ---- syntax trees ----
LEAVES = {"rich": [":o", '"l"', "_:b", "[]", "()"], "lean": [":o", "[]"]}


class Trees:
    """All object expressions, sequences, predicate-object lists and statements by size."""

    def __init__(self, leaves):
        self.leaves, self.o, self.s, self.p, self.st = leaves, {}, {}, {}, {}

    def objects(self, n):
        if n not in self.o:
            if n == 1:
                self.o[n] = list(self.leaves)
            else:
                self.o[n] = ["[ " + p + " ]" for p in self.pols(n - 1)] + ["( " + " ".join(q) + " )" for q in self.sequences(n - 1)]
        return self.o[n]

    def sequences(self, n):
        if n not in self.s:
            self.s[n] = [(o,) + r for k in range(1, n) for o in self.objects(k) for r in self.sequences(n - k)] + [(o,) for o in self.objects(n)]
        return self.s[n]

    def pols(self, n):
        if n not in self.p:
            out = []
            for k in range(1, n + 1):
                for seq in self.sequences(k):
                    head = ":p " + " , ".join(seq)
                    if k == n:
                        out.append(head)
                        if n <= 2:
                            out.append("a " + " , ".join(seq))
                            out.append(head + " ;")
                    else:
                        for rest in self.pols(n - k):
                            out.append(head + " ; " + rest.replace(":p ", ":q ", 1))
                            if n <= 3:
                                out.append(head + " ; ; " + rest)
            self.p[n] = out
        return self.p[n]

    def statements(self, n):
        if n not in self.st:
            out = []
            for pol in self.pols(n):
                out += [":s " + pol, "_:b " + pol, "[] " + pol]
            for k in range(1, n):
                for pol in self.pols(n - k):
                    out += ["( " + " ".join(q) + " ) " + pol for q in self.sequences(k)]
                    out += ["[ " + inner + " ] " + pol for inner in self.pols(k)]
            out += ["[ " + inner + " ]" for inner in self.pols(n)]
            self.st[n] = out
        return self.st[n]


TREES = {k: Trees(v) for k, v in LEAVES.items()}


def x_trees(case):
    _, kind, size, lo, hi = case
    keys = TREES[kind].statements(size)[lo:hi]
    for st in keys:
        v = verdict(HEAD + st + " .")
        if not v.startswith("accept"):
            raise AssertionError("the reference reader does not accept " + st)
    return keys, len(keys)


# ---- one token taken away, doubled, exchanged, put in or put in another's place ----
EDIT_TOK = [":x", "a", '"l"', "[", "]", "(", ")", ";", ",", ".", "[]", "()", "@en", "^^", "@prefix", "base", "true", "1"]


def x_tree_edits(case):
    _, kind, size, lo, hi, full = case
    docs = set()
    for st in TREES[kind].statements(size)[lo:hi]:
        toks = st.split() + ["."]
        for i in range(len(toks)):
            docs.add(" ".join(toks[:i] + toks[i + 1:]))
            docs.add(" ".join(toks[:i + 1] + toks[i:]))
            docs.add(" ".join(toks[:i] + toks[i + 1:i + 2] + toks[i:i + 1] + toks[i + 2:]))
            if full:
                for t in EDIT_TOK:
                    docs.add(" ".join(toks[:i] + [t] + toks[i:]))
                    docs.add(" ".join(toks[:i] + [t] + toks[i + 1:]))
    heartbeat()
    keys = [verdict(HEAD + d)[:6] + d for d in sorted(docs)]
    return [k for k in keys if k[0] == "a"] + ["rejected %s %d %d" % (kind, size, lo)], len(docs)


def c_tree_edits(*bounds):
    def gen():
        for kind, size, full in bounds:
            n = len(TREES[kind].statements(size))
            step = 10 if full else 50
            for lo in range(0, n, step):
                yield ("tree-edit", kind, size, lo, min(lo + step, n), full)
    return gen


def c_trees(*bounds):
    def gen():
        for kind, maxsize in bounds:
            for size in range(1, maxsize + 1):
                n = len(TREES[kind].statements(size))
                for lo in range(0, n, 100):
                    yield ("tree", kind, size, lo, min(lo + 100, n))
    return gen


# ---- documents of several statements: labels are shared, anonymous nodes are not ----
STMTS = [":s :p :o .", ":s :p _:b .", "_:b :p _:c .", "_:c :p [] .", "[ :p _:b ] .", ":s :p [ :q _:c ] .", "[] a :t .", ":s :p ( _:b [] ) .",
         "( 1 ) :p () .", ":s :p :o , _:b , [ :p 1 ] ; :q ( ( ) ) ; .", "[ :p [ :p [] ] ] :q _:b ."]


def x_docs(case):
    doc = HEAD + case[2].join(STMTS[i] for i in case[1])
    return verdict(doc) + repr(case[1]), 1


def c_docs(n):
    def gen():
        for k in range(0, n + 1):
            for idx in itertools.product(range(len(STMTS)), repeat=k):
                yield ("docs", idx, "\n")
        for idx in itertools.product(range(len(STMTS)), repeat=2):
            for sep in ("", " ", "\r", "\t#c\n"):
                yield ("docs", idx, sep)
    return gen


def x_scale(case):
    _, kind, n = case
    if kind == "nest-list":
        doc = ":s :p " + "( " * n + "1" + " )" * n + " ."
    elif kind == "nest-bnode":
        doc = ":s :p " + "[ :p " * n + "1" + " ]" * n + " ."
    elif kind == "nest-mix":
        doc = ":s :p " + "[ :p ( " * n + "1" + " ) ]" * n + " ."
    elif kind == "nest-subject":
        doc = "( " * n + "1" + " )" * n + " :p 1 ."
    elif kind == "nest-subject-bnode":
        doc = "[ :p " * n + "1" + " ]" * n + " :q 2 ."
    elif kind == "long-list":
        doc = ":s :p ( " + " ".join(str(i) for i in range(n)) + " ) ."
    elif kind == "long-objects":
        doc = ":s :p " + " , ".join("[ :q %d ]" % i for i in range(n)) + " ."
    elif kind == "long-predicates":
        doc = ":s " + " ; ".join(":p%d ( %d [] )" % (i, i) for i in range(n)) + " ."
    elif kind == "long-doc":
        doc = "\n".join("_:b%d :p%d _:b%d ." % (i, i, (i * 7 + 3) % n) for i in range(n))
    else:
        doc = docscale.ttl_doc(kind, n)
    return verdict(HEAD + doc) + kind + str(n), 1


def c_scale(deep):
    def gen():
        for kind in ("nest-list", "nest-bnode", "nest-mix", "nest-subject", "nest-subject-bnode", "long-list", "long-objects", "long-predicates", "long-doc", "semicolons", "labels"):
            for n in list(range(1, 40)) + [64, 100] + ([200, 500] if deep and not kind.startswith("nest") else []):
                yield ("scale", kind, n if kind != "nest-mix" else max(1, n // 2))
    return gen


def spaces(tier):
    deep = tier == "thorough"
    bounds = (("rich", 4), ("lean", 5)) if deep else (("rich", 3), ("lean", 4))
    ebounds = (("rich", 1, 1), ("rich", 2, 1), ("lean", 3, 1), ("rich", 3, 0), ("lean", 4, 0)) if deep else (("rich", 1, 1), ("lean", 2, 1), ("rich", 2, 0), ("lean", 3, 0))
    return [
        Space("tokens", c_tokens(9 if deep else 7, 9 if deep else 7), x_tokens,
              "every token sequence of up to %d tokens that begins a document, with every next token" % (9 if deep else 7), limit_s=600),
        Space("trees", c_trees(*bounds), x_trees, "every statement tree with up to n object nodes: %s" % (bounds,), limit_s=600),
        Space("tree-edits", c_tree_edits(*ebounds), x_tree_edits, "every statement tree with one token deleted, doubled or exchanged with the next%s: (leaves, object nodes, all edits) %s" % (
            " or any of %d put in or in its place" % len(EDIT_TOK), ebounds), limit_s=600),
        Space("documents", c_docs(4 if deep else 3), x_docs, "every sequence of up to %d of %d statements" % (4 if deep else 3, len(STMTS))),
        Space("scale", c_scale(deep), x_scale, "nesting 1..100, lengths 1..%d" % (500 if deep else 100)),
    ]
