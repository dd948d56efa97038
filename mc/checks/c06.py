"""C06: the N-Triples and N-Quads readers against a recognizer written from the grammars."""
import itertools

from .. import docscale
from ..chars import SPECIAL, batches, codepoints, strings
from ..core import Mismatch, Space, attempt
from ..ntref import IRI_BAD, Reject, pn_chars, pn_chars_u, read
from ..rdfmodel import B, I, L, back_quad, back_triple, canon_names, isomorphic
from pymantic.parsers import nquads_parser, ntriples_parser

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive comparison of the real readers with a hand-written grammar recognizer"
RULE = ("every document in the bounds (token sequences, all one-character edits of a document set, every code point in every "
        "terminal, every escape) is given to the recognizer and to the real parser: same verdict, isomorphic statements")
ASSUMPTIONS = ["documents with escapes denoting surrogates, or denoting characters not allowed in an IRI inside an IRI, are left open"]


def dontcare(stmts):
    for s in stmts:
        for t in s:
            if t is None:
                continue
            parts = [t[1]] + ([t[3]] if t[0] == "L" and t[3] else [])
            for i, v in enumerate(parts):
                if any(0xD800 <= ord(c) < 0xE000 for c in v):
                    return True
                if (t[0] == "I" or i == 1) and any(c in IRI_BAD for c in v):
                    return True
    return False


def verdict(doc, quads):
    parser, backf = (nquads_parser, back_quad) if quads else (ntriples_parser, back_triple)
    try:
        want = read(doc, quads)
    except Reject as e:
        want = e
    if not isinstance(want, Exception) and dontcare(want):
        return "open"
    r = attempt(parser.parse, doc)
    if isinstance(want, Exception):
        if r[0] == "ok":
            raise Mismatch("document outside the grammar (%s) was read: %s" % (want, ascii(doc)), "an exception",
                           ascii([tuple(t) for t in r[1]]))
        return "reject"
    if r[0] == "exc":
        raise Mismatch("document was refused: " + ascii(doc), canon_names(want), repr(r[1])[:800])
    got = [backf(t) for t in r[1]]
    if len(got) != len(set(got)) or not isomorphic(set(want), set(got)):
        raise Mismatch("document was read as something else: " + ascii(doc), canon_names(want), canon_names(got))
    return "accept %d" % len(set(want))


TOK_T = ["<http://e/a>", "_:a", '"x"', "@en", "^^", ".", "\n", " ", "#c"]
TOK_Q = TOK_T


def x_tokens(case):
    _, quads, prefix, depth = case
    keys = []
    n = 0
    stack = [list(prefix)]
    for k in range(depth + 1):
        for tail in itertools.product(TOK_T, repeat=k):
            doc = "".join(prefix) + "".join(tail)
            v = verdict(doc, quads)
            n += 1
            if v != "reject":
                keys.append(v + doc)
    return keys, n


def c_tokens(depth):
    def gen():
        for quads in (False, True):
            yield ("tok", quads, (), 1)
            for prefix in itertools.product(TOK_T, repeat=2):
                yield ("tok", quads, prefix, depth - 2)
            # valid beginnings, so that the depth is spent past the subject and predicate
            for beg in (("<http://e/s>", "<http://e/p>"), ("_:s", " ", "<http://e/p>"), ("<http://e/s>", "<http://e/p>", '"o"')):
                for t in TOK_T:
                    yield ("tok", quads, beg + (t,), depth - 2)
            for beg in (("<http://e/s>", "<http://e/p>", "_:b", " ", ".", "\n"), ("#c", "\n"), ("<http://e/s> <http://e/p> \"x\"@en .", "\r")):
                for t in TOK_T:
                    yield ("tok", quads, beg + (t,), depth - 3)
    return gen


DOCS_T = [
    '<http://e/s> <http://e/p> <http://e/o> .\n',
    '_:s <http://e/p> _:o.\n_:o <http://e/p> _:s .',
    '<http://e/s><http://e/p>"x"@en-u5.\n',
    '<http://e/s>\t<http://e/p>\t"x\\n\\u00e9\\\\"^^<http://e/d>\t.\r\n',
    '# c\n\n<http://e/s> <http://e/p> "" . # "c" <d>\n',
    '  \n_:a.b <http://e/p> "a\\"b" .\r\r_:a <http://e/\\u00E9> "\\U0001F600" .',
]
DOCS_Q = [
    '<http://e/s> <http://e/p> <http://e/o> <http://e/g> .\n',
    '_:s <http://e/p> _:o _:g.\n_:g <http://e/p> "x"@en _:s .',
    '<http://e/s><http://e/p>"x"^^<http://e/d><http://e/g>.\n',
    '<http://e/s> <http://e/p> "x" .\n<http://e/s> <http://e/p> "x" _:a.b .\n',
]
EDIT = SPECIAL + ["b", "B", "e", "F", "G", "9", "~", "[", "]", "(", "|", "`", "}", "\xb7", "\xd7", "\u0300", "\u203f", "\ue000"]


def x_edit(case):
    _, quads, d, pos = case
    doc = (DOCS_Q if quads else DOCS_T)[d]
    keys = []
    n = 0
    outs = {doc[:pos] + doc[pos + 1:], doc[:pos] + doc[pos:pos + 1] + doc[pos:], doc[:pos], doc[pos:]}
    for c in EDIT:
        outs.add(doc[:pos] + c + doc[pos:])
        outs.add(doc[:pos] + c + doc[pos + 1:])
    outs.add(doc[:pos] + doc[pos + 1:pos + 2] + doc[pos:pos + 1] + doc[pos + 2:])
    for o in sorted(outs):
        v = verdict(o, quads)
        n += 1
        keys.append(v + o if v != "reject" else "r" + o)
    return keys, n


def c_edit():
    for quads, docs in ((False, DOCS_T), (True, DOCS_Q)):
        for d, doc in enumerate(docs):
            for pos in range(len(doc) + 1):
                yield ("edit", quads, d, pos)


EDIT2 = ['"', "\\", "\n", "\r", " ", "a", ".", "@", "^", "<", ">", "#", "_", ":", "u", "0", "-", "\u00e9"]


def x_edit2(case):
    _, quads, d, pos = case
    doc = (DOCS_Q if quads else DOCS_T)[d]
    n = 0
    for e1 in [doc[:pos] + c + doc[pos + 1:] for c in EDIT2] + [doc[:pos] + c + doc[pos:] for c in EDIT2] + [doc[:pos] + doc[pos + 1:]]:
        for j in range(pos, len(e1) + 1):
            for o in [e1[:j] + c + e1[j:] for c in EDIT2] + [e1[:j] + e1[j + 1:]]:
                verdict(o, quads)
                n += 1
    return "e2 %r" % (case,), n


def c_edit2():
    for quads, docs in ((False, DOCS_T[:4]), (True, DOCS_Q[:3])):
        for d, doc in enumerate(docs):
            for pos in range(len(doc)):
                yield ("edit2", quads, d, pos)


PLACES = ["label-first", "label-mid", "label-last", "iri", "lit", "lang", "langsub", "between", "comment"]


FORMS = {
    "label-first": "_:{c} <http://e/p{n}> <http://e/o> .",
    "label-mid": "<http://e/s> <http://e/p{n}> _:a{c}b .",
    "label-last": "_:a{c} <http://e/p{n}> _:a .",
    "iri": "<http://e/{c}a> <http://e/p{n}> <http://e/o> .",
    "lit": '<http://e/s> <http://e/p{n}> "a{c}b" .',
    "lang": '<http://e/s> <http://e/p{n}> "x"@e{c}n .',
    "langsub": '<http://e/s> <http://e/p{n}> "x"@en-{c} .',
    "between": "<http://e/s>{c}<http://e/p{n}> <http://e/o> .",
    "comment": "<http://e/s> <http://e/p{n}> <http://e/o> . # {c}",
}


def place(where, c, n=0):
    return FORMS[where].replace("{n}", str(n)).replace("{c}", c)


def x_cp(case):
    """Legal ones are read together as one document, illegal ones one by one."""
    _, where, lo, hi, pack = case
    good, n = [], 0
    if pack:
        # all of one kind: one statement holds them all
        cs = [chr(k) for k in range(lo, hi) if not 0xD800 <= k < 0xE000]
        for i in range(0, len(cs), 64):
            verdict(place(where, "".join(cs[i:i + 64])), False)
            n += 1
        return "%s %d packed" % (where, lo), n
    for k in range(lo, hi):
        if 0xD800 <= k < 0xE000:
            continue
        doc = place(where, chr(k), k)
        try:
            read(doc)
            legal = "\n" not in doc and "\r" not in doc
        except Reject:
            legal = False
        if legal:
            good.append(doc)
        else:
            verdict(doc, False)
            n += 1
    # labels are scoped to the document: distinct code points give distinct nodes
    if good:
        verdict("\n".join(good), False)
        verdict("\n".join(g[:-1] + " <http://e/g> ." if where != "comment" else g for g in good[::16]), True)
        n += 2
    return ["%s %d" % (where, k) for k in range(lo, hi)] if lo < 0x3100 else "%s %d" % (where, lo), n


def c_cp(step, deep):
    def gen():
        for where in PLACES:
            hi = 0x110000
            if where in ("lang", "langsub", "between"):
                hi = 0x3000
            for lo in range(0, hi, step):
                edge = lo < (0x3100 if where not in ("iri", "lit", "comment") else 0x800) or not 0x100 <= lo & 0xFFFF < 0xFF00 or 0xD700 <= lo < 0x10000
                yield ("cp", where, lo, min(lo + step, hi), 0 if edge or deep else 1)
    return gen


def x_esc(case):
    _, kind, items = case
    if kind == "u4":
        lo, hi = items
        doc = "\n".join('<http://e/s> <http://e/p> "%s" .' % "".join(
            (("\\u%04X" if k & 1 else "\\u%04x") % k) for k in range(b, b + 16) if not 0xD800 <= k < 0xE000) for b in range(lo, hi, 16))
        verdict(doc, False)
        doc = "\n".join('<http://e/\\u%04X> <http://e/p> "" .' % k for k in range(lo, hi)
                        if not 0xD800 <= k < 0xE000 and chr(k) not in IRI_BAD)
        if doc:
            verdict(doc, False)
        return "u4 %d" % lo, 2
    if kind == "u8":
        lo, hi = items
        doc = "\n".join('<http://e/s> <http://e/p> "%s" .' % "".join(
            (("\\U%08X" if k & 1 else "\\U%08x") % k) for k in range(b, b + 16) if not 0xD800 <= k < 0xE000) for b in range(lo, hi, 16))
        verdict(doc, False)
        return "u8 %d" % lo, 1
    if kind == "one":
        out = []
        for s in items:
            for doc in ('<http://e/s> <http://e/p> "a%sb" .' % s, '<http://e/s> <http://e/p%s> "" .' % s):
                out.append(verdict(doc, False))
        return [repr(i) for i in items], 2 * len(items)


def c_esc(deep):
    def gen():
        for lo in range(0, 0x10000, 256):
            yield ("esc", "u4", (lo, lo + 256))
        for lo in range(0, 0x110000, 256 if deep else 4096):
            yield ("esc", "u8", (lo, lo + 256))
        for k in range(0, 0x3000, 32):
            yield ("esc", "one", tuple("\\" + chr(j) for j in range(k, k + 32)))
        # every pattern of hex / non-hex digits, every length
        hexes = ["\\u" + "".join(t) for n in range(0, 6) for t in itertools.product("0g", repeat=n)]
        hexes += ["\\U" + "".join(t) for n in (0, 3, 4, 7, 8, 9) for t in itertools.product("0G", repeat=n) if n < 9 or t.count("G") < 2]
        hexes += ["\\U00110000", "\\U0010FFFF", "\\UFFFFFFFF", "\\U0000D7FF", "\\u{41}", "\\x41", "\\u 041", "\\u+041", "\\u-041", "\\u0_41", "\\\\u0041",
                  "\\\\\\u0041", "\\u005Cn", "\\u005c\\u0022", "\\u0022", "\\N{BULLET}", "\\101"]
        for i in range(0, len(hexes), 20):
            yield ("esc", "one", tuple(hexes[i:i + 20]))
    return gen


# every choice of whitespace between every two tokens of a statement
def x_ws(case):
    _, quads, toks, gaps = case
    doc = gaps[0] + "".join(t + g for t, g in zip(toks, gaps[1:]))
    return verdict(doc, quads) + doc, 1


def c_ws():
    for quads in (False, True):
        for o in ((("<http://e/o>",), ("_:o",), ('"x"',), ('"x"', "@en"), ('"x"', "^^", "<http://e/d>"))):
            for g in (((), ("<http://e/g>",), ("_:g",)) if quads else ((),)):
                for s in ("<http://e/s>", "_:s"):
                    toks = (s, "<http://e/p>") + o + g + (".",)
                    for gaps in itertools.product(("", " ", "\n", "\t \t", " #c\n"), repeat=2):
                        for i in range(len(toks) + 1):
                            for j in range(i + 1, len(toks) + 1):
                                for rest in ("", " "):
                                    yield ("ws", quads, toks, tuple(gaps[0] if k == i else gaps[1] if k == j else rest for k in range(len(toks) + 1)))


# lines: every sequence of line kinds with every line end
LINES = ["", " \t", "#c", " # <x> .", "<http://e/s> <http://e/p> _:a .", "  _:a <http://e/p> \"x\" . #c", "<http://e/s> <http://e/p> .", "_:b <http://e/p> _:a ."]


def x_lines(case):
    _, quads, lines, eols, last = case
    final = "" if last else eols[-1] if eols else "\n"
    doc = "".join(l + e for l, e in zip(lines, eols + (final,)))
    return verdict(doc, quads) + doc, 1


def c_lines(n):
    def gen():
        for quads in (False, True):
            for k in range(1, n + 1):
                for ls in itertools.product(LINES, repeat=k):
                    for eol in ("\n", "\r", "\r\n", "\n\r", "\n\n"):
                        yield ("lines", quads, ls, (eol,) * (k - 1), True)
                        yield ("lines", quads, ls, (eol,) * (k - 1), False)
            for ls in itertools.product(LINES, repeat=2):
                for e in itertools.product(("\n", "\r", "\r\n"), repeat=1):
                    yield ("lines", quads, ls + ls, e * 3, True)
    return gen


PIECES = ["\\\\", "\\", "u0041", "U0001F600", "\\u005C", "\\u0022", "n", "\\n", "x", '\\"', "\\t"]
IPIECES = ["\\u005C", "\\u0041", "u0041", "\\U00000041", "x", "%41", "\\u0025", "41", "\\u00e9", "\\"]


def x_pieces(case):
    _, k, items = case
    for s in items:
        if k == 2:
            verdict('<http://e/s> <http://e/p> <http://e/d%s> .' % s, False)
        else:
            verdict(('<http://e/s> <http://e/p> "%s" .', '_:a <http://e/p> "%s"@en <http://e/g> .')[k] % s, k == 1)
    return ["%d%s" % (k, s) for s in items], len(items)


def c_pieces(n):
    def gen():
        for k in range(3):
            for b in batches(strings(IPIECES if k == 2 else PIECES, n), 200):
                yield ("pieces", k, b)
    return gen


# ---- documents in which one number grows ----
def c_scale(tier):
    def gen():
        for quads in (False, True):
            for kind in docscale.LINE_KINDS:
                for b in batches(iter(docscale.sizes(kind, tier)), 20):
                    yield ("scale", quads, kind, b)
    return gen


def x_scale(case):
    _, quads, kind, ns = case
    keys = []
    for n in ns:
        v = verdict(docscale.lines_doc(kind, n, quads), quads)
        if not v.startswith("accept"):
            raise AssertionError("family %s is not in the language: %s" % (kind, v))
        keys.append("%s %s %d %s" % (quads, kind, n, v))
    return keys, len(keys)


def spaces(tier):
    deep = tier == "thorough"
    d = 7 if deep else 6
    out = [
        Space("tokens", c_tokens(d), x_tokens, "every sequence of up to %d of %d tokens, and up to %d more after valid beginnings" % (d, len(TOK_T), d - 1), limit_s=900),
        Space("whitespace", c_ws, x_ws, "every pair of gaps of every statement form from 5 kinds of separator"),
        Space("lines", c_lines(3 if not deep else 4), x_lines, "every sequence of up to %d of %d kinds of line, 5 line ends" % (4 if deep else 3, len(LINES))),
        Space("edits", c_edit, x_edit, "every one-character insertion, replacement, deletion, swap and truncation of %d documents over %d characters" % (len(DOCS_T) + len(DOCS_Q), len(EDIT))),
        Space("scale", c_scale(tier), x_scale, "%d families of documents, sizes 0 to 70 and around powers of two" % len(docscale.LINE_KINDS)),
        Space("escapes", c_esc(deep), x_esc, "every \\u escape, \\U escapes, every malformed length and digit pattern, every character after a backslash"),
        Space("escape sequences", c_pieces(4 if deep else 3), x_pieces, "every sequence of up to %d of %d escapes and texts like escapes" % (4 if deep else 3, len(PIECES))),
        Space("code-points", c_cp(256, deep), x_cp, "every code point in every terminal (%s)" % ("one by one" if deep else "away from range edges 64 at a time")),
    ]
    if deep:
        out.append(Space("edits-2", c_edit2, x_edit2, "every two edits of 7 documents", limit_s=900))
    return out
