"""C09: every spelling of a term in Turtle."""
import itertools

from .. import docscale
from ..chars import SPECIAL, batches, strings
from ..core import Mismatch, Space
from ..ntref import IRI_BAD, Reject
from ..ttlcheck import verdict
from ..ttlref import Open, read

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive spellings, real Turtle parser against a reference lexer/reader written from the grammar"
RULE = ("every string up to a length over the characters that matter to a terminal, every code point in every terminal, every escape, "
        "every one-character edit of a document set: same verdict, same terms with the same lexical form")
ASSUMPTIONS = ["keywords (a, true, false, PREFIX) running straight into a name, comments inside [] and escapes denoting surrogates are left open"]

HEAD = "@prefix : <http://e/> .\n@prefix p: <http://e/p#> .\n"

ESCAPES = ["\\\\", "\\", "u0041", "\\U0001F600", "\\u005C", "\\u0022", "n", "\\n", "x", '\\"', "\\'"]
FORMS = {
    # name: (template, alphabet, quick length, thorough length)
    "dq": (':s :p "{}" .', '"\'\\nu0\n\ra \u00e9', 4, 5),
    "sq": (":s :p '{}' .", '"\'\\nt0\n\ra ', 4, 5),
    "dq3": (':s :p """{}""" .', '"\'\\nu0\n\ra', 4, 5),
    "sq3": (":s :p '''{}''' .", '"\'\\nU0\n\ra', 4, 5),
    "quotes": (":s :p {} .", "\"'a\\ ", 6, 7),
    "escapes-dq": (':s :p "{}" .', ESCAPES, 4, 5),
    "escapes-sq": (":s :p '{}' .", ESCAPES, 3, 5),
    "escapes-dq3": (':s :p """{}""" .', ESCAPES, 3, 5),
    "escapes-iri": ("<http://e/{}> :p :o .", ["\\u005C", "\\u0041", "u0041", "\\U00000041", "\\", "x", "%41", "\\u0025", "41", "\\u00e9"], 4, 5),
    "escapes-local": ("p:{} :p :o .", ["%41", "\\%", "41", "\\\\", "u0041", "\\u0041", "x", "\\~", "%5C", "%25", "\\-"], 4, 5),
    "number": (":s :p {} .", "+-.09eE", 5, 6),
    "number-dot": (":s :p {}.", "+-.1eE", 5, 6),
    "number-list": ("( {} ) :p :o .", "-.1e ", 6, 7),
    "suffix": (':s :p "x"{} .', ["@", "e", "-", "0", "^^", "^", ":", "<http://e/d>", " ", "_", "#"], 4, 5),
    "local": ("p:{} :p :o .", "a.:-_%4\\~\u00e90", 4, 5),
    "local-end": (":s :p p:{}.", "a.:%4\\-'/", 4, 5),
    "local-list": (":s :p ( p:{} ) .", "a.:% \\,_", 4, 5),
    "label": ("_:{} :p _:a .", "a.-:_0\u00e9\u00b7", 5, 6),
    "label-end": (":s :p _:{}.", "a.-_0:", 5, 6),
    "keyword": (":s :p {} .", ["true", "false", "TRUE", "True", "a", "tru", ":", ".", " ", "t", "e", "0"], 3, 4),
    "verb": (":s {} :o .", ["a", "A", ":", "is", "of", "=", " ", "b", "<http://e/v>", "^", "p:a", "_:b", '"x"', "true"], 3, 4),
    "iri": ("<http://e/{}> :p :o .", ["a", " ", "\\", "u", "0", "00e9", "\\u00e9", "\\u0020", "\\u003E", "\\U0001F600", "<", "\"", "{", "%", "\u00e9", "\n", "^"], 3, 4),
    "separators": (":s{}:p{}1{}.", None, 0, 0),
}
GAPS = ["", " ", "\t", "\n", "\r", "\r\n", "#c\n", "#c\r", " # \"<[(\n", "#\n#\n", "\x0b", "\x0c", "\xa0", "\u2028", "#c", "\ufeff"]


def x_form(case):
    _, name, items = case
    tpl = FORMS[name][0]
    out = []
    for s in items:
        doc = HEAD + tpl.replace("{}", s)
        out.append(verdict(doc)[0] + s)
    return [name + o for o in out], len(out)


def c_form(deep):
    def gen():
        for name, (tpl, alpha, q, t) in FORMS.items():
            if alpha is None:
                continue
            for b in batches(strings(list(alpha), t if deep else q), 200):
                yield ("form", name, b)
    return gen


def x_gap(case):
    _, toks, i, g1, j, g2 = case
    parts = []
    for k, t in enumerate(toks):
        parts.append(t)
        parts.append(g1 if k == i else g2 if k == j else " ")
    doc = HEAD + "".join(parts)
    return verdict(doc) + doc, 1


STMTS = [(":s", ":p", '"x"', "@en", "."), (":s", ":p", '"x"', "^^", "p:d", ";", ":q", "1", "."), ("[", ":p", "(", "1.0", "_:b", ")", "]", "."),
         ("_:b", "a", "[]", ",", "true", "."), ("@prefix", "x:", "<http://x/>", ".", "x:", "x:a", "'y'", "."), ("BASE", "<http://x/>", "<s>", "<p>", "<o>", ".")]


def c_gap():
    for toks in STMTS:
        for i in range(len(toks)):
            for j in range(i + 1, len(toks)):
                for g1, g2 in itertools.product(GAPS[:10], repeat=2):
                    yield ("gap", toks, i, g1, j, g2)
            for g1 in GAPS:
                yield ("gap", toks, i, g1, -1, "")


PLACES = {
    "dq": ':s :p{n} "a{c}b" .', "sq": ":s :p{n} 'a{c}b' .", "dq3": ':s :p{n} """a{c}b""" .', "sq3": ":s :p{n} '''a{c}b''' .",
    "iri": "<http://e/{c}b> :p{n} 1 .", "local-first": "p:{c} :p{n} 1 .", "local-mid": "p:a{c}b :p{n} 1 .", "local-last": "p:a{c} :p{n} 1 .",
    "label-first": "_:{c} :p{n} 1 .", "label-mid": "_:a{c}b :p{n} _:a .", "label-last": "_:a{c} :p{n} 1 .",
    "prefix-first": "@prefix {c}: <http://e/q> . {c}:x :p{n} 1 .", "prefix-mid": "@prefix a{c}b: <http://e/q> . a{c}b:x :p{n} 1 .",
    "prefix-last": "@prefix a{c}: <http://e/q> . a{c}:x :p{n} 1 .",
    "comment": ":s :p{n} 1 . # {c}", "between": ":s{c}:p{n} 1 .", "lang": ':s :p{n} "x"@e{c}n .', "langsub": ':s :p{n} "x"@en-{c} .',
    "echar": ':s :p{n} "a\\{c}b" .', "local-esc": "p:a\\{c} :p{n} 1 .", "bare": ":s :p{n} {c} .", "digit": ":s :p{n} 1{c} .",
}
ASTRAL = ("dq", "sq", "dq3", "sq3", "iri", "local-first", "local-mid", "local-last", "label-first", "label-mid", "label-last", "prefix-first", "prefix-mid",
          "prefix-last", "comment")


def place(where, c, n):
    return PLACES[where].replace("{n}", str(n)).replace("{c}", c)


def x_cp(case):
    _, where, lo, hi, pack = case
    cs = [k for k in range(lo, hi) if not 0xD800 <= k < 0xE000]
    if pack:
        n = 0
        for i in range(0, len(cs), 64):
            verdict(HEAD + place(where, "".join(map(chr, cs[i:i + 64])), 0))
            n += 1
        return "%s %d packed" % (where, lo), n
    good, n = [], 0
    for k in cs:
        doc = place(where, chr(k), k)
        try:
            read(HEAD + doc)
            good.append(doc)
        except Reject:
            verdict(HEAD + doc)
            n += 1
        except Open:
            pass
    if good:
        verdict(HEAD + "\n".join(good))
        n += 1
    return ["%s %d" % (where, k) for k in cs] if lo < 0x3100 else "%s %d" % (where, lo), n


def c_cp(deep):
    def gen():
        for where in PLACES:
            hi = 0x110000 if where in ASTRAL else 0x3000 if deep else 0x800
            for lo in range(0, hi, 256):
                edge = lo < (0x3100 if "first" in where or "mid" in where or "last" in where else 0x300) or not 0x100 <= lo & 0xFFFF < 0xFF00 or 0xD700 <= lo < 0x10000
                yield ("cp", where, lo, lo + 256, 0 if edge or deep else 1)
    return gen


def x_esc(case):
    _, lo, hi = case
    ks = [k for k in range(lo, hi) if not 0xD800 <= k < 0xE000]
    n = 0
    lines = []
    for i, k in enumerate(ks):
        e = ("\\u%04X" if k & 1 else "\\u%04x") % k if k < 0x10000 else ("\\U%08X" if k & 1 else "\\U%08x") % k
        lines.append(':s :p%d %s%s%s , "\\U%08X" .' % (i, ('"', "'", '"""', "'''")[i & 3], e, ('"', "'", '"""', "'''")[i & 3], k))
        if chr(k) not in IRI_BAD:
            lines.append("<http://e/%s> :q%d 1 ." % (e, i))
        else:
            verdict(HEAD + "<http://e/%s> :q%d 1 ." % (e, i))
            n += 1
    if lines:
        verdict(HEAD + "\n".join(lines))
    return "esc %d" % lo, n + 1


def c_esc(deep):
    def gen():
        for lo in range(0, 0x110000, 128):
            if deep or lo < 0x3000 or lo % 0x1000 == 0 or 0xD700 <= lo < 0x10100:
                yield ("esc", lo, lo + 128)
    return gen


DOCS = [
    ":s :p 'x'@en-u5, \"a\\n\"^^p:d .",
    "p:a%41\\-b a [ :p -1.5e+3 ] ; :q .5 .",
    "_:b.c :p '''a'b\\u00e9''' , ( true -0 1. ) .",
    "<http://e/\\u00e9> :p \"\"\"x\"\n\"\"\" . # c",
    "@prefix q: <x#> . BASE <http://f/> q: q:1.2 1.e1.",
]
EDIT = SPECIAL + list("beE+~[](/|`}&!$") + ["\xb7", "\u0300", "\u203f", "\ue000"]


def x_edit(case):
    _, d, pos = case
    doc = DOCS[d]
    outs = {doc[:pos] + doc[pos + 1:], doc[:pos], doc[:pos] + doc[pos:pos + 1] + doc[pos:],
            doc[:pos] + doc[pos + 1:pos + 2] + doc[pos:pos + 1] + doc[pos + 2:]}
    for c in EDIT:
        outs.add(doc[:pos] + c + doc[pos:])
        outs.add(doc[:pos] + c + doc[pos + 1:])
    return [verdict(HEAD + o)[0] + o for o in sorted(outs)], len(outs)


def c_edit():
    for d in range(len(DOCS)):
        for pos in range(len(DOCS[d]) + 1):
            yield ("edit", d, pos)


def x_edit2(case):
    _, d, pos = case
    doc = DOCS[d]
    n = 0
    E2 = list("\"'\\.:@^<>#_-%a1e [](),;\n")
    for e1 in [doc[:pos] + c + doc[pos + 1:] for c in E2] + [doc[:pos] + c + doc[pos:] for c in E2] + [doc[:pos] + doc[pos + 1:]]:
        for j in range(pos, len(e1) + 1):
            for o in [e1[:j] + c + e1[j:] for c in E2] + [e1[:j] + e1[j + 1:]]:
                verdict(HEAD + o)
                n += 1
    return "e2 %r" % (case,), n


# ---- every number of hexadecimal digits after \\u and \\U, in every place an escape may stand ----
DIGITS = {"dq": ':s :p "{}" .', "sq": ":s :p '{}' .", "dq3": ':s :p """{}""" .', "sq3": ":s :p '''{}''' .", "iri": ":s :p <http://e/{}> .",
          "dtype": ':s :p "x"^^<http://e/{}> .', "prefix": "@prefix q: <http://e/{}> . q: q: q: .", "base": "BASE <http://e/{}> <> <> <> ."}


def x_digits(case):
    _, where, letter = case
    docs = set()
    for n in range(0, 11):
        for d in ("0" * n, ("0" * n)[:-2] + "41"[:n], ("0" * n)[:-2] + "eF"[:n], "F" * n, "1" * n, "0010ffff"[:n], "00110000"[:n]):
            for k in range(-1, n):
                x = d if k < 0 else d[:k] + "g" + d[k + 1:]
                for before, after in (("", ""), ("a", "b"), ("", "g"), ("", " "), ("\\u0041", "\\U00000042"), ("", "\\")):
                    docs.add(DIGITS[where].replace("{}", before + letter + x + after))
    return [verdict(HEAD + d)[0] + d for d in sorted(docs)], len(docs)


def c_digits():
    for where in DIGITS:
        for letter in ("\\u", "\\U", "\\x", "u", "\\\\u", "\\\\U"):
            yield ("digits", where, letter)


# ---- documents in which one number grows ----
def c_scale(tier):
    def gen():
        for kind in docscale.TTL_TERMS:
            for b in batches(iter(docscale.sizes(kind, tier)), 10):
                yield ("scale", kind, b)
    return gen


def x_scale(case):
    keys = []
    for n in case[2]:
        v = verdict(docscale.ttl_doc(case[1], n))
        if not v.startswith("accept"):
            raise AssertionError("family %s is not in the language: %s" % (case[1], v))
        keys.append("%s %d %s" % (case[1], n, v))
    return keys, len(keys)


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("spellings", c_form(deep), x_form, "; ".join("%s up to %d of %d" % (k, v[3 if deep else 2], len(v[1])) for k, v in FORMS.items() if v[1]), limit_s=600),
        Space("gaps", c_gap, x_gap, "every pair of gaps of %d statements from 10 separators, every gap from %d" % (len(STMTS), len(GAPS))),
        Space("edits", c_edit, x_edit, "every one-character edit of %d documents over %d characters" % (len(DOCS), len(EDIT))),
        Space("scale", c_scale(tier), x_scale, "%d families of documents, sizes 0 to 70 and around powers of two" % len(docscale.TTL_TERMS)),
        Space("escapes", c_esc(deep), x_esc, "numeric escapes of every code point" if deep else "numeric escapes of U+0000..U+2FFF and of each 4096-block's start"),
        Space("escape-digits", c_digits, x_digits, "0 to 10 digits after \\u and \\U, each one in turn not a digit, at %d places" % len(DIGITS)),
        Space("code-points", c_cp(deep), x_cp, "every code point in every terminal (%s)" % ("one by one" if deep else "away from range edges 64 at a time")),
    ]
    if deep:
        out.append(Space("edits-2", c_edit, x_edit2, "every two edits of %d documents" % len(DOCS), limit_s=900))
    return out
