"""Reference reader for N-Triples and N-Quads, written from the W3C grammars alone."""
from .rdfmodel import B, I, L


class Reject(Exception):
    pass


_BASE = [(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
         (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD),
         (0x10000, 0xEFFFF)]


def pn_chars_base(c):
    n = ord(c)
    return any(a <= n <= b for a, b in _BASE)


def pn_chars_u(c, colon=True):
    return c == "_" or (colon and c == ":") or pn_chars_base(c)


def pn_chars(c, colon=True):
    n = ord(c)
    return (pn_chars_u(c, colon) or c == "-" or 0x30 <= n <= 0x39 or n == 0xB7 or 0x300 <= n <= 0x36F
            or 0x203F <= n <= 0x2040)


HEX = "0123456789abcdefABCDEF"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = "0123456789"
ECHAR = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}
IRI_BAD = set(map(chr, range(0x21))) | set('<>"{}|^`\\')


def uchar(s, i):
    """Decode \\uXXXX or \\UXXXXXXXX at s[i] (a backslash)."""
    k = s[i + 1:i + 2]
    n = 4 if k == "u" else 8
    h = s[i + 2:i + 2 + n]
    if len(h) != n or any(c not in HEX for c in h):
        raise Reject("bad numeric escape at %d" % i)
    v = int(h, 16)
    if v > 0x10FFFF:
        raise Reject("escape beyond Unicode at %d" % i)
    return chr(v), i + 2 + n


def iriref(s, i):
    out = []
    i += 1
    while True:
        if i >= len(s):
            raise Reject("unterminated IRI")
        c = s[i]
        if c == ">":
            return "".join(out), i + 1
        if c == "\\":
            if s[i + 1:i + 2] not in ("u", "U"):
                raise Reject("bad escape in IRI")
            ch, i = uchar(s, i)
            out.append(ch)
        elif c in IRI_BAD:
            raise Reject("illegal character in IRI at %d" % i)
        else:
            out.append(c)
            i += 1


def string(s, i):
    out = []
    i += 1
    while True:
        if i >= len(s):
            raise Reject("unterminated string")
        c = s[i]
        if c == '"':
            return "".join(out), i + 1
        if c in "\r\n":
            raise Reject("line end in string")
        if c == "\\":
            k = s[i + 1:i + 2]
            if k in ("u", "U") and k:
                ch, i = uchar(s, i)
                out.append(ch)
            elif k and k in ECHAR:
                out.append(ECHAR[k])
                i += 2
            else:
                raise Reject("bad escape at %d" % i)
        else:
            out.append(c)
            i += 1


def label(s, i):
    """'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?  longest match."""
    if s[i:i + 2] != "_:":
        raise Reject("expected blank node label at %d" % i)
    j = i + 2
    if j >= len(s) or not (pn_chars_u(s[j]) or s[j] in DIGIT):
        raise Reject("bad blank node label")
    j += 1
    end = j
    while j < len(s) and (pn_chars(s[j]) or s[j] == "."):
        j += 1
        if s[j - 1] != ".":
            end = j
    return s[i + 2:end], end


def langtag(s, i):
    j = i + 1
    k = j
    while k < len(s) and s[k] in ALPHA:
        k += 1
    if k == j:
        raise Reject("bad language tag")
    while s[k:k + 1] == "-":
        m = k + 1
        while m < len(s) and s[m] in ALPHA + DIGIT:
            m += 1
        if m == k + 1:
            break
        k = m
    return s[j:k], k


def ws(s, i):
    while i < len(s) and s[i] in " \t":
        i += 1
    return i


def read(s, quads=False):
    """-> list of (s, p, o) or (s, p, o, g) model statements in document order; raises Reject."""
    out = []
    i = 0
    fresh = True  # at the start of the document or after a line end
    while True:
        i = ws(s, i)
        if i < len(s) and s[i] == "#":
            while i < len(s) and s[i] not in "\r\n":
                i += 1
        if i >= len(s):
            return out
        if s[i] in "\r\n":
            i += 1
            fresh = True
            continue
        if not fresh:
            raise Reject("two statements on a line at %d" % i)
        fresh = False
        terms = []
        # subject
        if s[i] == "<":
            v, i = iriref(s, i)
            terms.append(I(v))
        else:
            v, i = label(s, i)
            terms.append(B(v))
        i = ws(s, i)
        if s[i:i + 1] != "<":
            raise Reject("predicate must be an IRI")
        v, i = iriref(s, i)
        terms.append(I(v))
        i = ws(s, i)
        c = s[i:i + 1]
        if c == "<":
            v, i = iriref(s, i)
            terms.append(I(v))
        elif c == "_":
            v, i = label(s, i)
            terms.append(B(v))
        elif c == '"':
            v, i = string(s, i)
            i = ws(s, i)
            if s[i:i + 1] == "@":
                t, i = langtag(s, i)
                terms.append(L(v, t))
            elif s[i:i + 2] == "^^":
                i = ws(s, i + 2)
                if s[i:i + 1] != "<":
                    raise Reject("datatype must be an IRI")
                t, i = iriref(s, i)
                terms.append(L(v, None, t))
            else:
                terms.append(L(v))
        else:
            raise Reject("bad object at %d" % i)
        i = ws(s, i)
        if quads:
            c = s[i:i + 1]
            if c == "<":
                v, i = iriref(s, i)
                terms.append(I(v))
            elif c == "_":
                v, i = label(s, i)
                terms.append(B(v))
            else:
                terms.append(None)
            i = ws(s, i)
        if s[i:i + 1] != ".":
            raise Reject("expected '.' at %d" % i)
        i += 1
        out.append(tuple(terms))


URI_OK = set(ALPHA + DIGIT + "-._~" + ":/?#[]@!$&'()*+,;=" + "%")


def quoted(iri):
    """The IRI as a URI: everything that may not occur in a URI percent-encoded as UTF-8."""
    return "".join(c if c in URI_OK else "".join("%%%02X" % x for x in c.encode("utf-8")) for c in iri)


def quoted_term(t):
    if t is None or t[0] == "B":
        return t
    if t[0] == "I":
        return ("I", quoted(t[1]))
    return ("L", t[1], t[2], None if t[3] is None else quoted(t[3]))


def quoted_stmts(stmts):
    return {tuple(quoted_term(z) for z in s) for s in stmts}
