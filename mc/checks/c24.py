"""C24: IRI normalization is total, idempotent and preserves the identified resource."""
import itertools

from ..chars import batches
from ..core import Mismatch, Space, attempt
from pymantic.util import normalize_iri, quote_normalized_iri

LEVEL = "model_checking"
TECHNIQUE = "exhaustive IRIs over literal characters and percent-encoded bytes through the real functions, against a byte-level reference"
RULE = ("every string of up to k tokens (literal characters and encoded bytes), every encoded byte, pair of bytes, UTF-8 shaped sequence and "
        "character, every way of encoding short strings: normal form, idempotence, quoting, resource kept token by token")
ASSUMPTIONS = ["IRIs hold no lone surrogates; a percent sign not followed by two hex digits is only required not to raise"]

RESERVED = "%:/?#[]@!$&'()*+,;="
HEX = "0123456789abcdefABCDEF"
UNRES = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"


def tokens(s):
    """The string as characters and encoded bytes: ('c', char) or ('b', value)."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "%" and len(s) >= i + 3 and s[i + 1] in HEX and s[i + 2] in HEX:
            out.append(("b", int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(("c", s[i]))
            i += 1
    return out


def utf8(data, i):
    """Length of the well-formed UTF-8 character at data[i] (Unicode, table 3-7), 0 if there is none."""
    b = data[i]
    if b < 0x80:
        return 1
    if 0xC2 <= b <= 0xDF:
        n, lo, hi = 2, 0x80, 0xBF
    elif 0xE0 <= b <= 0xEF:
        n, lo, hi = 3, 0xA0 if b == 0xE0 else 0x80, 0x9F if b == 0xED else 0xBF
    elif 0xF0 <= b <= 0xF4:
        n, lo, hi = 4, 0x90 if b == 0xF0 else 0x80, 0x8F if b == 0xF4 else 0xBF
    else:
        return 0
    if i + n > len(data) or not lo <= data[i + 1] <= hi:
        return 0
    return n if all(0x80 <= x <= 0xBF for x in data[i + 2:i + n]) else 0


def value(data):
    """Code point of one well-formed UTF-8 character."""
    if len(data) == 1:
        return data[0]
    v = data[0] & (0x7F >> len(data))
    for x in data[1:]:
        v = v << 6 | x & 0x3F
    return v


def ref_normal(s):
    out, run = [], []

    def flush():
        i = 0
        while i < len(run):
            n = utf8(run, i)
            if n:
                ch = chr(value(run[i:i + n]))
                if ord(ch) > 0x20 and ch not in RESERVED:
                    out.append(ch)
                    i += n
                    continue
            for x in run[i:i + (n or 1)]:
                out.append("%%%02X" % x)
            i += n or 1
        del run[:]

    for k, v in tokens(s):
        if k == "b":
            run.append(v)
        else:
            flush()
            out.append(v)
    flush()
    return "".join(out)


def resource(s):
    """What the IRI identifies: its bytes, literal reserved characters kept apart from encoded ones."""
    out = []
    for k, v in tokens(s):
        if k == "b":
            out.append(v)
        elif v in RESERVED:
            out.append(v)
        else:
            out.extend(v.encode("utf-8"))
    return out


def check(s):
    st, n = attempt(normalize_iri, s)
    if st != "ok":
        raise Mismatch("normalize_iri raised", None, repr((s, n)))
    if not isinstance(n, str):
        raise Mismatch("normalize_iri gave no string", None, repr(n))
    want = ref_normal(s)
    if n != want:
        raise Mismatch("normal form of %r" % s, want, n)
    st, again = attempt(normalize_iri, n)
    if st != "ok" or again != n:
        raise Mismatch("normalizing %r twice" % s, n, again)
    st, q = attempt(quote_normalized_iri, n)
    if st != "ok":
        raise Mismatch("quote_normalized_iri raised", None, repr((n, q)))
    if resource(q) != resource(s):
        raise Mismatch("quoting the normal form of %r changed the resource" % s, resource(s), q)
    for k, v in tokens(q):
        if k == "c" and v not in UNRES and v not in RESERVED.replace("%", ""):
            raise Mismatch("unsafe character in the quoted form of %r" % s, None, q)
    if normalize_iri(q) != n:
        raise Mismatch("the quoted form of %r does not normalize to its normal form" % s, n, normalize_iri(q))
    return n


LITERAL = ["a", "Z", "1", "/", "#", ":", "&", "-", "~", "\u00e9", "\U0001f600", "\u0416", "<", "\"", "C", "\u007f"]
ENCODED = ["%41", "%2F", "%2f", "%25", "%20", "%0a", "%0A", "%7F", "%7e", "%C3", "%A9", "%c3", "%a9", "%E2", "%82", "%AC", "%F0", "%9F", "%98", "%80",
           "%FF", "%3C", "%22", "%ED", "%A0", "%C0", "%F4", "%30", "%1F", "%00", "%3d"]
TOKENS = LITERAL + ENCODED


def x_batch(case):
    keys = [check(s) for s in expand(case)]
    return keys, len(keys)


def expand(case):
    kind, rest = case[0], case[1:]
    if kind == "tok":
        k, first = rest
        for t in itertools.product(TOKENS, repeat=k - 1):
            yield first + "".join(t)
    elif kind == "pair":
        b, cases, pre, post = rest
        for c in range(256):
            yield pre + cases % b + cases % c + post
    elif kind == "single":
        for b in range(256):
            for f in ("%%%02X", "%%%02x", "%%%02X%%41", "x%%%02xy", "%%C3%%A9%%%02x", "%%%02X%%C3%%A9", "a%%%02X%%2F", "\u00e9%%%02x\u00e9"):
                yield f % b
    elif kind == "seq":
        lead, second, tails, n = rest
        for t in itertools.product(tails, repeat=n):
            yield "".join("%%%02X" % x for x in (lead, second) + t)
    elif kind == "char":
        lo, hi, fmt = rest
        for c in range(lo, hi):
            if 0xD800 <= c <= 0xDFFF:
                continue
            yield "".join(fmt % x for x in chr(c).encode("utf-8"))
            if fmt == "%%%02X" and c > 0x20 and c != 0x25:
                yield "a" + chr(c) + "%41"
    elif kind == "long":
        a, b, = rest
        for n in list(range(1, 40)) + [100, 255, 256, 257, 1000]:
            yield a * n + b
            yield b + a * n
            yield (a + b) * n


def c_tokens(n):
    def gen():
        yield ("tok", 1, "")
        for k in range(1, n + 1):
            for t in TOKENS:
                yield ("tok", k, t)
    return gen


def c_pairs():
    for cases in ("%%%02X", "%%%02x"):
        for pre, post in (("", ""), ("a", "b"), ("%C3", ""), ("", "%A9"), ("%E2", "%AC"), ("/%2F", "%c3%a9")):
            for b in range(256):
                yield ("pair", b, cases, pre, post)


TAILS = [0x00, 0x20, 0x25, 0x2F, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xC3, 0xE2, 0xF0, 0xFF]


def c_seqs(deep):
    def gen():
        for lead in range(0xC0 if not deep else 0, 256):
            for second in (range(256) if deep else TAILS):
                for n in ((1, 2) if not deep else (1, 2, 3)):
                    yield ("seq", lead, second, tuple(TAILS), n)
    return gen


def c_chars(hi, step=1024):
    def gen():
        for fmt in ("%%%02X", "%%%02x"):
            for lo in range(0, hi, step):
                yield ("char", lo, lo + step, fmt)
    return gen


def c_long():
    for a in ENCODED + ["a", "\u00e9"]:
        for b in ("", "%41", "%C3%A9", "%C3", "%2F", "x", "%A9"):
            yield ("long", a, b)


# ---- every way of encoding one string ----

SPELL = ["a", "5", "~", "\u00e9", "\u20ac", "\U0001f600", "<", " ", "/", "\n", "%", "\u007f", "J"]


def forms(ch):
    """Spellings of a character that mean the same: as itself when that is not a different thing, and encoded in either case."""
    bs = ch.encode("utf-8")
    out = []
    if ch not in RESERVED and ord(ch) > 0x20:
        out.append(ch)
    out.append("".join("%%%02X" % b for b in bs))
    out.append("".join("%%%02x" % b for b in bs))
    out.append("".join(("%%%02x" if i % 2 else "%%%02X") % b for i, b in enumerate(bs)))
    out.append("".join("%%%s%s" % (("%02x" % b)[0].upper(), ("%02x" % b)[1].lower()) for b in bs))
    return list(dict.fromkeys(out))


def x_spell(case):
    forms_ = ["".join(t) for t in itertools.product(*map(forms, case))]
    norms = {check(f) for f in forms_}
    if len(norms) != 1:
        raise Mismatch("spellings of one IRI normalize differently", forms_, sorted(norms))
    if case and case[0] == "/":
        other = "/" + forms_[0][3:]
        if check(other) in norms:
            raise Mismatch("a literal and an encoded slash normalize alike", None, other)
    return norms, len(forms_)


# ---- not IRIs ----

STRAY = ["%", "%4", "%g", "4", "1", "%41", "%C3", "\u00e9", "A", "%%", " "]


def x_stray(case):
    s = "".join(case)
    st, n = attempt(normalize_iri, s)
    if st != "ok":
        raise Mismatch("normalize_iri raised on %r" % s, None, repr(n))
    st, q = attempt(quote_normalized_iri, n)
    if st != "ok":
        raise Mismatch("quote_normalized_iri raised on %r" % n, None, repr(q))
    if any(ord(c) > 126 or ord(c) < 33 for c in q):
        raise Mismatch("quoted form of %r" % s, None, q)
    return n, 1


# ---- whole IRIs ----

PARTS = [["http://", "HTTP://", "urn:"], ["e.x", "\u00e9.x", "%C3%A9.x", "[::1]:80"], ["", "/", "/a%2Fb", "/%7Ea/%e9/%c3%a9", "/a/../."],
         ["", "?q=%26&r=%41", "?%FF", "?\u00e9=%3D"], ["", "#%23", "#\u00e9%20"]]


def x_whole(case):
    check("".join(case))
    return "".join(case), 1


def spaces(tier):
    deep = tier == "thorough"
    k = 4 if deep else 3
    return [
        Space("tokens", c_tokens(k), x_batch, "strings of up to %d tokens of %d" % (k, len(TOKENS))),
        Space("single bytes", lambda: [("single",)], x_batch, "every byte in context"),
        Space("byte pairs", c_pairs, x_batch, "every pair of encoded bytes in six contexts, both cases"),
        Space("sequences", c_seqs(deep), x_batch, "UTF-8 shaped sequences of up to %d bytes" % (5 if deep else 4)),
        Space("characters", c_chars(0x110000 if deep else 0x20000), x_batch, "every character encoded in either case, and as itself"),
        Space("spellings", lambda: (t for n in range(1, (5 if deep else 4)) for t in itertools.product(SPELL, repeat=n)), x_spell,
              "every mix of encodings of every short string"),
        Space("long runs", c_long, x_batch, "runs of up to 1000 tokens"),
        Space("stray percent signs", lambda: (t for n in range(0, 6 if deep else 5) for t in itertools.product(STRAY, repeat=n)), x_stray, "strings that are no IRIs"),
        Space("whole IRIs", lambda: itertools.product(*PARTS), x_whole, "combinations of parts"),
    ]
