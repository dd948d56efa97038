"""Reference Turtle reader, written from the W3C Turtle grammar and RFC 3986 section 5 alone.

read(doc, base) -> list of model triples; raises Reject for documents outside Turtle (or with an
undeclared prefix or an illegal IRI) and Open where the specification leaves the reading open.
"""
from .ntref import ALPHA, DIGIT, ECHAR, IRI_BAD, Reject, pn_chars, pn_chars_base, pn_chars_u, uchar
from .rdfmodel import RDF, XSD, B, I, L


class Open(Exception):
    pass


# ---- RFC 3986 ----

def split_ref(u):
    frag = query = auth = scheme = None
    if "#" in u:
        u, frag = u.split("#", 1)
    if "?" in u:
        u, query = u.split("?", 1)
    if ":" in u:
        s, rest = u.split(":", 1)
        if s and s[0] in ALPHA and all(c in ALPHA + DIGIT + "+-." for c in s):
            scheme, u = s, rest
    if u.startswith("//"):
        k = u.find("/", 2)
        k = len(u) if k < 0 else k
        auth, u = u[2:k], u[k:]
    return scheme, auth, u, query, frag


def remove_dots(p):
    """5.2.4, the loop as printed."""
    out = []
    while p:
        if p[:3] == "../":
            p = p[3:]
        elif p[:2] == "./":
            p = p[2:]
        elif p[:3] == "/./":
            p = p[2:]
        elif p == "/.":
            p = "/"
        elif p[:4] == "/../":
            p = p[3:]
            if out:
                out.pop()
        elif p == "/..":
            p = "/"
            if out:
                out.pop()
        elif p in (".", ".."):
            p = ""
        else:
            k = p.find("/", 1)
            k = len(p) if k < 0 else k
            out.append(p[:k])
            p = p[k:]
    return "".join(out)


def resolve(base, ref):
    s, a, p, q, f = split_ref(ref)
    if s is not None:
        return ref  # absolute: kept as written
    if base == "":
        return ref
    bs, ba, bp, bq, _ = split_ref(base)
    if a is not None:
        p = remove_dots(p)
    else:
        if p == "":
            p = bp
            if q is None:
                q = bq
        else:
            if p[0] == "/":
                p = remove_dots(p)
            else:
                if ba is not None and bp == "":
                    m = "/" + p
                else:
                    m = bp[:len(bp) - len(bp.split("/")[-1])] + p
                p = remove_dots(m)
        a = ba
    r = ""
    if bs is not None:
        r += bs + ":"
    if a is not None:
        r += "//" + a
    r += p
    if q is not None:
        r += "?" + q
    if f is not None:
        r += "#" + f
    return r


LOCAL_ESC = set("_~.-!$&'()*+,;=/?#@%")
HEX = set("0123456789abcdefABCDEF")
WS = " \t\r\n"


class Reader:
    def __init__(self, doc, base="", predeclared=True):
        self.s, self.i = doc, 0
        self.base = base
        self.prefixes = {"rdf": RDF, "xsd": XSD} if predeclared else {}
        self.out = []
        self.n = 0

    # -- lexical level --
    def fresh(self):
        self.n += 1
        return B(("anon", self.n))

    def skip(self):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in WS:
                self.i += 1
            elif c == "#":
                while self.i < len(s) and s[self.i] not in "\r\n":
                    self.i += 1
            else:
                return

    def peek(self):
        self.skip()
        return self.s[self.i:self.i + 1]

    def expect(self, c):
        if self.peek() != c:
            raise Reject("expected %r at %d" % (c, self.i))
        self.i += 1

    def boundary(self):
        """A keyword or number directly followed by a name character."""
        c = self.s[self.i:self.i + 1]
        if c and (pn_chars(c) or c in "%\\"):
            raise Open("keyword or number runs into %r" % c)

    def iriref_raw(self):
        s = self.s
        i = self.i + 1
        out = []
        while True:
            if i >= len(s):
                raise Reject("unterminated IRI")
            c = s[i]
            if c == ">":
                break
            if c == "\\":
                if s[i + 1:i + 2] not in ("u", "U"):
                    raise Reject("bad escape in IRI")
                ch, i = uchar(s, i)
                if ch in IRI_BAD:
                    raise Reject("escaped illegal character in IRI")
                out.append(ch)
            elif c in IRI_BAD:
                raise Reject("illegal character in IRI")
            else:
                out.append(c)
                i += 1
        self.i = i + 1
        v = "".join(out)
        if any(0xD800 <= ord(c) < 0xE000 for c in v):
            raise Open("surrogate")
        return v

    def pname_ns(self):
        """PN_PREFIX? ':' at the current position, or None."""
        s, i = self.s, self.i
        j = i
        if j < len(s) and pn_chars_base(s[j]):
            j += 1
            while j < len(s) and (pn_chars(s[j], False) or s[j] == "."):
                j += 1
            if s[j - 1] == ".":
                return None  # prefix must not end with '.'; and ':' cannot follow an earlier cut
        if s[j:j + 1] != ":":
            return None
        self.i = j + 1
        return s[i:j]

    def pn_local(self):
        """Longest PN_LOCAL at the current position ('' if none)."""
        s, i = self.s, self.i
        out = []
        end, endlen = i, 0
        first = True
        while i < len(s):
            c = s[i]
            if c == "%":
                if len(s[i + 1:i + 3]) == 2 and all(h in HEX for h in s[i + 1:i + 3]):
                    out.append(s[i:i + 3])
                    i += 3
                else:
                    break
            elif c == "\\":
                if s[i + 1:i + 2] and s[i + 1] in LOCAL_ESC:
                    out.append(s[i + 1])
                    i += 2
                else:
                    break
            elif first and (pn_chars_u(c) or c in DIGIT):
                out.append(c)
                i += 1
            elif not first and (pn_chars(c) or c == "."):
                out.append(c)
                i += 1
                if c == ".":
                    continue
            else:
                break
            first = False
            end, endlen = i, len(out)
        self.i = end
        return "".join(out[:endlen])

    def string(self):
        s, i = self.s, self.i
        q = s[i]
        if s[i:i + 3] == q * 3:
            r = self._long(q)
            if r is not None:
                return r
        return self._short(q)

    def _escape(self, i, out):
        s = self.s
        k = s[i + 1:i + 2]
        if k in ("u", "U") and k:
            ch, i = uchar(s, i)
            if 0xD800 <= ord(ch) < 0xE000:
                raise Open("surrogate")
            out.append(ch)
            return i
        if k and k in ECHAR:
            out.append(ECHAR[k])
            return i + 2
        raise Reject("bad escape at %d" % i)

    def _long(self, q):
        s, i, out = self.s, self.i + 3, []
        while True:
            if s[i:i + 3] == q * 3:
                self.i = i + 3
                return "".join(out)
            if i >= len(s):
                return None
            if s[i] == "\\":
                i = self._escape(i, out)
            else:
                out.append(s[i])
                i += 1

    def _short(self, q):
        s, i, out = self.s, self.i + 1, []
        while True:
            if i >= len(s) or s[i] in "\r\n":
                raise Reject("unterminated string")
            if s[i] == q:
                self.i = i + 1
                return "".join(out)
            if s[i] == "\\":
                i = self._escape(i, out)
            else:
                out.append(s[i])
                i += 1

    def number(self):
        s, i = self.s, self.i
        j = i
        if s[j:j + 1] in ("+", "-") and s[j:j + 1]:
            j += 1

        def digits(k):
            while k < len(s) and s[k] in DIGIT:
                k += 1
            return k

        def exponent(k):
            if s[k:k + 1] in ("e", "E") and s[k:k + 1]:
                m = k + 1
                if s[m:m + 1] in ("+", "-") and s[m:m + 1]:
                    m += 1
                e = digits(m)
                if e > m:
                    return e
            return None

        d = digits(j)
        best = None
        if d > j:
            best = (d, "integer")
            e = exponent(d)
            if e:
                best = max(best, (e, "double"))
        if s[d:d + 1] == ".":
            d2 = digits(d + 1)
            if d2 > d + 1:
                best = max(best or (0, ""), (d2, "decimal"))
            if d2 > d + 1 or d > j:
                e = exponent(d2)
                if e:
                    best = max(best or (0, ""), (e, "double"))
        if best is None:
            raise Reject("bad number at %d" % i)
        self.i = best[0]
        return L(s[i:best[0]], None, XSD + best[1])

    def langtag(self):
        s, j = self.s, self.i + 1
        k = j
        while k < len(s) and s[k] in ALPHA:
            k += 1
        if k == j:
            raise Reject("bad language tag")
        while s[k:k + 1] == "-":
            m = k + 1
            while m < len(s) and s[m] in ALPHA + DIGIT:
                m += 1
            if m == k + 1:
                break
            k = m
        self.i = k
        return s[j:k]

    # -- grammar --
    def run(self):
        while self.peek():
            self.statement()
        return self.out

    def statement(self):
        s = self.s
        c = self.peek()
        if c == "@":
            if s.startswith("@prefix", self.i):
                self.i += 7
                if pn_chars(s[self.i:self.i + 1] or " "):
                    raise Open("@prefix runs into a name")
                self.directive_prefix()
                self.expect(".")
            elif s.startswith("@base", self.i):
                self.i += 5
                self.directive_base()
                self.expect(".")
            else:
                raise Reject("unknown directive")
            return
        if s[self.i:self.i + 6].upper() == "PREFIX" or s[self.i:self.i + 4].upper() == "BASE":
            save = self.i
            ns = self.pname_ns()
            self.i = save
            if ns is None:
                n = 6 if s[self.i:self.i + 6].upper() == "PREFIX" else 4
                self.i += n
                self.boundary()
                (self.directive_prefix if n == 6 else self.directive_base)()
                return
        if c == "[":
            node, was_list = self.bracket()
            if not was_list:
                self.pol(node)
            elif self.peek() != ".":
                self.pol(node)
        else:
            self.pol(self.subject())
        self.expect(".")

    def directive_prefix(self):
        self.skip()
        ns = self.pname_ns()
        if ns is None:
            raise Reject("expected prefix name")
        if self.peek() != "<":
            raise Reject("expected IRI")
        self.prefixes[ns] = resolve(self.base, self.iriref_raw())

    def directive_base(self):
        if self.peek() != "<":
            raise Reject("expected IRI")
        self.base = resolve(self.base, self.iriref_raw())

    def subject(self):
        c = self.peek()
        if c == "(":
            return self.collection()
        if c == "_":
            return self.label()
        return self.iri()

    def label(self):
        s, j = self.s, self.i
        if s[j:j + 2] != "_:":
            raise Reject("expected blank node label")
        j += 2
        if j >= len(s) or not (pn_chars_u(s[j], False) or s[j] in DIGIT):
            raise Reject("bad blank node label")
        j += 1
        end = j
        while j < len(s) and (pn_chars(s[j], False) or s[j] == "."):
            j += 1
            if s[j - 1] != ".":
                end = j
        lab = s[self.i + 2:end]
        self.i = end
        return B(("label", lab))

    def iri(self):
        c = self.peek()
        if c == "<":
            return I(resolve(self.base, self.iriref_raw()))
        ns = self.pname_ns()
        if ns is None:
            raise Reject("expected a name at %d" % self.i)
        ln = self.pn_local()
        if ns not in self.prefixes:
            raise Reject("undeclared prefix %r" % ns)
        return I(self.prefixes[ns] + ln)

    def pol(self, subj):
        self.verb_objects(subj)
        while self.peek() == ";":
            while self.peek() == ";":
                self.i += 1
            if self.peek() in (".", "]", ""):
                break
            self.verb_objects(subj)

    def verb_objects(self, subj):
        c = self.peek()
        if c == "<":
            v = self.iri()
        else:
            save = self.i
            ns = self.pname_ns()
            self.i = save
            if ns is not None:
                v = self.iri()
            elif c == "a":
                self.i += 1
                self.boundary()
                v = I(RDF + "type")
            else:
                raise Reject("expected a predicate at %d" % self.i)
        while True:
            self.out.append((subj, v, self.object()))
            if self.peek() != ",":
                return
            self.i += 1

    def object(self):
        c = self.peek()
        if c == "":
            raise Reject("document ends where an object is expected")
        if c == "(":
            return self.collection()
        if c == "[":
            return self.bracket()[0]
        if c == "_":
            return self.label()
        if c in "\"'":
            v = self.string()
            # no white space rule: the suffix may be separated
            c = self.peek()
            if c == "@":
                return L(v, self.langtag())
            if self.s[self.i:self.i + 2] == "^^":
                self.i += 2
                self.skip()
                return L(v, None, self.iri()[1])
            return L(v, None, XSD + "string")
        if c in DIGIT or c in "+-.":
            return self.number()
        save = self.i
        ns = self.pname_ns()
        self.i = save
        if ns is None:
            for w in ("true", "false"):
                if self.s.startswith(w, self.i):
                    self.i += len(w)
                    self.boundary()
                    return L(w, None, XSD + "boolean")
        return self.iri()

    def bracket(self):
        """'[' ... -> (node, True if it had a predicate-object list)"""
        start = self.i
        self.i += 1
        j = self.i
        while j < len(self.s) and self.s[j] in WS:
            j += 1
        if self.s[j:j + 1] == "]":
            self.i = j + 1
            return self.fresh(), False
        if self.peek() == "]":
            raise Open("comment inside []")
        node = self.fresh()
        self.pol(node)
        self.expect("]")
        return node, True

    def collection(self):
        self.expect("(")
        items = []
        while self.peek() != ")":
            if self.peek() == "":
                raise Reject("unterminated collection")
            items.append(self.object())
        self.i += 1
        node = I(RDF + "nil")
        for it in reversed(items):
            cell = self.fresh()
            self.out.append((cell, I(RDF + "first"), it))
            self.out.append((cell, I(RDF + "rest"), node))
            node = cell
        return node


def read(doc, base="", predeclared=True):
    return Reader(doc, base, predeclared).run()
