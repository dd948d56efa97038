"""Families of documents in which one number grows."""
from .scale import text

S, P, O = "<http://e/s>", "<http://e/p>", "<http://e/o>"


def lit(n):
    """Spelling of a literal of n characters, by escapes where needed."""
    return "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n"}.get(c, c) for c in text(n))


def lines_doc(kind, n, quads):
    g = " <http://e/g>" if quads else ""
    st = lambda s, p, o, gg=g: "%s %s %s%s ." % (s, p, o, gg)
    if kind == "lines":
        return "\n".join(st("<http://e/s%d>" % (i % 5), "<http://e/p%d>" % i, '"%d"' % i, (g, "", " _:g%d" % (i % 3))[i % 3] if quads else "") for i in range(n))
    if kind == "blank lines":
        return st(S, P, O) + "\n" * (n + 1) + st(S, P, '"2"')
    if kind == "indented blank lines":
        return st(S, P, O) + "\r\n" + " \t\r\n" * n + st(S, P, '"2"') + "\r\n"
    if kind == "comments":
        return "".join("# c%d <http://e/s>\n" % i for i in range(n)) + st(S, P, O) + " # end"
    if kind == "comment length":
        return st(S, P, O) + " #" + "\u00e9. <" * n + "\n" + st(S, P, '"2"')
    if kind == "spaces":
        return " " * n + S + "\t" * n + P + " " * n + O + " " * n + g + " " * n + "." + "\t" * n + "\n" + st(S, P, '"2"')
    if kind == "literal":
        return st(S, P, '"%s"' % lit(n)) + "\n" + st(S, P, '"%s"@en' % lit(n)) + "\n" + st(S, P, '"%s"^^<http://e/dt>' % lit(n))
    if kind == "escapes":
        return st(S, P, '"%s"' % ("\\u00e9\\U0001F600\\t" * n)) + "\n" + st("<http://e/%s>" % ("\\u00e9" * n), P, O)
    if kind == "iri":
        return st("<http://e/%s>" % ("a" * n), "<http://e/?%s>" % ("%41" * n), "<http://e/#%s>" % ("\u00e9" * n), " <urn:x:%s>" % ("g" * n) if quads else "")
    if kind == "label":
        return st("_:b" + "a." * n + "z", P, "_:b" + "a." * n + "y", " _:b" + "a." * n + "z" if quads else "") + "\n" + st("_:" + "\u00e9" * (n + 1), P, "_:" + "\u00e9" * (n + 2))
    if kind == "tag":
        return st(S, P, '"x"@en' + "-abc1" * n) + "\n" + st(S, P, '"x"@' + "a" * (n + 1))
    if kind == "labels":
        return "\n".join([st("_:n%d" % i, "<http://e/p%d>" % (i % 3), "_:n%d" % ((i + 1) % n)) for i in range(n)] + [st("_:n%d" % i, "<http://e/q>", '"%d"' % i) for i in range(n)])
    if kind == "one label":
        return "\n".join(st("_:n", "<http://e/p%d>" % i, "_:n" if i % 2 else "_:m") for i in range(n))
    raise AssertionError(kind)


LINE_KINDS = ["lines", "blank lines", "indented blank lines", "comments", "comment length", "spaces", "literal", "escapes", "iri", "label", "tag", "labels", "one label"]


def ttl_doc(kind, n):
    if kind == "quotes":
        t = text(n)
        esc = lambda q, long: "".join("\\" + c if c in ("\\", q) else "\\n" if c == "\n" and not long else c for c in t)
        return "%s %s \"%s\", '%s', \"\"\"%s\"\"\", '''%s''' ." % (S, P, esc('"', 0), esc("'", 0), esc('"', 1), esc("'", 1))
    if kind == "long string lines":
        return S + " " + P + ' """' + "a\r\n\"\"b\n'" * n + '"""@en , \'\'\'' + "#\r'" * n + "x''' ."
    if kind == "local":
        return "@prefix p: <http://e/> .\np:%s p:a%s p:%s ." % ("a" * n, "\\-" * n, "%41" * n) + "p:z%sz p:x %s ." % ("." * n, ":" + "" if 0 else "p:" + ":" * n)
    if kind == "prefix":
        return "@prefix a%sz: <http://e/> .\nPREFIX a%sy: <http://f/>\na%sz:s a%sy:p a%sz: ." % (("b" * n,) * 5)
    if kind == "prefixes":
        return "".join("@prefix p%d: <http://e/%d/> .\n" % (i, i) for i in range(n)) + "".join("p%d:s p%d:p p%d:o .\n" % (i, (i + 1) % n, (i * 7 + 1) % n) for i in range(n))
    if kind == "redefinitions":
        return "".join("@prefix p: <http://e/%d/> .\np:s p:p p:o .\n" % i for i in range(n))
    if kind == "bases":
        return "@base <http://e/a/> .\n" + "".join("@base <d%d/x> .\n<s> <p> <../o> .\n" % i for i in range(n))
    if kind == "up":
        return "@base <http://e/%sz> .\n<%sx> <p> <%s> ." % ("a/" * n, "../" * n, "../" * (n // 2) + "." )
    if kind == "numbers":
        d = ("1234567890" * (n // 10 + 1))[:n]
        return "%s %s 0%s, -0%s, 0%s.0%s, .0%s, 0%se1, 1.E%s1, 1e+1%s ." % (S, P, d, d, d, d, d, d, "0" * n, d)
    if kind == "space":
        return " " * n + S + "\n" * n + P + "\t" * n + O + "\r\n" * n + "," + "#c\n" * n + '"x"' + " " * n + "." + "\n" * n
    if kind == "semicolons":
        return S + " " + P + " " + O + " ;" + " ;\n" * n + "<http://e/q> 1 " + ";" * n + ". " + S + " <http://e/r> [ <http://e/q> 1 " + ";" * n + "] ."
    if kind == "comment length":
        return S + " " + P + " #" + "\u00e9. <'" * n + "\n" + O + " ."
    if kind == "escapes":
        return '%s %s "%s", """%s""" . <http://e/%s> %s 1 .' % (S, P, "\\u00e9\\U0001F600\\t" * n, "\\u00e9\\r" * n, "\\u00e9" * n, P)
    if kind == "labels":
        return "".join("_:n%d <http://e/p%d> _:n%d , [ <http://e/r> _:n%d ] , %d .\n" % (i, i % 3, (i + 1) % n, i, i) for i in range(n))
    if kind == "label":
        return "_:b%sz <http://e/p> _:b%sy , ( _:b%sz ) ." % (("a." * n,) * 3)
    raise AssertionError(kind)


TTL_TERMS = ["quotes", "long string lines", "local", "numbers", "space", "comment length", "escapes", "label"]
TTL_NAMES = ["prefix", "prefixes", "redefinitions", "bases", "up"]
TTL_KINDS = TTL_TERMS + TTL_NAMES + ["semicolons", "labels"]
MANY = {"lines", "labels", "one label", "prefixes", "redefinitions", "bases", "comments"}


def sizes(kind, tier):
    th = tier == "thorough"
    if kind == "tag":
        return list(range(0, 40))
    if kind in MANY:
        return list(range(1, 41)) + [k + d for k in (64, 100, 128, 256) + ((512, 1000, 1024) if th else ()) for d in (-1, 0, 1)]
    return list(range(0, 70)) + [k + d for k in (128, 256, 512, 1024) + ((2048, 4096, 8192, 16384) if th else (4096,)) for d in (-1, 0, 1)]
