"""Round trips through N-Triples / N-Quads (used by C03 and C04)."""
import io
import itertools

from . import scale
from .chars import CORE, SPECIAL, batches, strings
from .core import Mismatch, Space
from .ntref import Reject, quoted_stmts, read
from .rdfmodel import B, I, L, RICH, XSD, Realm, back_quad, back_triple, expect_iso, isomorphic, shape
from pymantic.parsers import nquads_parser, ntriples_parser
from pymantic.primitives import BlankNode, Dataset, Graph
from pymantic.serializers import serialize_nquads, serialize_ntriples

S, P, O, G = I("http://e/s"), I("http://e/p"), I("http://e/o"), I("http://e/g")


def roundtrip(stmts, quads, build=None):
    """stmts: set of model statements; everything the property says about writing them."""
    R = Realm() if build is None else build[0]
    stmts = list(dict.fromkeys(stmts))
    if quads:
        store = Dataset() if build is None else build[1]
        reals = [R.quad(s) for s in stmts]
        ser, parser, backf = serialize_nquads, nquads_parser, back_quad
    else:
        store = Graph() if build is None else build[1]
        reals = [R.triple(s) for s in stmts]
        ser, parser, backf = serialize_ntriples, ntriples_parser, back_triple
    for r in reals if build is None else ():
        store.add(r)
    f = io.StringIO()
    ser(store, f)
    text = f.getvalue()
    want = quoted_stmts(stmts)
    if not text.isascii():
        raise Mismatch("output is not pure ASCII", None, ascii(text))
    if text and not text.endswith("\n"):
        raise Mismatch("output does not end with a line end", None, text)
    lines = text.split("\n")[:-1]
    if len(lines) != len(stmts):
        raise Mismatch("number of lines", len(stmts), text)
    try:
        ref = read(text, quads)
    except Reject as e:
        raise Mismatch("output is not in the grammar (%s)" % e, stmts, text)
    expect_iso("what the output says (reference reader)\n" + text, want, set(ref))
    per = []
    for s, r in zip(stmts, reals):
        t = str(r)
        if t.rstrip("\n") not in lines:
            raise Mismatch("str() of a statement is not its line", lines, t)
        if not quads and r.toString() != t:
            raise Mismatch("toString() differs from str()", t, r.toString())
        per.append(t if t.endswith("\n") else t + "\n")
    if per and read("".join(per), quads) and not isomorphic(want, set(read("".join(per), quads))):
        raise Mismatch("lines made by str() say something else", want, per)
    got = parser.parse(text)
    if not isinstance(got, Dataset if quads else Graph):
        raise Mismatch("parse returned", "Dataset" if quads else "Graph", type(got))
    got = list(got)
    bm = {backf(t) for t in got}
    if len(bm) != len(got):
        raise Mismatch("statement twice after reading back", None, got)
    expect_iso("reading back\n" + text, want, bm)
    return want


# text that looks like escapes, delimiters or other syntax
ESCAPELIKE = ["\\", "u0041", "U0001F600", "n", '"', "u", "x", "\n", "%41", "\u00e9"]


HT = [(S, P, O), (S, P, B("x")), (B("x"), P, L("v", "en"))]
NAMES = {"g": G, "g2": I("http://e/g2"), "b": B("g")}
HQ = [(S, P, O, None), (S, P, B("x"), G), (B("x"), P, L("v"), B("g"))]


def wrap(term, pos, quads, i=0):
    base = [I("http://e/s%d" % i), P, O] + ([G] if quads else [])
    base[pos] = term
    return tuple(base)


def make_spaces(tier, quads):
    deep = tier == "thorough"

    def x_cp(case):
        _, lo, hi, where = case
        stmts = []
        for i, n in enumerate(range(lo, hi)):
            if 0xD800 <= n < 0xE000:
                continue
            c = chr(n)
            if where == "lit":
                stmts.append(wrap(L(c), 2, quads, i))
                stmts.append(wrap(L("a" + c + "0"), 2, quads, i))
            elif where == "iri":
                stmts.append(wrap(I("http://e/" + c), 2, quads, i))
                stmts.append(wrap(L("x", None, "http://e/" + c + "a"), 2, quads, i))
            elif where == "pos":
                stmts.append(wrap(I("http://e/" + c), 0, quads, i))
                stmts.append(wrap(I("http://e/" + c), 1, quads, i))
                if quads:
                    stmts.append(wrap(I("http://e/" + c), 3, quads, i))
            else:  # many per literal
                stmts.append(wrap(L("".join(chr(m) for m in range(lo, hi) if not 0xD800 <= m < 0xE000)), 2, quads))
                break
        roundtrip(stmts, quads)
        return ["%s %d" % (where, n) for n in range(lo, hi)] if where != "batch" else "batch %d" % lo, len(stmts)

    def c_cp():
        for where in ("lit", "iri", "pos"):
            for lo in range(0, 0x3100 if not deep else 0x110000, 64):
                yield ("cp", lo, lo + 64, where)
        for lo in range(0, 0x110000, 256):
            yield ("cp", lo, lo + 256, "batch")
        if not deep:
            # planes above: the edges of every 4096-block and of the encoding boundaries
            for lo in range(0x3000, 0x110000, 0x400):
                yield ("cp", lo, lo + 2, "lit")
                yield ("cp", lo + 0x3fe, lo + 0x400, "lit")
                yield ("cp", lo, lo + 2, "iri")

    def x_strings(case):
        _, kind, ss = case
        stmts = []
        for i, s in enumerate(ss):
            if kind == "lit":
                stmts.append(wrap(L(s), 2, quads, i))
            elif kind == "lang":
                stmts.append(wrap(L(s, "en"), 2, quads, i))
            elif kind == "dt":
                stmts.append(wrap(L(s, None, XSD + "string"), 2, quads, i))
            elif kind == "iri":
                stmts.append(wrap(I("http://e/" + s), 2, quads, i))
            elif kind == "gname":
                stmts.append(wrap(I("http://e/" + s), 3, quads, i))
        roundtrip(stmts, quads)
        return [kind + s for s in ss], len(ss)

    def c_strings():
        for kind in ("lit", "lang", "dt", "iri") + (("gname",) if quads else ()):
            for b in batches(strings(SPECIAL, 2 if not deep else 3 if kind in ("lit", "iri") else 2), 40):
                yield ("str", kind, b)
        for b in batches(strings(CORE, 3 if not deep else 4), 40):
            yield ("str", "lit", b)
        for b in batches(strings(ESCAPELIKE, 4 if not deep else 5), 60):
            yield ("str", "lit", b)
        for b in batches(strings(ESCAPELIKE, 2), 60):
            yield ("str", "lang", b)
            yield ("str", "iri", b)

    tags = [t for n in (1, 2, 3) for t in strings("aZ", n) if t] + ["abcdefghijklmnopqrstuvwxyz"]
    tags += [a + "-" + b for a in ("en", "x", "ABCdef") for b in ("a", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "US", "u5", "419", "0123456789")]
    tags += ["zh-Hans-CN", "de-CH-1996", "x-a-b-c-d-1-2", "sl-rozaj-biske-1994"]

    def x_tag(case):
        _, tag, v = case
        roundtrip([wrap(L(v, tag), 2, quads), wrap(L(v), 2, quads), wrap(L(v, tag + "a"), 2, quads)], quads)
        return tag, 3

    def c_tag():
        for t in dict.fromkeys(tags):
            for v in ("", "x", "x@" + t, '"'):
                yield ("tag", t, v)

    x, y = B("x"), B("y")
    if quads:
        uni = [(S, P, x, None), (S, P, x, G), (x, P, y, G), (y, P, x, G), (x, P, x, x), (S, P, O, x), (S, P, O, y), (S, P, O, None),
               (S, P, L("x"), G), (S, P, L("x", "en"), G), (y, P, L("x"), None), (x, P, O, I("http://e/g2"))]
    else:
        uni = [(S, P, x), (S, P, y), (x, P, y), (y, P, x), (x, P, x), (S, P, O), (x, P, L("x")), (S, P, L("x")), (S, P, L("x", "en")),
               (y, P, L("x", None, XSD + "string")), (y, P, L("x")), (x, I("http://e/q"), y)]

    def x_set(case):
        st = [uni[i] for i in case[1]]
        roundtrip(st, quads)
        return shape(st), len(st)

    def c_set():
        for n in range(0, (4 if not deep else 7)):
            for idx in itertools.combinations(range(len(uni)), n):
                yield ("set", idx)

    def x_pair(case):
        _, pos, t1, t2 = case
        st = {wrap(t1, pos, quads), wrap(t2, pos, quads)}
        roundtrip(st, quads)
        return shape(st), 2

    def c_pair():
        for pos in (2, 0, 1) + ((3,) if quads else ()):
            ts = [t for t in RICH if pos == 2 or t[0] == "I" or (t[0] == "B" and pos != 1)]
            if pos == 3:
                ts = ts + [None]
            for t1, t2 in itertools.combinations_with_replacement(ts, 2):
                if quads and pos == 3 and t1 is not None and t2 is not None and t1 == t2:
                    continue
                yield ("pair", pos, t1, t2)

    def c_scale():
        for kind in scale.KINDS:
            for n in scale.sizes(kind, tier):
                yield ("scale", kind, n)
        if quads:
            for kind in ("graphs", "blank graphs"):
                for n in scale.sizes(kind, tier):
                    yield ("scale", kind, n)

    def x_scale(case):
        _, kind, n = case
        if kind == "graphs":
            st = [(S, P, O, I("http://e/g%d" % i)) for i in range(n)]
        elif kind == "blank graphs":
            st = [(S, I("http://e/p%d" % i), B("n%d" % (i // 2)), B("n%d" % i)) for i in range(n)]
        else:
            st = scale.triples(kind, n)
            if quads:
                st = [t + ([G, None, B("g")][i % 3],) for i, t in enumerate(st)]
        st = list(dict.fromkeys(st))
        R, store = Realm(), Dataset() if quads else Graph()
        conv = R.quad if quads else R.triple
        store.addAll([conv(s) for s in st])
        roundtrip(st, quads, (R, store))
        if st:
            # as many statements as before, but not the same: what is written is what is there now
            out, new = st[n // 2 % len(st)], (S, P, L("exchanged")) + ((G,) if quads else ())
            if new not in st:
                store.remove(conv(out))
                store.add(conv(new))
                roundtrip([new if s == out else s for s in st], quads, (R, store))
        return "%s %d" % (kind, n), len(st)

    def hist_ops():
        three = HQ if quads else HT
        ops = [("add", i) for i in range(len(three))] + [("remove", i) for i in range(len(three))] + [("rm", i) for i in range(3)]
        ops.append(("write",))
        if quads:
            ops += [("attach", "g", 0), ("attach", "g2", 1), ("attach", "b", 0), ("attach", "g", 1), ("elsewhere", 0), ("elsewhere", 1), ("addto", 0), ("addto", 1), ("detach", "g"), ("detach", "b")]
        return ops

    def c_hist():
        ops = hist_ops()
        for first in range(len(ops)):
            yield ("hist", first, 5 if deep else 4)

    def x_hist(case):
        _, first, depth = case
        ops = hist_ops()
        keys = set()
        n = 0
        for rest in itertools.product(ops, repeat=depth - 1):
            R, store, m, gs = Realm(), Dataset() if quads else Graph(), set(), None
            # graphs made outside, which may be attached: their triples and the names they are attached under here
            loose = [Graph(R.term(NAMES["g"])), Graph()] if quads else []
            inside, where, other = [set(), set()], {}, Dataset() if quads else None
            for op in (ops[first],) + rest:
                apply(op, R, store, m, loose, inside, where, other)
            st = set(m)
            for name, k in where.items():
                st |= {t + (NAMES[name],) for t in inside[k]}
            roundtrip(sorted(st, key=repr), quads, (R, store))
            keys.add(repr(sorted(st, key=repr)))
            n += 1
        return list(keys), n * depth

    def apply(op, R, store, m, loose, inside, where, other):
        k = op[0]
        three = HQ if quads else HT
        conv = R.quad if quads else R.triple

        def target(t):
            # a graph attached under the statement's name gets it
            for name, i in where.items():
                if quads and NAMES[name] == t[3]:
                    return inside[i], t[:3]
            return m, t
        if k == "write":
            (serialize_nquads if quads else serialize_ntriples)(store, io.StringIO())
        elif k == "add":
            s, t = target(three[op[1]])
            store.add(conv(three[op[1]]))
            s.add(t)
        elif k == "remove":
            s, t = target(three[op[1]])
            try:
                store.remove(conv(three[op[1]]))
            except KeyError:
                pass
            s.discard(t)
        elif k == "rm":
            t = three[op[1]]
            store.removeMatches(R.term(t[0]), None, None)
            for s in [m] + [inside[i] for i in set(where.values())]:
                for x in list(s):
                    if x[0] == t[0]:
                        s.discard(x)
        elif k == "attach":
            i = op[2]
            if i in where.values():  # one name in this dataset for each graph
                return
            store.add_graph(loose[i], R.term(NAMES[op[1]]))
            where[op[1]] = i
            for x in list(m):
                if x[3] == NAMES[op[1]]:
                    m.discard(x)
        elif k == "elsewhere":
            other.add_graph(loose[op[1]], R.term(I("http://e/elsewhere")))
        elif k == "addto":
            loose[op[1]].add(R.triple(HT[op[1]]))
            inside[op[1]].add(HT[op[1]])
        elif k == "detach":
            try:
                store.remove_graph(R.term(NAMES[op[1]]))
            except KeyError:
                pass
            where.pop(op[1], None)
            for x in list(m):
                if x[3] == NAMES[op[1]]:
                    m.discard(x)

    # ---- of very many nodes alive at once, those with the most similar labels, in one graph ----
    def c_alive():
        yield ("alive", 2000000)

    def x_alive(case):
        nodes = [BlankNode() for _ in range(case[1])]
        order = sorted(range(len(nodes)), key=lambda i: nodes[i].toNT())
        labels = [nodes[i].toNT() for i in order]
        pick = [order[0], order[1], order[-1]]
        for j in range(1, len(labels)):
            if labels[j] == labels[j - 1] or labels[j].lower() == labels[j - 1].lower():
                pick += [order[j - 1], order[j]]
                if len(pick) > 20:
                    break
        chosen = [nodes[i] for i in dict.fromkeys(pick)]
        R = Realm()
        R.nodes.update({"n%d" % i: b for i, b in enumerate(chosen)})
        st = []
        for i in range(len(chosen)):
            st += [(B("n%d" % i), P, L("v%d" % i)), (S, P, B("n%d" % i))]
            if i:
                st.append((B("n%d" % (i - 1)), O, B("n%d" % i)))
        if quads:
            st = [t + ([G, None, B("n0")][i % 3],) for i, t in enumerate(st)]
        store = Dataset() if quads else Graph()
        for t in st:
            store.add(R.quad(t) if quads else R.triple(t))
        f = io.StringIO()
        (serialize_nquads if quads else serialize_ntriples)(store, f)
        want, text = quoted_stmts(st), f.getvalue()
        expect_iso("what the output of a graph with %d nodes alive says\n%s" % (case[1], text), want, set(read(text, quads)))
        got = {(back_quad if quads else back_triple)(t) for t in (nquads_parser if quads else ntriples_parser).parse(text)}
        expect_iso("reading back with %d nodes alive\n%s" % (case[1], text), want, got)
        return repr(case), len(st)

    return [
        Space("living nodes", c_alive, x_alive, "2000000 nodes alive, a graph of those with the most similar labels"),
        Space("histories", c_hist, x_hist, "what every history of %d calls leaves behind" % (5 if deep else 4)),
        Space("scale", c_scale, x_scale, "12 families of graphs and terms of every size to 130 and some larger"),
        Space("subsets", c_set, x_set, "every set of up to %d statements out of %d with shared/distinct blank nodes" % (3 if not deep else 6, len(uni))),
        Space("confusable-pairs", c_pair, x_pair, "every pair of confusable terms in every position"),
        Space("language-tags", c_tag, x_tag, "tags over letters, digits and subtags"),
        Space("strings", c_strings, x_strings, "every string up to length 2 over %d and up to 3 over %d special characters" % (len(SPECIAL), len(CORE))
              if not deep else "every string up to length 3 over %d and up to 4 over %d special characters" % (len(SPECIAL), len(CORE))),
        Space("code-points", c_cp, x_cp, "every Unicode code point in a literal; %s on their own and in IRIs" % ("all" if deep else "U+0000..U+30FF and block edges")),
    ]
