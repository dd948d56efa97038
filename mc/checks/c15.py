"""C15: prefix maps, term maps and profiles answer by their latest settings."""
from ..core import Mismatch, Space, attempt
from ..explore import Opaque, bfs, canon
from .c14 import OPEN, model_resolve, model_shrink
from ..rdfmodel import RDF, XSD
from pymantic.primitives import PrefixMap, Profile, RDFEnvironment, TermMap

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over operation histories of the real maps and profiles against dictionary models"
RULE = ("breadth-first over set/delete/setDefault/addAll/importProfile/copy histories; states merged only when the complete real (types and orders included) state and "
        "the model state coincide; every probe name and IRI is resolved and shrunk in every state")
ASSUMPTIONS = ["addAll and importProfile carry entries, not the default vocabulary", "of two terms with one IRI either may be returned",
               "a Profile uses the very maps it is given"]

I1, I2 = "http://one/", "http://one/two#"
PRE = {"rdf": RDF, "xsd": XSD}
PROBES = ["p:x", "q:x", ":x", "x", "p:", "t", "p", "u", "rdf:x", "xsd:x", "http://one/x", "z:x", "[p:x]", "", ":"]
IRIS = ["http://one/", "http://one/x", "http://one/two#", "http://one/two#x", "http://three/", RDF + "x", XSD + "x", "p:x", "http://one/twox"]


class T:
    """Model of a term map."""

    def __init__(self, d=(), default=None):
        self.d, self.default = dict(d), default

    def key(self):
        return (tuple(sorted(self.d.items())), self.default)


def check_prefix(real, m, what):
    if dict(real) != m:
        raise Mismatch(what + " holds", m, dict(real))
    for t in PROBES:
        want = model_resolve(t, m)
        if want is OPEN:
            continue
        r = attempt(real.resolve, t)
        if want is ValueError:
            if r[0] == "ok" or not isinstance(r[1], ValueError):
                raise Mismatch("%s %r resolve(%r)" % (what, m, t), "ValueError", repr(r[1]))
        elif r[0] == "exc" or r[1] != want:
            raise Mismatch("%s %r resolve(%r)" % (what, m, t), want, repr(r[1]))
    for i in IRIS:
        want = {p + ":" + l for p, l in model_shrink(i, m)} or {i}
        got = real.shrink(i)
        if got not in want:
            raise Mismatch("%s %r shrink(%r)" % (what, m, i), want, got)


def check_term(real, m, what):
    if dict(real) != m.d:
        raise Mismatch(what + " holds", m.d, dict(real))
    for t in PROBES:
        want = m.d[t] if t in m.d else (m.default + t if m.default is not None else None)
        got = real.resolve(t)
        if got != want:
            raise Mismatch("%s %r resolve(%r)" % (what, m.key(), t), want, got)
    for i in IRIS + ["http://one/t"]:
        want = {t for t, v in m.d.items() if v == i} or {i}
        got = real.shrink(i)
        if got not in want:
            raise Mismatch("%s %r shrink(%r)" % (what, m.key(), i), want, got)


def check_profile(real, pm, tm, what):
    check_prefix(real.prefixes, pm, what + ".prefixes")
    check_term(real.terms, tm, what + ".terms")
    for t in PROBES:
        if ":" in t:
            want = model_resolve(t, pm)
            r = attempt(real.resolve, t)
            if want is OPEN:
                continue
            if want is ValueError:
                if r[0] == "ok" or not isinstance(r[1], ValueError):
                    raise Mismatch("%s resolve(%r) with %r" % (what, t, pm), "ValueError", repr(r[1]))
            elif r[0] == "exc" or r[1] != want:
                raise Mismatch("%s resolve(%r) with %r" % (what, t, pm), want, repr(r[1]))
        else:
            want = tm.d[t] if t in tm.d else (tm.default + t if tm.default is not None else None)
            r = attempt(real.resolve, t)
            if r[0] == "exc" or r[1] != want:
                raise Mismatch("%s resolve(%r) with %r" % (what, t, tm.key()), want, repr(r[1]))


def same(r, x, what):
    if r is not x:
        raise Mismatch(what + " did not return the object it was called on", type(x), repr(r))


class World:
    def __init__(self):
        self.r, self.m = {}, {}   # name -> real, name -> model (dict | T | (dict, T))


# ---- operations: (kind, ...) on named objects ----
def do(w, op):
    k = op[0]
    if k == "set":
        w.r[op[1]][op[2]] = op[3]
        tgt = w.m[op[1]]
        (tgt.d if isinstance(tgt, T) else tgt)[op[2]] = op[3]
    elif k == "del":
        tgt = w.m[op[1]]
        d = tgt.d if isinstance(tgt, T) else tgt
        r = attempt(w.r[op[1]].__delitem__, op[2])
        if (r[0] == "ok") != (op[2] in d):
            raise Mismatch("del %r" % (op,), op[2] in d, repr(r))
        d.pop(op[2], None)
    elif k == "default":
        w.r[op[1]].setDefault(op[2])
        if isinstance(w.m[op[1]], T):
            w.m[op[1]].default = op[2]
        else:
            w.m[op[1]][""] = op[2]
    elif k == "addAll":
        a, b, ov = op[1:]
        src = w.r[b]
        same(w.r[a].addAll(src, ov) if ov is not None else w.r[a].addAll(src), w.r[a], "addAll")
        da = w.m[a].d if isinstance(w.m[a], T) else w.m[a]
        db = w.m[b].d if isinstance(w.m[b], T) else w.m[b]
        for x, v in db.items():
            if ov or x not in da:
                da[x] = v
    elif k == "setPrefix":
        w.r[op[1]].setPrefix(op[2], op[3])
        w.m[op[1]][0][op[2]] = op[3]
    elif k == "setDefaultPrefix":
        w.r[op[1]].setDefaultPrefix(op[2])
        w.m[op[1]][0][""] = op[2]
    elif k == "setTerm":
        w.r[op[1]].setTerm(op[2], op[3])
        w.m[op[1]][1].d[op[2]] = op[3]
    elif k == "setDefaultVocabulary":
        w.r[op[1]].setDefaultVocabulary(op[2])
        w.m[op[1]][1].default = op[2]
    elif k == "import":
        a, b, ov = op[1:]
        same(w.r[a].importProfile(w.r[b], ov) if ov is not None else w.r[a].importProfile(w.r[b]), w.r[a], "importProfile")
        for da, db in ((w.m[a][0], w.m[b][0]), (w.m[a][1].d, w.m[b][1].d)):
            for x, v in list(db.items()):
                if ov or x not in da:
                    da[x] = v
    elif k == "delPrefix":
        del w.r[op[1]].prefixes[op[2]]
        del w.m[op[1]][0][op[2]]
    elif k == "create":
        # copies by an environment: op = (create, what, empty)
        env, me = w.r["E"], w.m["E"]
        what, empty = op[1:]
        f = {"profile": env.createProfile, "terms": env.createTermMap, "prefixes": env.createPrefixMap}[what]
        w.r[what] = f() if empty is None else f(empty)
        if what == "profile":
            w.m[what] = (dict(PRE), T()) if empty else (dict(PRE, **me[0]), T(me[1].d, me[1].default))
        elif what == "terms":
            w.m[what] = T() if empty else T(me[1].d, me[1].default)
        else:
            w.m[what] = {} if empty else dict(me[0])
    elif k == "ask":
        observe(w)
    else:
        raise AssertionError(op)


def observe(w, hist=()):
    for n in w.r:
        m = w.m[n]
        if isinstance(m, T):
            check_term(w.r[n], m, n)
        elif isinstance(m, tuple):
            check_profile(w.r[n], m[0], m[1], n)
        else:
            check_prefix(w.r[n], m, n)


def key(w):
    mk = repr([(n, (m.key() if isinstance(m, T) else (sorted(m[0].items()), m[1].key()) if isinstance(m, tuple) else sorted(m.items()))) for n, m in sorted(w.m.items())])
    try:
        return mk, canon([w.r[n] for n in sorted(w.r)], {})
    except Opaque:
        return mk, None


def start(kind):
    w = World()
    if kind == "prefix":
        w.r, w.m = {"A": PrefixMap(), "B": PrefixMap()}, {"A": {}, "B": {}}
    elif kind == "term":
        w.r, w.m = {"A": TermMap(), "B": TermMap()}, {"A": T(), "B": T()}
    elif kind == "profile":
        w.r, w.m = {"P": Profile(), "Q": Profile()}, {"P": (dict(PRE), T()), "Q": (dict(PRE), T())}
    elif kind == "given":
        pm, tm = PrefixMap(), TermMap()
        P = Profile(pm, tm)
        mp, mt = dict(PRE), T()
        w.r, w.m = {"P": P, "pm": pm, "tm": tm}, {"P": (mp, mt), "pm": mp, "tm": mt}
    elif kind == "given2":
        pm, tm = PrefixMap({"rdf": I1, "p": I2}), TermMap({"t": I1})
        P = Profile(prefixes=pm, terms=tm)
        mp, mt = {"rdf": I1, "p": I2, "xsd": XSD}, T({"t": I1})
        w.r, w.m = {"P": P, "pm": pm, "tm": tm}, {"P": (mp, mt), "pm": mp, "tm": mt}
    elif kind == "env":
        w.r, w.m = {"E": RDFEnvironment()}, {"E": (dict(PRE), T())}
    return w


def ops(kind):
    def f(w):
        out = [("ask",)]
        if kind == "prefix":
            for n in "AB":
                out += [("set", n, x, i) for x in (("p", "q", "") if n == "A" else ("p", "")) for i in (I1, I2)]
                out += [("del", n, x) for x in ("p", "")]
                out += [("default", n, I1), ("default", n, I2)]
            out += [("set", "B", "q", "")]
            out += [("addAll", a, b, ov) for a, b in (("A", "B"), ("B", "A"), ("A", "A")) for ov in (None, False, True)]
        elif kind == "term":
            for n in "AB":
                out += [("set", n, x, i) for x in (("t", "u", "") if n == "A" else ("t",)) for i in (I1, "http://one/t")]
                out += [("del", n, x) for x in ("t",)]
                out += [("default", n, I1), ("default", n, "")]
            out += [("set", "B", "u", "")]
            out += [("addAll", a, b, ov) for a, b in (("A", "B"), ("B", "A")) for ov in (None, False, True)]
        elif kind == "profile":
            out += [("setPrefix", "P", "p", I1), ("setPrefix", "Q", "p", I2), ("setPrefix", "Q", "rdf", I2), ("setDefaultPrefix", "P", I1), ("setDefaultPrefix", "Q", I2),
                    ("setTerm", "P", "t", I1), ("setTerm", "Q", "t", I2), ("setTerm", "Q", "u", I1), ("setTerm", "P", "u", ""), ("setPrefix", "P", "q", ""), ("setDefaultVocabulary", "P", I1), ("setDefaultVocabulary", "Q", I2)]
            out += [("import", a, b, ov) for a, b in (("P", "Q"), ("Q", "P")) for ov in (None, False, True)]
            out += [("delPrefix", n, "rdf") for n in "PQ" if "rdf" in w.m[n][0]]
        elif kind in ("given", "given2"):
            out += [("setPrefix", "P", "p", I1), ("set", "pm", "p", I2), ("set", "pm", "", I1), ("setDefaultPrefix", "P", I2), ("default", "pm", I1),
                    ("set", "tm", "t", I1), ("setTerm", "P", "t", I2), ("default", "tm", I1), ("setDefaultVocabulary", "P", I2), ("del", "pm", "p"), ("del", "tm", "t"), ("set", "pm", "rdf", I2)]
        elif kind == "env":
            out += [("setPrefix", "E", "p", I1), ("setPrefix", "E", "rdf", I2), ("setTerm", "E", "t", I1), ("setDefaultVocabulary", "E", I1), ("setDefaultPrefix", "E", I2)]
            out += [("create", x, e) for x in ("profile", "terms", "prefixes") for e in (None, False, True)]
            if "profile" in w.r:
                out += [("setPrefix", "profile", "p", I2), ("setTerm", "profile", "t", I2), ("setDefaultVocabulary", "profile", I2), ("import", "E", "profile", True)]
            if "terms" in w.r:
                out += [("set", "terms", "t", I2), ("default", "terms", I2)]
            if "prefixes" in w.r:
                out += [("set", "prefixes", "p", I2), ("default", "prefixes", I1)]
        return out
    return f


# The search is split over the first two operations so that it runs in parallel.
def c_hist(kinds):
    def gen():
        for kind, depth in kinds:
            yield ("hist", kind, (), 1)
            o = ops(kind)
            w = start(kind)
            for op in o(w):
                yield ("hist", kind, (op,), depth)
    return gen


def x_hist(case):
    _, kind, first, depth = case
    first = tuple(tuple(x) for x in first)

    def build(hist):
        w = start(kind)
        for op in first + tuple(hist):
            do(w, op)
        return w
    return bfs(build, ops(kind), observe, key, depth)


# ---- profiles and environments made from every kind of map ----
VALS = {"rdf": [None, RDF, I1, ""], "xsd": [None, XSD, I2, ""], "p": [None, I1], "": [None, I2]}
MADE = ["positional", "keywords", "prefixes only", "terms only", "nothing", "environment", "environment positional"]


def x_made(case):
    _, how, vals, terms = case
    pm = {k: v for k, v in zip(VALS, vals) if v is not None}
    tm = [T(), T({"t": I1}), T({"t": I1}, I2), T({}, "")][terms]
    real_p, real_t = PrefixMap(pm), TermMap(tm.d)
    if tm.default is not None:
        real_t.setDefault(tm.default)
    n = 0
    P = {"positional": lambda: Profile(real_p, real_t), "keywords": lambda: Profile(terms=real_t, prefixes=real_p), "prefixes only": lambda: Profile(prefixes=real_p), "terms only": lambda: Profile(terms=real_t),
         "nothing": Profile, "environment": lambda: RDFEnvironment(prefixes=real_p, terms=real_t), "environment positional": lambda: RDFEnvironment(real_p, real_t)}[how]()
    mp = dict(PRE, **pm) if how not in ("terms only", "nothing") else dict(PRE)
    mt = tm if how not in ("prefixes only", "nothing") else T()
    what = "%s made (%s) with prefixes %r and terms %r" % (type(P).__name__, how, pm, tm.key())
    check_profile(P, mp, mt, what)
    check_profile(Profile(), dict(PRE), T(), "Profile made after another")
    if isinstance(P, RDFEnvironment):
        check_profile(P.createProfile(), mp, mt, what + ": createProfile()")
        check_profile(P.createProfile(True), dict(PRE), T(), what + ": createProfile(True)")
        check_prefix(P.createPrefixMap(), mp, what + ": createPrefixMap()")
        check_term(P.createTermMap(), mt, what + ": createTermMap()")
        n += 4
    for b in (True, False, None):  # importing it
        Q = Profile(PrefixMap({"p": I2, "xsd": I1}), TermMap({"t": I2}))
        Q.importProfile(P, b) if b is not None else Q.importProfile(P)
        own, ot = {"p": I2, "xsd": I1, "rdf": RDF}, {"t": I2}
        check_profile(Q, dict(own, **mp) if b else dict(mp, **own), T(dict(ot, **mt.d) if b else dict(mt.d, **ot)), "import (%r) of a %s" % (b, what))
        check_profile(P, mp, mt, "after being imported: " + what)
        n += 1
    return repr(case), n + 2


def c_made():
    import itertools
    for how in MADE:
        for vals in itertools.product(*VALS.values()):
            for terms in range(4):
                yield ("made", how, vals, terms)


# ---- maps with many entries, long names and long values ----
def x_scale(case):
    _, kind, n = case
    steps = 0
    if kind == "entries":
        pm = {"p%d" % i: "http://n/%d#" % i for i in range(n)}
        tm = {"t%d" % i: "http://n/%d" % i for i in range(n)}
    elif kind == "nested":
        pm = {"p%d" % i: "http://n/" + "a" * i for i in range(n)}
        tm = {"t" * (i + 1): "http://n/" + "a" * i for i in range(n)}
    else:
        pm = {"p" * n: "http://n/" + "n" * n + "/", "p" * (n - 1): "http://n/" + "n" * n}
        tm = {"t" * n: "http://n/" + "n" * n + "/", "t" * (n - 1): "http://n/" + "n" * n}
    for order in (1, -1):
        P = Profile()
        for k, v in list(pm.items())[::order]:
            P.setPrefix(k, v)
        for k, v in list(tm.items())[::order]:
            P.setTerm(k, v)
        copy = Profile()
        copy.importProfile(P, n % 2 == 0)
        env = RDFEnvironment(P.prefixes, P.terms)
        made = env.createProfile()
        some = sorted({0, 1, n // 2, n - 1})
        for Z, gone in ((P, None), (copy, None), (made, None), (P, some[-1])):
            mp, mt = dict(PRE, **pm), dict(tm)
            if gone is not None and kind != "long":
                del mp["p%d" % gone]
                k = list(tm)[gone]
                del mt[k]
                del P.prefixes["p%d" % gone]
                del P.terms[k]
            if dict(Z.prefixes) != mp or dict(Z.terms) != mt:
                raise Mismatch("entries of the maps (%s %d)" % (kind, n), None, None)
            for k in list(pm)[-3:] + list(pm)[:3] + ["rdf"]:
                t = k + ":x"
                want = model_resolve(t, mp)
                r = attempt(Z.resolve, t)
                if (want is ValueError and not (r[0] == "exc" and isinstance(r[1], ValueError))) or want not in (OPEN, ValueError) and (r[0] == "exc" or r[1] != want):
                    raise Mismatch("resolve(%r) (%s %d)" % (t, kind, n), want, repr(r[1]))
            for k in list(tm)[-3:] + list(tm)[:3] + ["none"]:
                if Z.resolve(k) != mt.get(k):
                    raise Mismatch("resolve(%r) (%s %d)" % (k, kind, n), mt.get(k), Z.resolve(k))
            for v in list(pm.values())[-3:] + list(pm.values())[:3]:
                want = {p + ":" + l for p, l in model_shrink(v + "/y", mp)} or {v + "/y"}
                if Z.prefixes.shrink(v + "/y") not in want:
                    raise Mismatch("prefixes.shrink(%r) (%s %d)" % (v + "/y", kind, n), want, Z.prefixes.shrink(v + "/y"))
            for v in list(tm.values())[-3:] + list(tm.values())[:3]:
                want = {t for t, u in mt.items() if u == v} or {v}
                if Z.terms.shrink(v) not in want:
                    raise Mismatch("terms.shrink(%r) (%s %d)" % (v, kind, n), want, Z.terms.shrink(v))
            steps += 20
    return repr(case), steps


def c_scale(th):
    def gen():
        for kind in ("entries", "nested", "long"):
            for n in list(range(2, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257] + ([1023, 1024, 1025] if th else []):
                yield ("scale", kind, n)
    return gen


def spaces(tier):
    th = tier == "thorough"
    kinds = [("prefix", 7 if th else 5), ("term", 7 if th else 5), ("profile", 5 if th else 4), ("given", 7 if th else 5), ("given2", 7 if th else 5), ("env", 5 if th else 4)]
    return [Space("scale", c_scale(th), x_scale, "maps of up to 257 entries, names and values as long, in two orders, imported, copied by an environment, with one removed"),
            Space("construction", c_made, x_made, "%d ways of making a profile x 64 prefix maps x 4 term maps, with copies and imports of it" % len(MADE))] + [Space(k, c_hist([(k, d)]), x_hist, "all histories of <= %d operations (%s)" % (d + 1, k), limit_s=120) for k, d in kinds]
