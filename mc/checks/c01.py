"""C01: Graph against a plain set, over every reachable state of small universes."""
import itertools

from ..core import Mismatch, Space, attempt
from ..explore import Opaque, bfs, canon
from ..rdfmodel import B, I, L, RICH, Realm, back_triple
from pymantic.primitives import Graph, RDFEnvironment

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over operation histories of the real Graph against a set model"
RULE = ("breadth-first over add/remove/addAll/removeMatches/merge histories; states merged only when the complete real (types and orders included) "
        "object state and the model state coincide; all match patterns and listings compared in every state")
ASSUMPTIONS = ["terms are drawn from small universes chosen so that every component collides in every position"]

a, b, c, p, q = I("http://e/a"), I("http://e/b"), I("http://e/c"), I("http://e/p"), I("http://e/q")
E = I("")
x, y = B("x"), B("y")
XI = "http://www.w3.org/2001/XMLSchema#integer"

UNIVERSES = {
    # one subject, then shared predicate/object combinations
    "iri": [(a, p, b), (a, p, c), (a, q, b), (b, p, a), (a, p, a)],
    # one and the same term in every position
    "same": [(a, a, a), (a, a, b), (a, b, a), (b, a, a), (b, b, a)],
    # literals that differ in one component only, an IRI with the same text
    "lit": [(a, p, L("x")), (a, p, L("x", "en")), (a, p, L("x", None, XI)), (a, p, I("x")), (a, p, L("x", "en-us"))],
    # falsy and empty terms
    "empty": [(E, p, a), (a, E, b), (a, p, E), (E, E, E), (a, p, L(""))],
    "empty2": [(a, p, b), (E, p, b), (a, E, b), (a, p, L("", "en")), (E, p, E)],
    # blank nodes
    "bnode": [(x, p, y), (y, p, x), (x, p, x), (a, p, x), (x, p, a)],
    "mixed": [(a, p, b), (x, p, b), (a, p, L("b")), (a, q, b), (x, q, L("b"))],
}
BIG = {
    "wide7": [(a, p, b), (a, p, c), (a, q, b), (b, p, a), (c, q, L("1")), (x, p, y), (E, p, L(""))],
    "cube8": list(itertools.product((a, b), (p, q), (a, L("a")))),
}
ABSENT = I("http://e/absent")


def terms(u):
    out = []
    for t in u:
        for z in t:
            if z not in out:
                out.append(z)
    return out


class World:
    def __init__(self, n):
        self.realm = Realm()
        self.g = [Graph() for _ in range(n)]
        self.m = [set() for _ in range(n)]


def patterns_of(u):
    ps = [sorted({t[i] for t in u}, key=repr) + [None] for i in range(3)]
    return list(itertools.product(*ps))


def hits(m, pat):
    return {t for t in m if all(w is None or t[i] == w for i, w in enumerate(pat))}


def step(w, op, u):
    kind, gi = op[0], op[1]
    g, m = w.g[gi], w.m[gi]
    T = w.realm.triple
    if kind == "add":
        r = attempt(g.add, T(u[op[2]]))
        m.add(u[op[2]])
        same_object(r, g, op)
    elif kind == "remove":
        t = u[op[2]]
        r = attempt(g.remove, T(t))
        if t in m:
            m.discard(t)
            same_object(r, g, op)
        elif r[0] != "exc":
            # removing what is not there: either an error or no effect is a failure-free reading,
            # but the contents must not change (checked by the observers)
            pass
    elif kind == "addAll":
        how, idx = op[2], op[3]
        items = [T(u[i]) for i in idx]
        if how == "graph":
            src = Graph()
            for t in items:
                src.add(t)
        elif how == "gen":
            src = (t for t in items)
        elif how == "set":
            src = set(items)
        else:
            src = items
        r = attempt(g.addAll, src)
        m.update(u[i] for i in idx)
        same_object(r, g, op)
    elif kind == "addAllFrom":
        r = attempt(g.addAll, w.g[op[2]])
        m.update(w.m[op[2]])
        same_object(r, g, op)
    elif kind == "removeMatches":
        pat = op[2]
        r = attempt(g.removeMatches, *[w.realm.term(z) for z in pat])
        m -= hits(m, pat)
        same_object(r, g, op)
    elif kind == "merge":
        # g := g.merge(other); the operands must survive, so the result replaces slot op[3]
        r = attempt(g.merge, w.g[op[2]])
        if r[0] == "exc":
            raise Mismatch("merge raised", "a new graph", repr(r[1]))
        if r[1] is g or r[1] is w.g[op[2]]:
            raise Mismatch("merge returned one of its operands", "a new graph", op)
        w.g[op[3]], w.m[op[3]] = r[1], w.m[gi] | w.m[op[2]]
    elif kind == "ask":
        observe_graph(w.realm, g, m, terms(u), False)
    else:
        raise AssertionError(op)


def same_object(r, g, op):
    if r[0] == "exc":
        raise Mismatch("%s raised" % (op[0],), "no exception", repr(r[1]))
    if r[1] is not g:
        raise Mismatch("%s did not return the graph it was called on" % (op[0],), "the graph", repr(r[1]))


def listing(what, it, want):
    got = list(it)
    got_m = [back_triple(t) for t in got]
    if len(got_m) != len(set(got_m)):
        raise Mismatch(what + " reports a triple twice", sorted(want, key=repr), got_m)
    if set(got_m) != want:
        raise Mismatch(what, sorted(want, key=repr), sorted(got_m, key=repr))


def observe_graph(realm, g, m, ts, full):
    want = {tuple(("B", id(realm.term(z))) if z[0] == "B" else z for z in t) for t in m}
    ids = {z: (("B", id(realm.term(z))) if z[0] == "B" else z) for z in ts}
    ids[ABSENT] = ABSENT
    if len(g) != len(want):
        raise Mismatch("len()", len(want), len(g))
    listing("iteration", g, want)
    arr = g.toArray()
    listing("toArray", arr, want)
    for t in itertools.product(ts, repeat=3) if full else m:
        present = realm.triple(t) in g
        if present != (t in m):
            raise Mismatch("membership of %r" % (t,), t in m, present)
    from ..rdfmodel import back
    for name, pos in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        got = [back(z) for z in getattr(g, name)()]
        exp = {t[pos] for t in want}
        if len(got) != len(set(got)) or set(got) != exp:
            raise Mismatch(name + "()", sorted(exp, key=repr), sorted(got, key=repr))
    opts = ts + [ABSENT, None]
    for pat in itertools.product(opts, repeat=3):
        real = [realm.term(z) if z is not None else None for z in pat]
        mp = tuple(ids[z] if z is not None else None for z in pat)
        exp = hits(want, mp)
        if exp or full:
            listing("match%r" % (pat,), g.match(*real), exp)
    # keyword form and default arguments
    for i, name in enumerate(("subject", "predicate", "object")):
        for z in opts:
            exp = hits(want, tuple(ids[z] if (j == i and z is not None) else None for j in range(3)))
            listing("match(%s=%r)" % (name, z), g.match(**{name: realm.term(z) if z is not None else None}), exp)
    # questions change nothing
    listing("iteration after queries", g, want)
    if len(g) != len(want):
        raise Mismatch("len() after queries", len(want), len(g))


def explore_universe(case):
    _, uname, ngraphs, alphabet = case
    u = UNIVERSES.get(uname) or BIG.get(uname)
    ts = terms(u)

    def build(hist):
        w = World(ngraphs)
        for op in hist:
            step(w, op, u)
        return w

    def ops(w):
        out = []
        for gi in range(ngraphs):
            out.append(("ask", gi))
            for i in range(len(u)):
                out.append(("add", gi, i))
            for i in range(len(u)):
                out.append(("remove", gi, i))
        if alphabet == "bulk":
            n = len(u)
            for gi in range(ngraphs):
                for how in ("list", "set", "gen", "graph"):
                    out.append(("addAll", gi, how, ()))
                    for i in range(n):
                        out.append(("addAll", gi, how, (i, (i + 1) % n, i)))
                for pat in patterns_of(u):
                    out.append(("removeMatches", gi, pat))
                out.append(("removeMatches", gi, (ABSENT, None, None)))
                for gj in range(ngraphs):
                    out.append(("addAllFrom", gi, gj))
                    for dst in range(ngraphs):
                        out.append(("merge", gi, gj, dst))
        return out

    def observe(w, hist):
        for g, m in zip(w.g, w.m):
            observe_graph(w.realm, g, m, ts, True)

    def key(w):
        names = {}
        for nm in sorted(w.realm.nodes):
            names[id(w.realm.nodes[nm])] = nm
        try:
            real = canon(list(w.g), names)
        except Opaque:
            real = None
        return (tuple(frozenset(m) for m in w.m), real)

    return bfs(build, ops, observe, key, 2 * len(u) * ngraphs)


def cases_single():
    for n in UNIVERSES:
        yield ("bfs", n, 1, "plain")
    for n in UNIVERSES:
        yield ("bfs", n, 1, "bulk")


def cases_pair():
    UNIVERSES.update({"pair%d" % i: v for i, v in enumerate(PAIRS)})
    for i in range(len(PAIRS)):
        yield ("bfs", "pair%d" % i, 2, "bulk")


PAIRS = [
    [(a, p, b), (a, p, c), (b, p, a)],
    [(a, p, L("x")), (a, p, L("x", "en")), (E, p, L("x"))],
    [(x, p, y), (y, p, x), (x, p, x)],
    [(a, a, a), (a, a, b), (b, a, a)],
    [(a, p, E), (E, p, a), (a, E, E)],
    [(a, p, b), (a, q, b), (x, p, b)],
]


def cases_big():
    for n in BIG:
        yield ("bfs", n, 1, "bulk")


def scale(case):
    """Grids of n*n*n triples: add all (in three orders), drop a slice, compare everything."""
    _, n, order, drop = case
    S = [I("http://e/s%d" % i) for i in range(n)]
    O = [L(str(i), None, XI) if i % 2 else I("http://e/s%d" % i) for i in range(n)]
    Pp = [I("http://e/p%d" % i) for i in range(n)]
    allt = list(itertools.product(S, Pp, O))
    if order == "rev":
        allt.reverse()
    elif order == "stride":
        allt = [allt[(i * 7919) % len(allt)] for i in range(len(allt))] if len(allt) % 7919 else allt
    R = Realm()
    g = Graph()
    m = set()
    for t in allt:
        g.add(R.triple(t))
        m.add(t)
    g.addAll([R.triple(t) for t in allt])
    if drop == "slice":
        g.removeMatches(R.term(S[0]), None, None)
        m = {t for t in m if t[0] != S[0]}
    elif drop == "odd":
        for i, t in enumerate(sorted(m)):
            if i % 2:
                g.remove(R.triple(t))
                m.discard(t)
    elif drop == "all":
        g.removeMatches(None, None, None)
        m = set()
    elif drop == "readd":
        g.removeMatches(None, R.term(Pp[0]), None)
        for t in allt:
            if t[1] == Pp[0]:
                g.add(R.triple(t))
    if len(g) != len(m):
        raise Mismatch("len()", len(m), len(g))
    listing("iteration", g, m)
    for pat in itertools.product([None, S[0], S[-1]], [None, Pp[0], Pp[-1]], [None, O[0], O[-1]]):
        listing("match%r" % (pat,), g.match(*[R.term(z) if z else None for z in pat]), hits(m, pat))
    for name, pos in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        from ..rdfmodel import back
        got = sorted(back(z) for z in getattr(g, name)())
        if got != sorted({t[pos] for t in m}):
            raise Mismatch(name, None, got)
    return repr((n, order, drop, len(m))), len(allt) + 27


def cases_scale(nmax):
    def gen():
        for n in range(1, nmax + 1):
            for order in ("fwd", "rev", "stride"):
                for drop in ("none", "slice", "odd", "all", "readd"):
                    yield ("scale", n, order, drop)
    return gen


def stars(case):
    """Many statements that share one or two of their terms."""
    _, n, vary, drop = case
    S, Pp, O = I("http://e/s"), I("http://e/p"), I("http://e/o")
    allt = []
    for i in range(n):
        t = [S, Pp, O]
        for k in vary:
            t[k] = [I("http://e/s%d"), I("http://e/p%d"), I("http://e/o%d")][k][:1] + ("http://e/%s%d" % ("spo"[k], i),) if k < 2 or i % 3 else L("v%d" % i)
        allt.append(tuple(t))
    R = Realm()
    g = Graph()
    m = set(allt)
    g.addAll([R.triple(t) for t in allt])
    gone = {"none": [], "last": allt[-1:], "half": allt[::2], "all but one": allt[:-1]}[drop]
    for t in gone:
        g.remove(R.triple(t))
        m.discard(t)
    if len(g) != len(m):
        raise Mismatch("len()", len(m), len(g))
    listing("iteration", g, m)
    some = [allt[0], allt[-1], allt[n // 2]]
    for t in some:
        for mask in range(8):
            pat = tuple(z if mask >> i & 1 else None for i, z in enumerate(t))
            listing("match%r" % (pat,), g.match(*[R.term(z) if z else None for z in pat]), hits(m, pat))
        if (R.triple(t) in g) != (t in m):
            raise Mismatch("membership", t in m, t)
    for name, pos in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        from ..rdfmodel import back
        got = sorted(back(z) for z in getattr(g, name)())
        if got != sorted({t[pos] for t in m}):
            raise Mismatch(name, None, got)
    listing("merge", g.merge(g), m)
    listing("toArray", g.toArray(), m)
    # as many statements as before, but not the same ones, and nothing asked in between
    for turn in range(3 if m else 0):
        out = sorted(m)[(turn * 7) % len(m)]
        new = list(out)
        for k in vary:
            new[k] = L("new%d" % turn) if k == 2 else I("http://e/new%s%d" % ("sp"[k], turn))
        new = tuple(new)
        if turn == 1:
            g.add(R.triple(new))
            g.remove(R.triple(out))
        else:
            g.remove(R.triple(out))
            g.add(R.triple(new))
        m.discard(out)
        m.add(new)
        for t in ((out, new), (new, out))[turn % 2]:
            for mask in range(8):
                pat = tuple(z if mask >> i & 1 else None for i, z in enumerate(t))
                listing("after an exchange, match%r" % (pat,), g.match(*[R.term(z) if z else None for z in pat]), hits(m, pat))
            if (R.triple(t) in g) != (t in m):
                raise Mismatch("after an exchange, membership", t in m, t)
        listing("after an exchange, iteration", g, m)
        listing("after an exchange, toArray", g.toArray(), m)
        if turn == 0:
            g.remove(R.triple(new))
            g.add(R.triple(out))
            g.remove(R.triple(out))
            g.add(R.triple(new))
            listing("after an exchange and back, iteration", g, m)
    g.removeMatches(R.term(allt[-1][0]), None, None)
    m = {t for t in m if t[0] != allt[-1][0]}
    listing("after removeMatches", g, m)
    g.removeMatches(None, None, R.term(allt[0][2]))
    m = {t for t in m if t[2] != allt[0][2]}
    listing("after removeMatches", g, m)
    return repr((n, vary, drop)), n + 40


def cases_stars(tier):
    def gen():
        for n in list(range(1, 36)) + [k + d for k in (64, 100, 128, 256, 500, 512, 1000, 1024) + ((2048, 4096, 10000) if tier == "thorough" else ()) for d in (-1, 0, 1)]:
            for vary in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
                for drop in ("none", "last", "half", "all but one"):
                    yield ("stars", n, vary, drop)
    return gen


def rich(case):
    """Two statements that differ in one position by a pair of confusable terms."""
    _, pos, t1, t2 = case
    R = Realm()
    base = (I("http://e/s"), I("http://e/p"), I("http://e/o"))
    s1 = base[:pos] + (t1,) + base[pos + 1:]
    s2 = base[:pos] + (t2,) + base[pos + 1:]
    ids = lambda t: tuple(("B", id(R.term(z))) if z[0] == "B" else z for z in t)
    g, m = Graph(), set()

    def look(tag):
        want = {ids(t) for t in m}
        if len(g) != len(m):
            raise Mismatch(tag + ": len", len(m), len(g))
        listing(tag + ": iteration", g, want)
        for s in (s1, s2):
            for mask in range(8):
                pat = tuple(z if mask >> i & 1 else None for i, z in enumerate(s))
                listing("%s: match%r" % (tag, pat), g.match(*[R.term(z) if z is not None else None for z in pat]),
                        hits(want, tuple(ids((z,))[0] if z is not None else None for z in pat)))
            if (R.triple(s) in g) != (s in m):
                raise Mismatch("%s: membership of %r" % (tag, s), s in m, s not in m)

    for op, s in (("add", s1), ("add", s2), ("remove", s1), ("add", s1), ("removeMatches", s2), ("removeMatches", s1)):
        if op == "add":
            g.add(R.triple(s))
            m.add(s)
        elif op == "remove":
            g.remove(R.triple(s))
            m.discard(s)
        else:
            g.removeMatches(*[R.term(z) if i == pos else None for i, z in enumerate(s)])
            m = {t for t in m if t[pos] != s[pos]}
        look("after %s %r" % (op, s))
    return repr((pos, t1 == t2, t1[0], t2[0])), 6


def cases_rich():
    for pos in range(3):
        for t1, t2 in itertools.product(RICH, repeat=2):
            yield ("rich", pos, t1, t2)


# ---- two questions being answered at once: every order of their steps ----
INTER = {
    "iri": [(a, p, b), (a, p, c), (a, q, b), (b, p, b)],
    "same": [(a, a, a), (a, a, b), (a, b, a), (b, a, a)],
    "mixed": [(x, p, y), (x, p, L("y")), (y, p, x), (E, p, E)],
}


def questions(R, g, u):
    """(name, how to ask, the model's answer) for iteration and one pattern of every shape."""
    out = [("iter", lambda: iter(g), None)]
    for mask in range(8):
        pat = tuple(z if mask >> i & 1 else None for i, z in enumerate(u[0]))
        out.append(("match%r" % (pat,), lambda pat=pat: g.match(*[R.term(z) if z is not None else None for z in pat]), pat))
    return out


def schedules(n, k):
    """Every order of n steps of the first question and k of the second."""
    for firsts in itertools.combinations(range(n + k), n):
        yield tuple(0 if i in firsts else 1 for i in range(n + k))


def interleaved(case):
    _, uname, i, j = case
    u = INTER[uname]
    R = Realm()
    g = Graph()
    for t in u:
        g.add(R.triple(t))
    qs = questions(R, g, u)
    ids = lambda t: tuple(("B", id(R.term(z))) if z[0] == "B" else z for z in t)
    want = [{ids(t) for t in (set(u) if q[2] is None else hits(set(u), q[2]))} for q in (qs[i], qs[j])]
    n = 0
    for short in (0, 1):  # all of both answers, or the first one abandoned half way
        steps = [len(want[0]) // 2 if short else len(want[0]) + 1, len(want[1]) + 1]
        for order in schedules(*steps):
            its = [qs[i][1](), qs[j][1]()]
            got = [[], []]
            for w in order:
                t = next(its[w], None)
                if t is not None:
                    got[w].append(back_triple(t))
                if R.triple(u[0]) not in g or len(g) != len(u) or not any(True for _ in g.match(None, None, None)):
                    raise Mismatch("membership or length while being read", None, None)
            for w in (0, 1):
                done = not (w == 0 and short)
                if len(got[w]) != len(set(got[w])) or not set(got[w]) <= want[w] or (done and set(got[w]) != want[w]) or (not done and len(got[w]) != steps[0]):
                    raise Mismatch("%s while %s is read, in the order %r" % ((qs[i], qs[j])[w][0], (qs[i], qs[j])[1 - w][0], order),
                                   sorted(want[w], key=repr), got[w])
            n += 1
    listing("iteration afterwards", g, {ids(t) for t in u})
    return repr(case), n


def cases_interleaved():
    for uname in INTER:
        for i, j in itertools.product(range(9), repeat=2):
            yield ("inter", uname, i, j)


HOWS = ("list", "tuple", "set", "gen", "iter", "graph", "array", "twice")


def created(case):
    """A graph made from a sequence holds that sequence as a set, and nothing ties it to its source."""
    _, uname, idx, how = case
    u = UNIVERSES[uname]
    ts = terms(u)
    R = Realm()
    env = RDFEnvironment()
    if how == "none":
        made, source, want = [env.createGraph(), env.createGraph()], None, set()
    else:
        items = [R.triple(u[k]) for k in idx]
        if how == "twice":
            items = items + items[::-1]
        source = None
        if how in ("graph", "array"):
            source = Graph()
            for t in items:
                source.add(t)
        mk = {"list": lambda: list(items), "twice": lambda: list(items), "tuple": lambda: tuple(items), "set": lambda: set(items),
              "gen": lambda: (t for t in items), "iter": lambda: iter(items), "graph": lambda: source,
              "array": lambda: source.toArray()}[how]
        made, want = [env.createGraph(mk()), env.createGraph(triples=mk())], {u[k] for k in idx}
    if not all(isinstance(g, Graph) for g in made) or made[0] is made[1] or any(g is source for g in made):
        raise Mismatch("createGraph", "new graphs", made)
    models = [set(want), set(want)]
    for g, m in zip(made, models):
        observe_graph(R, g, m, ts, len(ts) < 5)
        again = env.createGraph(g.toArray())
        observe_graph(R, again, m, ts, False)
    # two changes to each: what one graph does is not seen by the other, nor by the source
    for k, t in enumerate(u):
        w = k % 2
        if t in models[w]:
            same_object(attempt(made[w].remove, R.triple(t)), made[w], ("remove",))
            models[w].discard(t)
        else:
            same_object(attempt(made[w].add, R.triple(t)), made[w], ("add",))
            models[w].add(t)
        for g, m in zip(made, models):
            observe_graph(R, g, m, ts, False)
        if source is not None:
            observe_graph(R, source, want, ts, False)
    fresh = env.createGraph()
    if len(fresh) or list(fresh):
        raise Mismatch("a graph created from nothing", [], list(fresh))
    return repr((uname, how, len(want))), 4 + len(u)


def cases_created():
    for n in sorted(z for z in UNIVERSES if not z.startswith("pair")):
        yield ("created", n, (), "none")
        for k in range(len(UNIVERSES[n]) + 1):
            for idx in itertools.combinations(range(len(UNIVERSES[n])), k):
                for how in HOWS:
                    yield ("created", n, idx, how)


def spaces(tier):
    out = [
        Space("histories-1", cases_single, explore_universe,
              "7 universes of 5 triples; every state reachable by add/remove, then also addAll/removeMatches/merge"),
        Space("histories-2", cases_pair, explore_universe,
              "two graphs over 3 triples each incl. addAll between them and merge, every reachable state"),
        Space("confusable-pairs", cases_rich, rich, "every ordered pair of %d terms in every position, 6-step history" % len(RICH)),
        Space("interleaved", cases_interleaved, interleaved, "two of 9 questions read at once, every order of their steps, to the end or abandoned; 3 universes of 4"),
        Space("created", cases_created, created, "createGraph: every subset of 7 universes, 8 kinds of source, then a change per triple"),
        Space("stars", cases_stars(tier), stars, "up to %d statements that share some of their terms, 7 shapes, 4 removals" % (1025 if tier == "quick" else 10001)),
        Space("scale", cases_scale(8 if tier == "quick" else 14), scale, "n^3 grids, 3 insertion orders, 5 removals"),
    ]
    if tier == "thorough":
        out.append(Space("histories-big", cases_big, explore_universe, "7- and 8-triple universes, every reachable state", limit_s=3000))
    return out
