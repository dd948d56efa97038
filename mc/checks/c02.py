"""C02: Dataset against a plain set of quads, over every reachable state of small universes."""
import itertools

from ..core import Mismatch, Space, attempt
from ..explore import Opaque, bfs, canon
from ..rdfmodel import B, I, L, RICH, Realm, back, back_quad, back_triple
from pymantic.primitives import Dataset, Graph, RDFEnvironment

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over operation histories of the real Dataset against a set-of-quads model"
RULE = ("breadth-first over add/remove/addAll/removeMatches/add_graph/remove_graph histories; states merged only when the "
        "complete real state (types and orders included) and the model state coincide; all sixteen match patterns and all listings compared in every state")
ASSUMPTIONS = [
    "a graph that became empty may or may not stay listed (the statement fixes only what asking and failing calls may change)",
    "attaching a graph under a name already in use replaces that graph's contents (behaviour of the code, not contradicted by its docs)",
    "a graph is attached to one name of one dataset at a time, except in the space shared-graph",
]

a, b, p, q = I("http://e/a"), I("http://e/b"), I("http://e/p"), I("http://e/q")
g1, g2, gE = I("http://e/g1"), I("http://e/g2"), I("")
gb, gc = B("g"), B("h")
UNIVERSES = {
    "named": [(a, p, b, g1), (a, p, b, g2), (b, p, a, g1), (a, q, b, g2)],
    "default": [(a, p, b, None), (a, p, b, g1), (b, p, a, None), (a, p, a, g1)],
    "bnode": [(a, p, b, gb), (a, p, b, gc), (gb, p, gc, gb), (a, p, gb, None)],
    "empty": [(a, p, b, gE), (a, p, b, None), (gE, p, b, gE), (a, p, gE, g1)],
    "same": [(a, a, a, a), (a, a, b, a), (b, a, a, None), (a, a, a, b)],
    "lit": [(a, p, L("x"), g1), (a, p, L("x", "en"), g1), (a, p, L("x"), None), (a, p, I("x"), g2)],
}
BIG = {
    "big": [(a, p, b, g1), (a, p, b, g2), (a, p, b, None), (b, p, a, g1), (a, q, L("x"), gb), (gb, q, b, gE)],
    "cube": [(s, p, o, g) for s in (a, b) for o in (a, b) for g in (g1, None)],
}
ABSENT = I("http://e/absent")


class World:
    def __init__(self, n):
        self.realm = Realm()
        self.d = [Dataset() for _ in range(n)]
        self.m = [dict() for _ in range(n)]  # name -> set of triples; every name that may be listed


def quads(m):
    return {t + (n,) for n, ts in m.items() for t in ts}


def names_of(realm, d):
    out = []
    for g in d.graphs:
        if not isinstance(g, Graph):
            raise Mismatch("graphs lists something that is not a Graph", None, repr(g))
        out.append(back(g.uri))
    return sorted(out, key=repr)


def rid(realm, z):
    return ("B", id(realm.term(z))) if z is not None and z[0] == "B" else z


def rids(realm, t):
    return tuple(rid(realm, z) for z in t)


def failed_unchanged(w, i, f, *args):
    """Run a call that names something absent: error or no effect, but no change."""
    before = names_of(w.realm, w.d[i])
    r = attempt(f, *args)
    after = names_of(w.realm, w.d[i])
    if before != after:
        raise Mismatch("a call without effect changed the listing of graphs", before, after)
    return r


def step(w, op, u):
    kind, i = op[0], op[1]
    d, m, R = w.d[i], w.m[i], w.realm
    if kind == "add":
        ok(attempt(d.add, R.quad(u[op[2]])), op)
        m.setdefault(u[op[2]][3], set()).add(u[op[2]][:3])
    elif kind == "remove":
        t = u[op[2]]
        if t in quads(m):
            ok(attempt(d.remove, R.quad(t)), op)
            m[t[3]].discard(t[:3])
        else:
            failed_unchanged(w, i, d.remove, R.quad(t))
    elif kind == "addAll":
        items = [R.quad(u[k]) for k in op[3]]
        if op[2] == "gen":
            src = (x for x in items)
        elif op[2] == "dataset":
            src = Dataset()
            for x in items:
                src.add(x)
        else:
            src = items
        r = ok(attempt(d.addAll, src), op)
        if r is not d:
            raise Mismatch("addAll did not return the dataset", None, repr(r))
        for k in op[3]:
            m.setdefault(u[k][3], set()).add(u[k][:3])
    elif kind == "from":
        r = ok(attempt(d.addAll, w.d[op[2]]), op)
        if r is not d:
            raise Mismatch("addAll did not return the dataset", None, repr(r))
        for n, ts in list(w.m[op[2]].items()):
            if ts or n in m:
                m.setdefault(n, set()).update(ts)
            elif n in [z for z in w.m[op[2]]]:
                m.setdefault(n, set())
    elif kind == "removeMatches":
        pat = op[2]
        hit = {x for x in quads(m) if all(z is None or x[j] == z for j, z in enumerate(pat))}
        r = (attempt if hit else lambda f, *a: failed_unchanged(w, i, f, *a))(
            d.removeMatches, *[R.term(z) for z in pat])
        r = ok(r, op)
        if r is not d:
            raise Mismatch("removeMatches did not return the dataset", None, repr(r))
        for x in hit:
            m[x[3]].discard(x[:3])
    elif kind == "add_graph":
        how, name, idx = op[2], op[3], op[4]
        g = Graph(R.term(name)) if how == "uri" else Graph(name[1]) if how == "str" else Graph(R.term(ABSENT)) if how == "rename" else Graph()
        for k in idx:
            g.add(R.triple(u[k][:3]))
        if how == "unnamed":
            before = names_of(R, d)
            r = attempt(d.add_graph, g)
            if r[0] != "exc" or not isinstance(r[1], ValueError):
                raise Mismatch("attaching an unnamed graph", "ValueError", r)
            if names_of(R, d) != before:
                raise Mismatch("refused add_graph changed the listing", before, names_of(R, d))
            return
        if how in ("uri", "str"):
            ok(attempt(d.add_graph, g), op)
        elif how == "kw":
            ok(attempt(d.add_graph, g, named=R.term(name)), op)
        else:
            ok(attempt(d.add_graph, g, R.term(name)), op)
        m[name] = {u[k][:3] for k in idx}
    elif kind == "remove_graph":
        how, name = op[2], op[3]
        if name in m and (m[name] or name in {x for x in m}):
            arg = R.term(name)
            if how == "graph":
                c = [g for g in d.graphs if back(g.uri) == rid(R, name)]
                if not c:
                    if m[name]:
                        raise Mismatch("graph %r is not listed" % (name,), name, names_of(R, d))
                    m.pop(name)
                    return
                arg = c[0]
            if m[name]:
                ok(attempt(d.remove_graph, arg), op)
            else:
                attempt(d.remove_graph, arg)
            m.pop(name)
        else:
            failed_unchanged(w, i, d.remove_graph, R.term(name) if how == "uri" else Graph(R.term(name)))
    elif kind == "ask":
        observe_dataset(R, d, m, [sorted({x[j] for x in u} | {ABSENT}, key=repr) for j in range(3)],
                        sorted({x[3] for x in u} | {ABSENT, None}, key=repr))
    else:
        raise AssertionError(op)


def ok(r, op):
    if r[0] == "exc":
        raise Mismatch("%s raised" % op[0], "no exception", repr(r[1]))
    return r[1]


def listing(what, it, want):
    got = [back_quad(t) for t in it]
    if len(got) != len(set(got)):
        raise Mismatch(what + " reports a quad twice", sorted(want, key=repr), got)
    if set(got) != want:
        raise Mismatch(what, sorted(want, key=repr), sorted(got, key=repr))


def observe_dataset(R, d, m, opts, names):
    before = names_of(R, d)
    want = {rids(R, x) for x in quads(m)}
    if len(d) != len(want):
        raise Mismatch("len()", len(want), len(d))
    listing("iteration", d, want)
    listing("toArray", d.toArray(), want)
    must = {rid(R, n) for n in m if m[n]}
    may = {rid(R, n) for n in m}
    if len(before) != len(set(before)):
        raise Mismatch("a graph is listed twice", None, before)
    if not must <= set(before) <= may:
        raise Mismatch("names of the listed graphs", "at least %r, at most %r" % (must, may), before)
    for g in d.graphs:
        nm = back(g.uri)
        got = {(back(t.subject), back(t.predicate), back(t.object)) for t in g}
        exp = {x[:3] for x in want if x[3] == nm}
        if got != exp:
            raise Mismatch("contents of the graph listed as %r" % (nm,), exp, got)
    for s, pr, o in itertools.product(*opts):
        anyg = any((s, pr, o) in ts for ts in m.values())
        if (R.triple((s, pr, o)) in d) != anyg:
            raise Mismatch("membership of triple %r" % ((s, pr, o),), anyg, not anyg)
        for n in names:
            exp = (s, pr, o) in m.get(n, ())
            if (R.quad((s, pr, o, n)) in d) != exp:
                raise Mismatch("membership of quad %r" % ((s, pr, o, n),), exp, not exp)
    full = [x + [None] for x in opts] + [[n for n in names if n is not None] + [None]]
    for pat in itertools.product(*full):
        exp = {x for x in want if all(z is None or x[j] == rid(R, z) for j, z in enumerate(pat))}
        listing("match%r" % (pat,), d.match(*[R.term(z) if z is not None else None for z in pat]), exp)
    for j, nm in enumerate(("subject", "predicate", "object", "graph")):
        for z in full[j]:
            exp = {x for x in want if z is None or x[j] == rid(R, z)}
            listing("match(%s=%r)" % (nm, z), d.match(**{nm: R.term(z) if z is not None else None}), exp)
    if names_of(R, d) != before or len(d) != len(want):
        raise Mismatch("asking questions changed the dataset or its listing of graphs", before, names_of(R, d))
    listing("iteration after questions", d, want)


def explore_universe(case):
    _, uname, n, alphabet, depth = case
    u = UNIVERSES.get(uname) or BIG[uname]
    opts = [sorted({x[j] for x in u} | {ABSENT}, key=repr) for j in range(3)]
    names = sorted({x[3] for x in u} | {ABSENT, None}, key=repr)
    gnames = [z for z in names if z is not None and z != ABSENT and z != gE]

    def build(hist):
        w = World(n)
        for op in hist:
            step(w, op, u)
        return w

    def ops(w):
        out = []
        for i in range(n):
            out.append(("ask", i))
            out += [("add", i, k) for k in range(len(u))]
            out += [("remove", i, k) for k in range(len(u))]
        if alphabet == "two":
            out += [("from", i, j) for i in range(n) for j in range(n)]
        if alphabet == "bulk":
            for i in range(n):
                for how in ("list", "gen", "dataset"):
                    out.append(("addAll", i, how, ()))
                    out += [("addAll", i, how, (k, (k + 1) % len(u), k)) for k in range(len(u))]
                for pat in itertools.product(*[sorted({x[j] for x in u if x[j] is not None}, key=repr) + [None] for j in range(4)]):
                    out.append(("removeMatches", i, pat))
                out.append(("removeMatches", i, (None, None, None, ABSENT)))
                for nm in gnames:
                    for idx in ((), (0,), (1, 2)):
                        for how in ("uri", "arg", "kw", "rename") + (("str",) if nm[0] == "I" and idx == (0,) else ()):
                            out.append(("add_graph", i, how, nm, idx))
                out.append(("add_graph", i, "unnamed", None, (0,)))
                out.append(("add_graph", i, "unnamed", None, ()))
                for nm in names:
                    for how in ("uri", "graph"):
                        out.append(("remove_graph", i, how, nm))
        return out

    def observe(w, hist):
        for d, m in zip(w.d, w.m):
            observe_dataset(w.realm, d, m, opts, names)

    def key(w):
        nm = {}
        for k in sorted(w.realm.nodes):
            nm[id(w.realm.nodes[k])] = k
        try:
            real = canon(list(w.d), nm)
        except Opaque:
            real = None
        return (repr([sorted(((n, sorted(ts, key=repr)) for n, ts in m.items()), key=repr) for m in w.m]), real)

    return bfs(build, ops, observe, key, depth)


def cases_plain():
    for n in UNIVERSES:
        yield ("bfs", n, 1, "plain", 12)


def cases_bulk(depth):
    def gen():
        for n in UNIVERSES:
            yield ("bfs", n, 1, "bulk", depth)
    return gen


def cases_two(depth):
    def gen():
        UNIVERSES.update({"two%d" % i: v for i, v in enumerate(TWO)})
        for i in range(len(TWO)):
            yield ("bfs", "two%d" % i, 2, "two", depth)
    return gen


TWO = [[(a, p, b, g1), (a, p, b, None), (b, p, a, g1)], [(a, p, b, gb), (gb, p, b, g1), (a, p, gE, gE)]]


def cases_big():
    for n in BIG:
        yield ("bfs", n, 1, "plain", 99)


def confusable(case):
    """Two quads that differ in one position by a pair of confusable terms."""
    _, pos, t1, t2 = case
    R = Realm()
    base = (I("http://e/s"), I("http://e/p"), I("http://e/o"), I("http://e/g"))
    s = [base[:pos] + (t,) + base[pos + 1:] for t in (t1, t2)]
    d, m = Dataset(), set()
    for op, k in (("add", 0), ("add", 1), ("remove", 0), ("add", 0), ("rm", 1), ("rm", 0)):
        if op == "add":
            d.add(R.quad(s[k]))
            m.add(s[k])
        elif op == "remove":
            d.remove(R.quad(s[k]))
            m.discard(s[k])
        elif s[k][pos] is not None:
            d.removeMatches(*[R.term(z) if j == pos else None for j, z in enumerate(s[k])])
            m = {x for x in m if x[pos] != s[k][pos]}
        want = {rids(R, x) for x in m}
        if len(d) != len(m):
            raise Mismatch("len after %s %r" % (op, s[k]), len(m), len(d))
        listing("iteration after %s %r" % (op, s[k]), d, want)
        for x in s:
            if (R.quad(x) in d) != (x in m):
                raise Mismatch("membership of %r after %s %r" % (x, op, s[k]), x in m, x not in m)
            for mask in range(16):
                pat = tuple(z if mask >> j & 1 else None for j, z in enumerate(x))
                exp = {y for y in want if all(z is None or y[j] == rid(R, z) for j, z in enumerate(pat))}
                listing("match%r" % (pat,), d.match(*[R.term(z) if z is not None else None for z in pat]), exp)
    return repr((pos, t1 == t2, t1 and t1[0], t2 and t2[0])), 6


def cases_confusable():
    for t1, t2 in itertools.product(RICH + [None], repeat=2):
        if (t1 is None or t1[0] != "L") and (t2 is None or t2[0] != "L"):
            yield ("pair", 3, t1, t2)
    for pos in range(3):
        for t1, t2 in itertools.product(RICH, repeat=2):
            yield ("pair", pos, t1, t2)


def shared(case):
    """One graph attached to two datasets under two names: each dataset reports its own name."""
    _, n1, n2, order, content = case
    R = Realm()
    u = [(a, p, b), (b, p, a)]
    g = Graph()
    for k in content:
        g.add(R.triple(u[k]))
    d1, d2 = Dataset(), Dataset()
    for which in order:
        (d1 if which == 0 else d2).add_graph(g, R.term(n1 if which == 0 else n2))
    for d, n in ((d1, n1), (d2, n2)):
        want = {rids(R, u[k] + (n,)) for k in content}
        listing("iteration", d, want)
        listing("match", d.match(), want)
        for pat in itertools.product((a, b, ABSENT, None), (p, ABSENT, None), (a, b, None), (n, ABSENT, None)):
            exp = {x for x in want if all(z is None or x[j] == rid(R, z) for j, z in enumerate(pat))}
            listing("match%r" % (pat,), d.match(*[R.term(z) if z is not None else None for z in pat]), exp)
        listing("toArray", d.toArray(), want)
        for k in content:
            if R.quad(u[k] + (n,)) not in d:
                raise Mismatch("membership", True, False)
    return repr(case), 2


def cases_shared():
    for n1, n2 in itertools.product((g1, g2, gb), repeat=2):
        for order in ((0, 1), (1, 0)):
            for content in ((), (0,), (0, 1)):
                yield ("shared", n1, n2, order, content)


# ---- an attached graph is the dataset's graph of that name until removed or replaced ----
class Attached:
    def __init__(self, names):
        self.R = Realm()
        self.d = Dataset()
        self.names = names
        self.g = [Graph(self.R.term(names[0])), Graph()]  # the second is named when attached
        self.gm = [set(), set()]      # contents of the graphs
        self.at = {}                  # name -> 0, 1 or a set of its own

    def content(self, n):
        x = self.at.get(n, set())
        return x if isinstance(x, set) else self.gm[x]


AT = [(a, p, b), (b, p, a)]
ATNAMES = [(g1, g2), (g1, gb), (gb, g1)]


def at_step(w, op):
    k, R, d = op[0], w.R, w.d
    if k == "attach":
        i, n = op[1], w.names[op[1]]
        ok(attempt(d.add_graph, w.g[i], *((R.term(n),) if op[2] else ())), op)
        w.at[n] = i
    elif k == "detach":
        n = w.names[op[1]]
        ok(attempt(d.remove_graph, R.term(n) if op[2] else w.g[op[1]]), op)
        del w.at[n]
    elif k in ("gadd", "gremove"):
        i, t = op[1:]
        ok(attempt(w.g[i].add if k == "gadd" else w.g[i].remove, R.triple(AT[t])), op)
        (w.gm[i].add if k == "gadd" else w.gm[i].remove)(AT[t])
    elif k == "dadd":
        n, t = w.names[op[1]], AT[op[2]]
        ok(attempt(d.add, R.quad(t + (n,))), op)
        if n not in w.at:
            w.at[n] = set()
        w.content(n).add(t)
    elif k == "dremove":
        n, t = w.names[op[1]], AT[op[2]]
        ok(attempt(d.remove, R.quad(t + (n,))), op)
        w.content(n).remove(t)
    elif k == "dclear":
        n = w.names[op[1]]
        ok(attempt(d.removeMatches, None, None, None, R.term(n)), op)
        w.content(n).clear()
    elif k == "gclear":
        ok(attempt(w.g[op[1]].removeMatches, None, None, None), op)
        w.gm[op[1]].clear()
    else:
        raise AssertionError(op)


def x_attached(case):
    _, ni, first, depth = case

    def build(hist):
        w = Attached(ATNAMES[ni])
        for op in tuple(tuple(x) for x in first) + tuple(hist):
            at_step(w, op)
        return w

    def ops(w):
        out = []
        for i in (0, 1):
            n = w.names[i]
            out += [("attach", i, how) for how in ((0, 1) if i == 0 else (1,))]
            if w.at.get(n) == i:
                out += [("detach", i, how) for how in (0, 1)]
            for t in range(len(AT)):
                out.append(("gremove" if AT[t] in w.gm[i] else "gadd", i, t))
                out.append(("dremove" if AT[t] in w.content(n) else "dadd", i, t))
            out += [("dclear", i), ("gclear", i)]
        return out

    def observe(w, hist):
        R = w.R
        for i in (0, 1):
            got = {back_triple(t) for t in w.g[i]}
            if got != {rids(R, t) for t in w.gm[i]} or len(w.g[i]) != len(w.gm[i]):
                raise Mismatch("contents of graph %d" % i, w.gm[i], got)
        listing("iteration", w.d, {rids(R, t + (n,)) for n in w.at for t in w.content(n)})
        for n in w.names:
            listing("match(graph)", w.d.match(graph=R.term(n)), {rids(R, t + (n,)) for t in w.content(n)})
            for t in AT:
                if (R.quad(t + (n,)) in w.d) != (t in w.content(n)):
                    raise Mismatch("membership of %r" % (t + (n,),), t in w.content(n), t not in w.content(n))
            if isinstance(w.at.get(n), int) and w.content(n) and not any(g is w.g[w.at[n]] for g in w.d.graphs):
                raise Mismatch("the graph attached as %r is not listed" % (n,), None, list(w.d.graphs))

    def key(w):
        nm = {id(v): k for k, v in w.R.nodes.items()}
        try:
            real = canon([w.d] + w.g, nm)
        except Opaque:
            real = None
        return (repr((sorted(((n, x if isinstance(x, int) else sorted(x)) for n, x in w.at.items()), key=repr), [sorted(x) for x in w.gm])), real)
    return bfs(build, ops, observe, key, depth)


def c_attached(depth):
    def gen():
        for ni in range(len(ATNAMES)):
            for f in ([("attach", 0, 0)], [("attach", 0, 1)], [("attach", 1, 1)], [("dadd", 0, 0)], [("dadd", 1, 0)], [("gadd", 0, 0)], [("gadd", 1, 1)]):
                yield ("attached", ni, f, depth)
    return gen


# ---- two questions being answered at once: every order of their steps ----
INTER = [(a, p, b, g1), (a, p, b, None), (a, q, b, g1), (gb, p, b, gb)]


def interleaved(case):
    _, i, j = case
    R = Realm()
    d = Dataset()
    for x in INTER:
        d.add(R.quad(x))
    want, ask = [], []
    for k in (i, j):
        if k < 0:
            ask.append(lambda: iter(d))
            want.append({rids(R, x) for x in INTER})
        else:
            pat = tuple(z if k >> b_ & 1 else None for b_, z in enumerate(INTER[0]))
            ask.append(lambda pat=pat: d.match(*[R.term(z) if z is not None else None for z in pat]))
            want.append({rids(R, x) for x in INTER if all(z is None or x[b_] == z for b_, z in enumerate(pat))})
    n = 0
    for short in (0, 1):
        steps = [len(want[0]) // 2 if short else len(want[0]) + 1, len(want[1]) + 1]
        for firsts in itertools.combinations(range(sum(steps)), steps[0]):
            its = [f() for f in ask]
            got = [[], []]
            for s in range(sum(steps)):
                w = 0 if s in firsts else 1
                x = next(its[w], None)
                if x is not None:
                    got[w].append(back_quad(x))
                if R.quad(INTER[0]) not in d or len(d) != len(INTER):
                    raise Mismatch("membership or length while being read", None, None)
            for w in (0, 1):
                done = not (w == 0 and short)
                if len(got[w]) != len(set(got[w])) or not set(got[w]) <= want[w] or (done and set(got[w]) != want[w]) or (not done and len(got[w]) != steps[0]):
                    raise Mismatch("question %d while %d is read, the first at steps %r" % (case[1 + w], case[2 - w], firsts), sorted(want[w], key=repr), got[w])
            n += 1
    listing("iteration afterwards", d, {rids(R, x) for x in INTER})
    return repr(case), n


def cases_interleaved():
    for i, j in itertools.product(range(-1, 16), repeat=2):
        yield ("inter", i, j)


HOWS = ("list", "tuple", "set", "gen", "iter", "dataset", "array", "twice")


def created(case):
    """A dataset made from a sequence holds that sequence as a set, and nothing ties it to its source."""
    _, uname, idx, how = case
    u = UNIVERSES[uname]
    opts = [sorted({x[j] for x in u} | {ABSENT}, key=repr) for j in range(3)]
    names = sorted({x[3] for x in u} | {ABSENT, None}, key=repr)
    R = Realm()
    env = RDFEnvironment()

    def model(qs):
        m = {}
        for x in qs:
            m.setdefault(x[3], set()).add(x[:3])
        return m
    source = None
    want = [u[k] for k in idx]
    if how == "none":
        made = [env.createDataset(), env.createDataset()]
    else:
        items = [R.quad(x) for x in want]
        if how == "twice":
            items = items + items[::-1]
        if how in ("dataset", "array"):
            source = Dataset()
            for x in items:
                source.add(x)
        mk = {"list": lambda: list(items), "twice": lambda: list(items), "tuple": lambda: tuple(items), "set": lambda: set(items),
              "gen": lambda: (t for t in items), "iter": lambda: iter(items), "dataset": lambda: source,
              "array": lambda: source.toArray()}[how]
        made = [env.createDataset(mk()), env.createDataset(quads=mk())]
    if not all(isinstance(d, Dataset) for d in made) or made[0] is made[1] or any(d is source for d in made):
        raise Mismatch("createDataset", "new datasets", made)
    models = [model(want), model(want)]
    for d, m in zip(made, models):
        observe_dataset(R, d, m, opts, names)
        observe_dataset(R, env.createDataset(d.toArray()), {n: ts for n, ts in m.items() if ts}, opts, names)
    for k, x in enumerate(u):
        w = k % 2
        m = models[w]
        if x in quads(m):
            ok(attempt(made[w].remove, R.quad(x)), ("remove",))
            m[x[3]].discard(x[:3])
        else:
            ok(attempt(made[w].add, R.quad(x)), ("add",))
            m.setdefault(x[3], set()).add(x[:3])
        for d, m in zip(made, models):
            observe_dataset(R, d, m, opts, names)
        if source is not None:
            observe_dataset(R, source, model(want), opts, names)
    fresh = env.createDataset()
    if len(fresh) or list(fresh) or list(fresh.graphs):
        raise Mismatch("a dataset created from nothing", [], list(fresh))
    return repr((uname, how, len(want))), 4 + len(u)


def cases_created():
    for n in sorted(z for z in UNIVERSES if not z.startswith("two")):
        yield ("created", n, (), "none")
        for k in range(len(UNIVERSES[n]) + 1):
            for idx in itertools.combinations(range(len(UNIVERSES[n])), k):
                for how in HOWS:
                    yield ("created", n, idx, how)


# ---- many graphs, many statements in one ----
def many(case):
    _, n, shape, drop = case
    g = lambda i: None if i == 3 else B("g%d" % i) if i % 5 == 4 else I("http://e/g%d" % i)
    if shape == "graphs":
        allq = [(a, p, b, g(i)) for i in range(n)]
    elif shape == "statements":
        allq = [(a, p, I("http://e/o%d" % i), g(i % 2)) for i in range(n)]
    elif shape == "subjects":
        allq = [(I("http://e/s%d" % i), p, b, g(i % 4)) for i in range(n)]
    else:
        allq = [(I("http://e/s%d" % (i % 7)), p, I("http://e/o%d" % (i % 3)), g(i)) for i in range(n)]
    R = Realm()
    d = Dataset()
    d.addAll([R.quad(x) for x in allq])
    m = set(allq)
    gone = {"none": [], "last": allq[-1:], "half": allq[::2], "graph": None}[drop]
    if gone is None:
        name = allq[-1][3]
        if name is not None:
            d.remove_graph(R.term(name))
            m = {x for x in m if x[3] != name}
    else:
        for x in gone:
            d.remove(R.quad(x))
            m.discard(x)
    want = {rids(R, x) for x in m}
    rows = lambda x: [back_quad(q) if "B" not in {z[0] for z in back_quad(q) if z} else tuple(("B", id(t)) if z is not None and z[0] == "B" else z for t, z in zip(q, back_quad(q))) for q in x]

    def same(what, got, exp):
        got = rows(got)
        if len(got) != len(exp) or set(got) != exp:
            raise Mismatch("%s of %d quads (%s)" % (what, n, shape), len(exp), (len(got), sorted(map(repr, set(got) ^ exp))[:5]))
    if len(d) != len(m):
        raise Mismatch("len()", len(m), len(d))
    same("iteration", d, want)
    same("toArray", d.toArray(), want)
    for x in (allq[0], allq[-1], allq[n // 2]):
        for mask in range(16):
            pat = tuple(z if mask >> i & 1 else None for i, z in enumerate(x))
            same("match%r" % (pat,), d.match(*[R.term(z) if z is not None else None for z in pat]),
                 {rids(R, y) for y in m if all(z is None or z == y[i] for i, z in enumerate(pat))})
        if (R.quad(x) in d) != (x in m):
            raise Mismatch("membership of a quad", x in m, x)
        if bool(R.triple(x[:3]) in d) != any(y[:3] == x[:3] for y in m):
            raise Mismatch("membership of a triple", None, x)
    names = {back(z.uri) for z in d.graphs}
    if not {y[3] for y in m if y[3] is None or y[3][0] != "B"} <= names | {None} or len(list(d.graphs)) < len({y[3] for y in m}):
        raise Mismatch("graphs", len({y[3] for y in m}), len(names))
    d.removeMatches(R.term(allq[0][0]), None, None, None)
    m = {y for y in m if y[0] != allq[0][0]}
    same("removeMatches", d, {rids(R, y) for y in m})
    return repr((n, shape, drop)), n + 55


def cases_many(tier):
    def gen():
        for n in list(range(1, 36)) + [k + d for k in (64, 100, 128, 256) + ((512, 1000, 1024, 2048) if tier == "thorough" else (1000,)) for d in (-1, 0, 1)]:
            for shape in ("graphs", "statements", "subjects", "mixed"):
                for drop in ("none", "last", "half", "graph"):
                    yield ("many", n, shape, drop)
    return gen


def spaces(tier):
    q_ = tier == "quick"
    out = [
        Space("histories-plain", cases_plain, explore_universe, "6 universes of 4 quads, every state reachable by add/remove", limit_s=300),
        Space("histories-bulk", cases_bulk(5 if q_ else 99), explore_universe,
              "all operations, every history up to depth %d" % (5 if q_ else 99), limit_s=300),
        Space("two-datasets", cases_two(6 if q_ else 12), explore_universe, "two datasets, 3 quads each, add/remove, addAll of one to the other", limit_s=300),
        Space("confusable-pairs", cases_confusable, confusable, "every ordered pair of confusable terms in every position"),
        Space("attached", c_attached(5 if q_ else 8), x_attached, "two graphs attached, detached and changed through themselves or the dataset: every history of <= %d steps" % (6 if q_ else 9), limit_s=300),
        Space("interleaved", cases_interleaved, interleaved, "two of 17 questions read at once, every order of their steps, to the end or abandoned"),
        Space("created", cases_created, created, "createDataset: every subset of 6 universes, 8 kinds of source, then a change per quad"),
        Space("many", cases_many(tier), many, "up to %d graphs or quads, 4 shapes, 4 removals" % (1001 if q_ else 2049)),
        Space("shared-graph", cases_shared, shared, "one graph in two datasets under every pair of names"),
    ]
    if not q_:
        out.append(Space("histories-big", cases_big, explore_universe, "6- and 8-quad universes, every state reachable by add/remove", limit_s=3000))
    return out
