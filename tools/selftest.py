"""setup_cmd: nothing to build; shows that interpreter, libraries and explorer are usable, and
tries the reference isomorphism test against all permutations, and the reference readers against
fixed documents."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import lark, pyld, requests  # noqa
from mc import core, ntref, ttlref  # noqa
from mc.rdfmodel import B, I, L, isomorphic


def brute(n, p):
    """The smallest renaming of a graph over n blank nodes."""
    return min(tuple(sorted((m[s], q, m[o]) for s, q, o in p)) for m in itertools.permutations(range(n)))


def iso(n, top, preds):
    edges = list(itertools.product(range(n), preds, range(n)))
    graphs = [c for k in range(top + 1) for c in itertools.combinations(edges, k)]
    keys = [brute(n, g) for g in graphs]
    terms = [{(B("x%d" % s), I("p%d" % q), B("x%d" % o)) for s, q, o in g} for g in graphs]
    for i, j in itertools.product(range(len(graphs)), repeat=2):
        assert bool(isomorphic(terms[i], terms[j])) == (keys[i] == keys[j]), (graphs[i], graphs[j])
    return len(graphs) ** 2


n = iso(3, 3, (0,)) + iso(4, 2, (0,)) + iso(2, 4, (0, 1))
assert ntref.read('<a:b> <a:c> "\\u0041"@en-us . # c\n', False) == [(I("a:b"), I("a:c"), L("A", "en-us"))]
for bad in ("<a:b> <a:c> .\n", '<a:b> "x" <a:c> .\n', "<a:b> <a:c> 'x' .\n"):
    try:
        ntref.read(bad, False)
        raise SystemExit("accepted: " + bad)
    except ntref.Reject:
        pass
print("ok: %d pairs of graphs" % n)
