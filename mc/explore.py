"""Explicit-state search over histories of real operations."""
import collections

from . import sut  # noqa: F401
from pymantic.primitives import BlankNode

from .core import Mismatch, heartbeat


ORDERED = [9]  # dictionaries nested less deeply than this are told apart by their order too


class Opaque(Exception):
    pass


def canon(x, names, depth=0, seen=None):
    """Canonical form of the complete reachable state of a real object, whatever its
    attributes are called: merged states hold equal data and so have the same futures.
    Unordered collections are sorted. Raises Opaque for state it cannot see into."""
    if seen is None:
        seen = {}
    if x is None or isinstance(x, (bool, int, float, bytes)):
        return repr(x)
    if isinstance(x, str):
        return ("s" if type(x) is str else type(x).__name__) + str.__repr__(x)
    if isinstance(x, BlankNode):
        return "b" + str(names.setdefault(id(x), len(names)))
    if id(x) in seen:
        return "@%d" % seen[id(x)]
    if isinstance(x, (tuple, list)):
        return (type(x).__name__ if type(x) not in (tuple, list) else "") + "(" + ",".join(canon(y, names, depth + 1, seen) for y in x) + ")"
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        items = [canon(k, names, depth + 1, seen) + ":" + canon(v, names, depth + 1, seen) for k, v in x.items()]
        return type(x).__name__ + "{" + ",".join(items if ORDERED[0] and depth < ORDERED[0] else sorted(items)) + "}" + (
            canon(x.default_factory, names, depth + 1, seen) if isinstance(x, collections.defaultdict) else "") + (
            canon(vars(x), names, depth + 1, seen) if hasattr(x, "__dict__") and vars(x) else "")
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + "<" + ",".join(sorted(canon(y, names, depth + 1, seen) for y in x)) + ">"
    if isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
        return "f" + getattr(x, "__qualname__", repr(type(x)))
    if hasattr(x, "__dict__") or hasattr(type(x), "__slots__"):
        d = dict(getattr(x, "__dict__", {}))
        for c in type(x).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for n in ((sl,) if isinstance(sl, str) else sl):
                if hasattr(x, n):
                    d[n] = getattr(x, n)
        return type(x).__name__ + canon(d, names, depth + 1, seen)
    raise Opaque(type(x))


VARIANTS = 12


def bfs(build, ops, observe, key, max_depth):
    """build(history) -> world (fresh real objects + model, history replayed and each
    step checked); ops(world) -> list of operations enabled there; observe(world, history)
    raises Mismatch; key(world) -> (model key, real-state key or None if opaque).
    States are merged when both keys agree. At most VARIANTS different real states are
    expanded per model state (never reached on a code whose state is determined by its
    contents; keeps the search finite if the code counts calls, say).
    Returns (keys, transitions). Breadth first, so the first counterexample is shortest."""
    root = build(())
    observe(root, ())
    k0 = key(root)
    seen = {k0}
    variants = collections.Counter({k0[0]: 1})
    keys = [repr(k0)]
    frontier = collections.deque([((), ops(root))])
    trans = 0
    while frontier:
        hist, menu = frontier.popleft()
        for op in menu:
            h2 = hist + (op,)
            heartbeat()
            try:
                w = build(h2)
                trans += 1
                k = key(w)
                if k[1] is not None and k in seen:
                    continue
                if variants[k[0]] >= VARIANTS:
                    if variants[k[0]] < 4 * VARIANTS:
                        variants[k[0]] += 1
                        observe(w, h2)
                    continue
                observe(w, h2)
            except Mismatch as m:
                m.args = ("%s\nhistory: %r" % (m.what, h2),)
                m.what = m.args[0]
                raise
            variants[k[0]] += 1
            seen.add(k)
            keys.append(repr(k))
            if len(h2) < max_depth:
                frontier.append((h2, ops(w)))
    return keys, trans
