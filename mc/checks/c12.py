"""C12: concurrent parses with the shared parsers do not interfere."""
import io
import itertools
import json

from .. import ntref, sched, ttlref
from ..core import Mismatch, Space, attempt, heartbeat
from ..ntref import Reject
from ..rdfmodel import back_quad, back_triple, canon_names, isomorphic
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking: the real parsers under a controlled scheduler, all interleavings up to a preemption bound"
RULE = ("threads run one at a time and can be preempted before every line (or bytecode) of the code under test and at every line read from a "
        "stream; all schedules with the stated number of preemptions are run; each thread's result must be isomorphic to the document's "
        "reference reading (or a refusal), and no blank node may occur in two results")
ASSUMPTIONS = ["preemption points are the lines and bytecodes of pymantic and of the streams; the lark and pyld libraries run between points",
               "each thread uses its own target graph"]


class Lines:
    def __init__(self, text, boom=None):
        self.s, self.boom = io.StringIO(text), boom

    def readline(self, *a):
        if self.boom is not None:
            self.boom -= 1
            if self.boom < 0:
                raise OSError("stream failed")
        return self.s.readline()

    def read(self, *a):
        if self.boom is not None:
            raise OSError("stream failed")
        return self.s.read()

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x


NT1 = "_:a <http://e/p> _:b .\n_:b <http://e/q> _:a .\n"
NT2 = "_:a <http://e/p2> _:a .\n_:b <http://e/q2> \"x\"@en .\n"
NT3 = "_:b <http://e/p3> _:a .\n"
NTBAD = "_:a <http://e/p> _:b .\n_:a <http://e/p> .\n"
NQ1 = "_:a <http://e/p> _:b _:g .\n_:g <http://e/q> _:a .\n"
NQ3 = "_:b <http://e/p3> _:a _:g .\n"
NQ2 = "_:b <http://e/p2> _:g _:a .\n_:a <http://e/q2> \"y\" <http://e/g> .\n"
T1 = "@prefix p: <http://one/> . @base <http://b1/> . p:x <y> _:a , [ p:q _:a ] ."
T2 = "@prefix p: <http://two/> . _:a p:x <http://z> , ( _:a p:w ) ."
TBAD = "@prefix q: <http://q/> . _:a q:x _:b . _:a p:x _:b ."
TREL = "<http://r/> a <x> ."
J1 = {"@id": "_:a", "http://e/p": {"@id": "_:b"}}
J2 = {"@id": "_:b", "http://e/p2": [{"@id": "_:a"}, {"@id": "_:b"}], "@graph": [{"@id": "_:a", "http://e/p": "x"}]}
JBAD = {"@id": "_:a", "@type": 5}


def iri_rel(doc):
    return doc


# a call: (parser, kind of delivery, document)
CALLS = {
    "nt1": ("nt", "str", NT1), "nt2": ("nt", "str", NT2), "nt3": ("nt", "str", NT3), "nt1s": ("nt", "stream", NT1), "nt2s": ("nt", "stream", NT2), "nt3s": ("nt", "stream", NT3),
    "ntbad": ("nt", "str", NTBAD), "ntbads": ("nt", "stream", NTBAD), "ntboom": ("nt", "boom", NT1),
    "nq1": ("nq", "str", NQ1), "nq3": ("nq", "str", NQ3), "nq2": ("nq", "str", NQ2), "nq1s": ("nq", "stream", NQ1), "nq2s": ("nq", "stream", NQ2), "nqbad": ("nq", "str", NQ1 + "x"),
    "t1": ("ttl", "str", T1), "t2": ("ttl", "str", T2), "tbad": ("ttl", "str", TBAD), "t2s": ("ttl", "stream", T2),
    "j1": ("js", "obj", J1), "j2": ("js", "obj", J2), "jbad": ("js", "obj", JBAD),
}
PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser, "js": jsonld_parser}


def js_ref(doc):
    """Reference readings of the three JSON-LD documents, written out by hand."""
    b = lambda n: ("B", n)
    p, p2 = ("I", "http://e/p"), ("I", "http://e/p2")
    if doc is J1:
        return {(b("a"), p, b("b"), None)}
    if doc is J2:
        return {(b("b"), p2, b("a"), None), (b("b"), p2, b("b"), None), (b("a"), p, ("L", "x", None, "http://www.w3.org/2001/XMLSchema#string"), b("b"))}
    return Reject("no")


def reference(name):
    lang, how, doc = CALLS[name]
    try:
        if lang == "js":
            return js_ref(doc)
        if how == "boom":
            return set(ntref.read(doc.split("\n")[0] + "\n", False))
        if how == "stream" and lang != "ttl":
            out = []
            for l in doc.splitlines(True):
                try:
                    ntref.read(l, lang == "nq")
                except Reject:
                    break
                out.append(l)
            return set(ntref.read("".join(out), lang == "nq"))
        return set(ttlref.read(doc) if lang == "ttl" else ntref.read(doc, lang == "nq"))
    except Reject as e:
        return e


MUSTFAIL = {"ntbad", "ntbads", "ntboom", "nqbad", "tbad", "jbad"}
REF = {n: reference(n) for n in CALLS}


def body(names):
    def f():
        out = []
        for n in names:
            lang, how, doc = CALLS[n]
            g = Dataset() if lang in ("nq", "js") else Graph()
            if how == "stream":
                arg = Lines(doc)
            elif how == "boom":
                arg = Lines(doc, 1)
            else:
                arg = doc
            try:
                if lang == "js":
                    r = ("ok", PARSERS[lang].parse_json(arg, g))
                else:
                    r = ("ok", PARSERS[lang].parse(arg, g))
            except Exception as e:
                r = ("exc", e)
            out.append((n, r, g))
        return out
    return f


def judge(scenario, outs, sched_desc):
    where = "threads %r schedule %r: " % (scenario, sched_desc)
    seen = {}
    for ti, out in enumerate(outs):
        if out is None:
            raise Mismatch(where + "thread %d died" % ti)
        for n, r, g in out:
            lang = CALLS[n][0]
            q = lang in ("nq", "js")
            items = [(back_quad if q else back_triple)(t) for t in list(g)]
            if n in MUSTFAIL:
                if r[0] == "ok":
                    raise Mismatch(where + "%s was read although it must be refused" % n, "an exception", canon_names(items))
            elif r[0] == "exc":
                raise Mismatch(where + "%s failed" % n, canon_names(REF[n]), repr(r[1]))
            elif r[1] is not g:
                raise Mismatch(where + "%s returned another graph" % n)
            want = set() if isinstance(REF[n], Exception) else REF[n]
            if not isomorphic(want, set(items)):
                raise Mismatch(where + "%s read as something else" % n, canon_names(want), canon_names(items))
            mine = {x[1] for s in items for x in s if x is not None and x[0] == "B"}
            for k in mine:
                if k in seen:
                    raise Mismatch(where + "%s and %s share a blank node" % (seen[k], n))
            for k in mine:
                seen[k] = n


BLOCKED = [0]


def execute(scenario, order, pre, opcodes):
    heartbeat()
    outs, trace, blocked = sched.run([body(n) for n in scenario], order, pre, opcodes, (__file__,))
    BLOCKED[0] += blocked
    judge(scenario, outs, (order, list(pre)))
    return trace


def x_sched(case):
    _, scenario, order, bound, chunk, nchunks, opcodes, lo = case
    if not PRE.get(scenario):
        # the calls made alone, untraced: imports and caches are warm before the exploration
        for n in scenario:
            judge((n,), [body(n)()], "alone")
        PRE[scenario] = True
    count, keys = 0, []

    def children(trace, last):
        live = {}
        for s in range(len(trace) - 1, -1, -1):
            live[trace[s]] = s
        lastpos = {t: max(i for i, x in enumerate(trace) if x == t) for t in set(trace)}
        for s in range(last + 1, len(trace)):
            for t in lastpos:
                if t != trace[s] and lastpos[t] > s:
                    yield (s, t)

    base = execute(scenario, order, (), opcodes)
    count += 1
    if chunk == 0:
        keys.append(repr((scenario, order, "base", len(base))))
    for k, first in enumerate(children(base, -1)):
        if k % nchunks != chunk or BLOCKED[0] > 200:
            continue
        tr = execute(scenario, order, (first,), opcodes)
        count += 1
        keys.append(repr((scenario, order, first, opcodes)))
        if bound > 1:
            for second in children(tr, first[0]):
                if BLOCKED[0] > 200:
                    break
                tr2 = execute(scenario, order, (first, second), opcodes)
                count += 1
                if bound > 2:
                    for third in children(tr2, second[0]):
                        execute(scenario, order, (first, second, third), opcodes)
                        count += 1
    return keys or ["none"], count


PRE = {}
PAIRS2 = [("nt1", "nt2"), ("nt1s", "nt2s"), ("nq1", "nq2"), ("nt1", "ntbad"), ("nt1s", "ntboom"), ("j1", "j2")]
SHORT = [("nt3", "nt2"), ("nt3s", "nt2s"), ("nq3", "nq1"), ("nt3", "ntbad"), ("nt3s", "ntboom"), ("j1", "j1")]
PAIRS1 = PAIRS2 + [("nt1", "nt1"), ("nt1s", "nt1s"), ("nq1s", "nq2s"), ("nq1", "nqbad"), ("nt1", "nq1"), ("t1", "t2"), ("t1", "tbad"), ("t1", "t1"), ("t2s", "t2"), ("nt1", "t1"), ("j1", "jbad"),
                   ("j1", "nq1"), ("nt1s", "ntbads"), ("nt1", "nt2s"), ("t2", "j1"), ("j2", "j2")]


def c_pairs(tier):
    def gen():
        for a, b in PAIRS1:
            for order in ((0, 1), (1, 0)):
                for c in range(8):
                    yield ("sched", ((a,), (b,)), order, 1, c, 8, False, 0)
        # several calls in one thread: a failure, then a success, while the other one is at work
        for sc in ((("ntbad", "nt1"), ("nt2",)), (("ntboom", "nt1s"), ("nt2s",)), (("nt3", "nt1"), ("nt2", "nt3")), (("tbad", "t1"), ("t2",)), (("jbad", "j1"), ("j2",)), (("nqbad", "nq1"), ("nq2",))):
            for order in ((0, 1), (1, 0)):
                for c in range(8):
                    yield ("sched", sc, order, 1, c, 8, False, 0)
        # three threads
        for sc in ((("nt1",), ("nt2",), ("nt3",)), (("nt1s",), ("ntbads",), ("nt3s",)), (("t1",), ("t2",), ("tbad",))):
            for order in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                for c in range(8):
                    yield ("sched", sc, order, 1, c, 8, False, 0)
    return gen


def c_two(tier):
    def gen():
        pairs = SHORT if tier == "quick" else SHORT + PAIRS1
        for a, b in pairs:
            for order in ((0, 1), (1, 0)):
                for c in range(32):
                    yield ("sched", ((a,), (b,)), order, 2, c, 32, False, 0)
        for sc in ((("nt3",), ("nt3",), ("nt3",)), (("nt3s",), ("nt3s",), ("nt3s",)))[:1 if tier == "quick" else 2]:
            for c in range(32):
                yield ("sched", sc, (0, 1, 2), 2, c, 32, False, 0)
    return gen


def c_opcode(tier):
    def gen():
        for a, b in PAIRS1:
            for order in ((0, 1), (1, 0)):
                for c in range(16):
                    yield ("sched", ((a,), (b,)), order, 1, c, 16, True, 0)
    return gen


def c_three(tier):
    def gen():
        for a, b in (("nt3", "nt3"), ("nt3s", "nt3s"), ("nt3s", "nt3")):
            for order in ((0, 1), (1, 0)):
                for c in range(64):
                    yield ("sched", ((a,), (b,)), order, 3, c, 64, False, 0)
    return gen


def spaces(tier):
    out = [
        Space("one preemption", c_pairs(tier), x_sched, "%d pairs of calls, 6 sequences, 3 triples of threads, every line, 1 preemption" % len(PAIRS1), limit_s=60),
        Space("one preemption, bytecode", c_opcode(tier), x_sched, "%d pairs of calls, every bytecode, 1 preemption" % len(PAIRS1), limit_s=60),
        Space("two preemptions", c_two(tier), x_sched, "pairs and triples of calls, every line, 2 preemptions", limit_s=60),
    ]
    if tier == "thorough":
        out.append(Space("three preemptions", c_three(tier), x_sched, "pairs of one-statement calls, every line, 3 preemptions", limit_s=60))
    return out
