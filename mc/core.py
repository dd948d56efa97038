"""Exploration core: enumeration over worker processes, evidence, violations.

A check module (mc/checks/cNN.py) defines

    LEVEL, TECHNIQUE, RULE       texts
    def spaces(tier):            list of Space objects (simplest first)

A Space is a named, finite, ordered enumeration of cases with an `execute(case)` that
runs the case on the real code and returns an Outcome.  Cases are JSON-able so that a
violation can be written down and replayed without the explorer.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from .sut import REPO_SRC

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
NPROC = max(1, min(8, int(os.environ.get("MC_NPROC") or os.cpu_count() or 1)))
ITEM_LIMIT_S = 120
MEMORY = 7 << 29  # per worker


class Mismatch(Exception):
    """The real code disagrees with the reference model."""

    def __init__(self, what, expected=None, observed=None, finding=None):
        Exception.__init__(self, what)
        self.what, self.expected, self.observed, self.finding = what, expected, observed, finding


class Hang(Exception):
    pass


class CheckError(Exception):
    """The check itself is broken: no answer."""


class Space:
    def __init__(self, name, cases, execute, bound="", setup=None, limit_s=ITEM_LIMIT_S, weight=1):
        """cases: zero-argument callable returning an iterator of cases.
        execute(case) -> (state key | iterable of state keys, transitions); raises Mismatch."""
        self.name, self.cases, self.execute, self.bound = name, cases, execute, bound
        self.setup, self.limit_s = setup, limit_s


def show(x, n=2000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def h64(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


def attempt(f, *a, **k):
    """('ok', value) or ('exc', exception). Hang and Mismatch pass through."""
    try:
        return ("ok", f(*a, **k))
    except (Hang, Mismatch, KeyboardInterrupt, MemoryError):
        raise
    except RecursionError as e:
        return ("exc", e)
    except Exception as e:
        return ("exc", e)


def from_sut(e):
    """Did exception e pass through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if os.path.realpath(fn).startswith(REPO_SRC + os.sep):
                return True
            tb = tb.tb_next
        e = e.__context__
    return False


def unusable(e):
    """The mismatch that an exception during a case stands for, or None if it is an error of the
    check itself. On code that behaves as it should no case raises, so an exception means that the
    code under test raised, or gave the check something that is not what it should be at all (such
    as None for a listing). Self-checks (AssertionError) and the machine's troubles are excepted."""
    if not from_sut(e) and isinstance(e, (AssertionError, OSError, MemoryError)):
        return None
    return dict(what="unexpected exception from the code under test" if from_sut(e) else "the code under test gave something unusable",
                expected="no exception", observed="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:], finding=None)


def _alarm(signum, frame):
    raise Hang()


_limit = [ITEM_LIMIT_S]


def heartbeat():
    """Re-arm the watchdog: it bounds one step of an exploration, not the whole."""
    signal.setitimer(signal.ITIMER_REAL, _limit[0])


def run_case(space, case):
    """-> (keys, transitions, mismatch dict or None)"""
    signal.signal(signal.SIGALRM, _alarm)
    _limit[0] = space.limit_s
    heartbeat()
    try:
        keys, trans = space.execute(case)
        return keys, trans, None
    except Mismatch as m:
        return (), 0, dict(what=m.what, expected=show(m.expected), observed=show(m.observed), finding=m.finding)
    except Hang:
        return (), 0, dict(what="did not terminate within %d s" % space.limit_s, expected="termination", observed="still running", finding=None)
    except Exception as e:
        mm = unusable(e)
        if mm is None:
            raise
        return (), 0, mm
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(space, k, n, conn, known):
    keys = set()
    evals = trans = 0
    bad = None
    findings = collections.OrderedDict()
    samples = []
    # Code that eats all memory fails with MemoryError instead of having the worker killed.
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        if space.setup:
            space.setup()
        for i, case in enumerate(space.cases()):
            if i % n != k:
                continue
            ks, t, mm = run_case(space, case)
            evals += 1
            trans += t
            if isinstance(ks, (list, tuple, set, frozenset)):
                for x in ks:
                    keys.add(h64(x))
            else:
                keys.add(h64(ks))
            if evals in (1, 7, 50, 400) and len(samples) < 3:
                samples.append(show(case, 600))
            if mm is not None:
                f = mm.get("finding")
                if f is not None and f in known:
                    findings.setdefault(f, (i, case, mm))
                    continue
                bad = (i, case, mm)
                break
        conn.send(("ok", keys, evals, trans, bad, findings, samples))
    except BaseException as e:
        mm = unusable(e) if isinstance(e, Exception) else None
        if mm is not None:  # while the cases were being made
            conn.send(("ok", keys, evals, trans, (1 << 60, None, mm), findings, samples))
            return
        conn.send(("err", "".join(traceback.format_exception(type(e), e, e.__traceback__))))
    finally:
        conn.close()
        os._exit(0)


class Result:
    def __init__(self):
        self.keys = set()
        self.evals = self.trans = 0
        self.bad = None
        self.findings = collections.OrderedDict()
        self.samples = []


def explore(space, known=(), nproc=NPROC):
    res = Result()
    ctx = multiprocessing.get_context("fork")
    procs = []
    for k in range(nproc):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(space, k, nproc, w, frozenset(known)))
        p.start()
        w.close()
        procs.append((p, r))
    for p, r in procs:
        try:
            msg = r.recv()
        except EOFError:
            msg = ("err", "worker died (killed or out of memory)")
        p.join()
        if msg[0] == "err":
            for q, _ in procs:
                if q.is_alive():
                    q.terminate()
            raise CheckError("exploring %s: %s" % (space.name, msg[1]))
        _, keys, evals, trans, bad, findings, samples = msg
        res.keys |= keys
        res.evals += evals
        res.trans += trans
        res.samples += samples
        if bad and (res.bad is None or bad[0] < res.bad[0]):
            res.bad = bad
        for f, v in findings.items():
            if f not in res.findings or v[0] < res.findings[f][0]:
                res.findings[f] = v
    return res


def load_known(pid):
    """id -> text for the open findings of this property."""
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return {}
    return {f["id"]: f for f in data.get("findings", []) if f["property"] == pid}


def main_check(pid, mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    random.seed(seed)
    t0 = time.time()
    known = load_known(pid)
    spaces = mod.spaces(tier)
    if argv and argv[0] == "--replay":
        return replay(pid, spaces, argv[1])
    only = argv[1] if argv and argv[0] == "--space" else None
    per, keys, samples = [], set(), []
    evals = trans = 0
    violation = None
    hit = collections.OrderedDict()
    for sp in spaces:
        if only and sp.name != only:
            continue
        t1 = time.time()
        r = explore(sp, known)
        evals += r.evals
        trans += r.trans
        before = len(keys)
        keys |= {h64((sp.name, k)) for k in r.keys}
        samples += [{"space": sp.name, "case": s} for s in r.samples[:2]]
        per.append(dict(space=sp.name, bound=sp.bound, executions=r.evals, transitions=r.trans,
                        distinct_states=len(keys) - before, wall_s=round(time.time() - t1, 2)))
        print("%s %-28s executions=%d transitions=%d distinct_states=%d %.1fs"
              % (pid, sp.name, r.evals, r.trans, len(keys) - before, time.time() - t1), flush=True)
        for f, v in r.findings.items():
            hit.setdefault(f, (sp.name,) + v)
        if r.evals == 0 and not only:
            raise CheckError("space %s is empty: vacuous exploration" % sp.name)
        if r.bad:
            violation = (sp,) + r.bad
            break
    for f, (spn, i, case, mm) in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[f]["what"]))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(states=len(keys), transitions=trans, traces_validated_against_impl=evals,
                            samples=samples[:12], spaces=per, rule=mod.RULE,
                            known_findings_seen=list(hit),
                            exhaustive=violation is None and only is None),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(EVIDENCE, exist_ok=True)
    if violation:
        sp, i, case, mm = violation
        path = os.path.join(EVIDENCE, "violation-%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, space=sp.name, index=i, case=case, tier=tier, **mm), f, indent=1, default=repr)
        ev["coverage"]["violation"] = dict(space=sp.name, case=show(case), **mm)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("space: %s\ncase: %s\nwhat: %s\nexpected: %s\nobserved: %s"
              % (sp.name, show(case), mm["what"], mm["expected"], mm["observed"]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    print("%s held: states=%d transitions=%d executions=%d %.1fs" % (pid, len(keys), trans, evals, time.time() - t0))
    return 0


def tup(x):
    """JSON lists back to tuples (cases are built of tuples)."""
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def replay(pid, spaces, path):
    rec = json.load(open(path))
    sp = next((s for s in spaces if s.name == rec["space"]), None)
    if sp is None:
        print("space %s is not part of this tier; set VERIF_TIER=%s" % (rec["space"], rec.get("tier")))
        return 2
    if sp.setup:
        sp.setup()
    obs = [run_case(sp, tup(rec["case"]))[2] for _ in range(2)]
    print(json.dumps(obs[0], indent=1))
    if obs[0]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
