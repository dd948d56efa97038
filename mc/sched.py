"""Controlled scheduler: exactly one thread runs; it may be made to stop at any line of the code under test.

A schedule is (order, preemptions): `order` ranks the threads (who starts, who goes on when one ends) and
`preemptions` is a list of (step, thread): when the global step counter reaches `step`, the baton goes to
`thread`. run() gives back the outcome of every thread and the trace of (step, running thread).
"""
import os
import sys
import threading
import time

from .sut import REPO_SRC

STALL_S = 0.05


class Baton:
    def __init__(self, n, order, preemptions, opcodes=False, extra=()):
        self.n, self.order, self.pre = n, order, dict(preemptions)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.owner = order[0]
        self.step = 0
        self.trace = []
        self.finished = [False] * n
        self.done = threading.Event()
        self.blocked = 0
        self.lock = threading.Lock()
        self.opcodes = opcodes
        self.extra = extra
        self.tid = {}

    # called by the running thread at every scheduling point
    def point(self, me):
        if self.owner != me:
            self.sem[me].acquire()
        s = self.step
        self.step = s + 1
        self.trace.append(me)
        to = self.pre.get(s)
        if to is not None and to != me and not self.finished[to]:
            self.give(to)
            self.sem[me].acquire()

    def give(self, to):
        self.owner = to
        self.sem[to].release()

    def end(self, me):
        with self.lock:
            self.finished[me] = True
            if all(self.finished):
                self.done.set()
            elif self.owner == me:
                self.give(next(t for t in self.order if not self.finished[t]))

    def body(self, me, f, out):
        self.sem[me].acquire()
        opc = self.opcodes

        def local(frame, event, arg):
            if event == ("opcode" if opc else "line"):
                self.point(me)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(REPO_SRC) or fn in self.extra:
                if opc:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        sys.settrace(glob)
        try:
            out[me] = f()
        finally:
            sys.settrace(None)
            self.end(me)

    def run(self, fs):
        out = [None] * self.n
        th = [threading.Thread(target=self.body, args=(i, f, out), daemon=True) for i, f in enumerate(fs)]
        for i, t in enumerate(th):
            t.start()
        self.give(self.owner)
        last = -1
        stalls = 0
        while not self.done.wait(STALL_S):
            if self.step == last:
                # the owner waits for something another thread holds: let another one go on
                with self.lock:
                    if not all(self.finished):
                        self.blocked += 1
                        others = [t for t in self.order if not self.finished[t] and t != self.owner]
                        if others:
                            self.give(others[stalls % len(others)])
                        stalls += 1
            last = self.step
        for t in th:
            t.join()
        return out


def run(fs, order, preemptions, opcodes=False, extra=()):
    b = Baton(len(fs), order, preemptions, opcodes, extra)
    out = b.run(fs)
    return out, b.trace, b.blocked
