"""Execution of programs of several threads under a schedule, line by line."""
import os
import sys
import threading
import time

from . import impl

SRC = os.path.join(os.path.realpath(impl.REPO), 'src', 'sunwhere') + os.sep


class Turns:
    """Only the thread whose turn it is executes lines of the library. The turn
    passes as the schedule says; it also passes if whoever has it is blocked."""

    def __init__(self, schedule, n):
        self.sched, self.n = schedule or [(0, 1)], n
        self.cond = threading.Condition()
        self.done = set()
        self.i = -1
        self.progress = 0
        self.switches = 0
        self.turn, self.left = 0, 1
        with self.cond:
            self.next()

    def next(self):
        old = self.turn
        for _ in range(len(self.sched) + 1):
            self.i += 1
            th, q = self.sched[self.i % len(self.sched)]
            th %= self.n
            if th not in self.done:
                self.turn, self.left = th, q
                break
        else:
            alive = [k for k in range(self.n) if k not in self.done]
            if alive:
                self.turn, self.left = alive[0], 50
        self.switches += self.turn != old
        self.cond.notify_all()

    def line(self, th):
        with self.cond:
            if self.turn == th:
                self.left -= 1
                self.progress += 1
                if self.left <= 0:
                    self.next()
            seen = self.progress
            while self.turn != th:
                if not self.cond.wait(0.4):
                    if self.progress == seen and self.turn != th:     # the one whose turn it is does nothing
                        self.turn, self.left = th, 5
                        self.cond.notify_all()
                    seen = self.progress
            self.progress += 1

    def finish(self, th):
        with self.cond:
            self.done.add(th)
            if self.turn == th:
                self.next()


def tracer(turns, th, extra=()):
    def local(frame, event, arg):
        if event == 'line':
            turns.line(th)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC) or frame.f_code in extra else None
    return glob


def run(progs, schedule=None, timeout=60., extra=()):
    """progs: one callable per thread; extra: code that counts as the library's. -> number of switches, whether all ended"""
    turns = Turns(schedule, len(progs)) if schedule is not None else None
    gate = threading.Barrier(len(progs))

    def body(k):
        gate.wait()
        if turns is not None:
            sys.settrace(tracer(turns, k, extra))
        try:
            progs[k]()
        finally:
            sys.settrace(None)
            if turns is not None:
                turns.finish(k)
    ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(progs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5 if turns is None else 0.005)
    for t in ths:
        t.start()
    end = time.time() + timeout
    for t in ths:
        t.join(max(0.1, end - time.time()))
    sys.setswitchinterval(old)
    return (turns.switches if turns else 0), not any(t.is_alive() for t in ths)
