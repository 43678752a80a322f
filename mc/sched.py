"""A controlled scheduler for real threads: one thread runs at a time, and hands over exactly where a schedule says.
The places where a thread can be interrupted are the line (or bytecode) events of the package under test."""
import os
import sys
import threading

PKG = os.path.join(os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "pytorch_kinematics")), "")
_mine = {}


def mine(code):
    r = _mine.get(code)
    if r is None:
        r = _mine[code] = os.path.realpath(code.co_filename).startswith(PKG)
    return r


class Run:
    """runs functions in threads of their own under a schedule: [(thread, steps), ...]; a thread whose turn has no limit (None)
    runs to its end.  What remains at the end of the schedule runs thread by thread."""

    def __init__(self, fs, plan, fine=False, patience=1.5):
        self.fs, self.plan, self.fine = fs, list(plan), fine
        self.sem = [threading.Semaphore(0) for _ in fs]
        self.steps = [0] * len(fs)
        self.out = [None] * len(fs)
        self.alive = [True] * len(fs)
        self.done = threading.Event()
        self.free = False
        self.left = None
        self.cur = None
        self.switches = 0
        self.patience = patience

    def go(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.fs))]
        for t in ts:
            t.start()
        self._next()
        seen = -1
        while not self.done.wait(self.patience):
            if sum(self.steps) == seen:
                # the running thread waits for something a stopped one holds: let all of them go
                self.free = True
                for s in self.sem:
                    s.release()
                self.done.wait(20)
                break
            seen = sum(self.steps)
        for t in ts:
            t.join(20)
        self.stuck = any(t.is_alive() for t in ts)
        return self

    def _next(self):
        """hands the turn to the next thread of the schedule that can run"""
        while self.plan:
            i, n = self.plan.pop(0)
            if self.alive[i] and (n is None or n > 0):
                self.cur, self.left = i, n
                self.sem[i].release()
                return
        for i, a in enumerate(self.alive):
            if a:
                self.cur, self.left = i, None
                self.sem[i].release()
                return
        self.done.set()

    def _step(self, i):
        if self.free:
            return
        self.steps[i] += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.switches += 1
                self._next()
                self.sem[i].acquire()
                if self.cur == i and self.left is not None:
                    self.left -= 1  # the event it was stopped at happens now

    def _thread(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self._step(i)
            return local

        def glob(frame, event, arg):
            if not mine(frame.f_code):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local

        self.sem[i].acquire()
        sys.settrace(glob)
        try:
            self.out[i] = (True, self.fs[i]())
        except BaseException as e:  # noqa
            self.out[i] = (False, e)
        finally:
            sys.settrace(None)
        self.alive[i] = False
        if self.free:
            if not any(self.alive):
                self.done.set()
        else:
            self._next()


def lengths(fs, fine=False):
    """number of places at which each function can be interrupted, and what it gives alone"""
    n, out = [], []
    for f in fs:
        r = Run([f], [(0, None)], fine).go()
        n.append(r.steps[0])
        out.append(r.out[0])
    return n, out
