"""
A scheduler for the threads of a case: only one of them runs at a time, and at every line of the package it may have to
hand over to another one. Who runs is drawn from the generator of the case, so a schedule can be replayed.
"""
import os
import sys
import threading
import time

from . import core


class Scheduler:
    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.cond = threading.Condition()
        self.alive, self.turn = [], None
        self.switches = []  # (from, function, line in the function, to)
        self.steps = 0
        self.stuck = 0
        self.where = os.path.join(os.path.realpath(core.REPO), "cameratransform")
        self.ours = {}

    def _wait(self, me):
        """ wait until it is my turn; if nobody moves (the one whose turn it is waits for a lock of mine) take it """
        last, since = self.steps, time.monotonic()
        while self.turn != me:
            self.cond.wait(0.05)
            if self.steps != last:
                last, since = self.steps, time.monotonic()
            elif time.monotonic() - since > 5 and self.turn != me:
                self.stuck += 1
                self.turn = me

    def _line(self, me, frame):
        with self.cond:
            self.steps += 1
            self._wait(me)
            if len(self.alive) > 1 and self.rng.random() < self.p:
                others = [t for t in self.alive if t != me]
                self.turn = others[int(self.rng.integers(len(others)))]
                code = frame.f_code
                self.switches.append((me, code.co_qualname, frame.f_lineno - code.co_firstlineno, self.turn))
                self.cond.notify_all()
                self._wait(me)

    def run(self, jobs):
        """ run the functions, each in its own thread; returns a list of (result, error) """
        out = [None] * len(jobs)
        self.alive = list(range(len(jobs)))
        self.turn = int(self.rng.integers(len(jobs)))

        def body(me):
            def local(frame, event, arg):
                if event == "line":
                    self._line(me, frame)
                return local

            def begin(frame, event, arg):
                code = frame.f_code
                if code not in self.ours:
                    self.ours[code] = os.path.realpath(code.co_filename).startswith(self.where)
                return local if self.ours[code] else None

            with self.cond:
                self._wait(me)
            sys.settrace(begin)
            try:
                out[me] = (jobs[me](), None)
            except BaseException as err:
                out[me] = (None, err)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(me)
                    self.steps += 1
                    if self.alive:
                        self.turn = self.alive[int(self.rng.integers(len(self.alive)))]
                    self.cond.notify_all()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return out
