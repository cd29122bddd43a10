"""Threads under the simulator's control: every actor is a real thread, but
exactly one runs at any time, and control moves only where the scenario says:
at a given executed library line of a given operation, or between operations.

Parking happens in trace callbacks inside library lines only, so no lock of
the interpreter or of a C library is held by a parked thread unless the
library line itself was reached through it."""
import sys
import threading

from .trace import Lines

STUCK = 60      # seconds without progress before the run is given up


class Deadlock(Exception):
    pass


class Sched:
    """actors: list of functions(sched, index); every actor calls op() around
    each of its operations."""

    def __init__(self, count, quantum=None):
        self.count = count
        self.gates = [threading.Semaphore(0) for _ in range(count)]
        self.live = list(range(count))
        self.done = threading.Event()
        self.errors = []
        self.switches = 0
        self.quantum = quantum
        self.steps = 0
        self.trail = []

    def run(self, bodies):
        threads = []
        for i, body in enumerate(bodies):
            t = threading.Thread(target=self.main, args=(i, body))
            t.daemon = True
            threads.append(t)
            t.start()
        self.gates[0].release()
        if not self.done.wait(STUCK * 3):
            raise Deadlock('threads made no progress')
        for t in threads:
            t.join(STUCK)
        if self.errors:
            raise self.errors[0]

    def main(self, i, body):
        self.gates[i].acquire()
        try:
            body(i)
        except BaseException as exp:
            self.errors.append(exp)
        finally:
            sys.settrace(None)
            at = self.live.index(i)
            self.live.remove(i)
            if self.live:
                self.gates[self.live[at % len(self.live)]].release()
            else:
                self.done.set()

    def switch(self, i, hop):
        """Hands control to the hop-th next live actor and waits."""
        at = self.live.index(i)
        to = self.live[(at + hop) % len(self.live)]
        if to == i:
            return
        self.switches += 1
        self.trail.append((i, to))
        self.gates[to].release()
        self.gates[i].acquire()

    def op(self, i, fn, points):
        """Runs fn, giving control away at the given lines: a list of
        (line, hop), line 0 before the operation."""
        table = {}
        for line, hop in points:
            table.setdefault(line, hop)
        if 0 in table:
            self.switch(i, table[0])

        def action(n, frame):
            self.steps += 1
            if n in table:
                self.switch(i, table[n])
            elif self.quantum and self.steps % self.quantum == 0:
                self.switch(i, 1)
        with Lines(action):
            return fn()
