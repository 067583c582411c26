"""A seeded scheduler for threads: one thread runs at a time, and control passes only at traced lines (or opcodes) of stcal code.

The plan's switches are (step, thread) pairs: when the step-th scheduling point of the run is reached, the thread goes on if it is alive.  When a
thread ends, the next one in order goes on.  One plan is one interleaving.
"""
import linecache
import sys
import threading

from sim import core


class Hang(Exception):
    pass


class Scheduler:
    def __init__(self, n, switches, opcodes=False, every=0, limit=100.0):
        self.n, self.opcodes, self.every, self.limit = n, opcodes, every, limit
        self.switches = {}
        for step, to in switches:
            self.switches.setdefault(step, to)
        self.step = 0
        self.current = None
        self.alive = [True] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.trail = []            # (thread, steps it ran)
        self.began = 0
        self.places = []
        self.faults = [None] * n   # thread -> [step of that thread, action]
        self.mine = [0] * n
        self.fired = [False] * n
        self.handler = [None] * n

    def start(self, bodies):
        self.threads = [threading.Thread(target=self._body, args=(k, b), daemon=True) for k, b in enumerate(bodies)]
        for t in self.threads:
            t.start()
        self._pass(0)
        if not self.done.acquire(timeout=self.limit):
            raise Hang(f"threads still running: {[k for k in range(self.n) if self.alive[k]]}")
        for t in self.threads:
            t.join(self.limit)

    def _body(self, k, body):
        self.go[k].acquire()
        sys.settrace(self._glob)
        try:
            body()
        finally:
            sys.settrace(None)
            self.alive[k] = False
            rest = [(k + i) % self.n for i in range(1, self.n) if self.alive[(k + i) % self.n]]
            self._mark(k)
            if rest:
                self._pass(rest[0])
            else:
                self.done.release()

    def _mark(self, k):
        self.trail.append((k, self.step - self.began))
        self.began = self.step

    def _pass(self, k):
        self.current = k
        self.go[k].release()

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.STCAL_SRC):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "exception":
            self.handler[self.current] = id(frame)
        elif event in ("line", "opcode"):
            k = self.current
            # an exception raised by a trace function at an opcode, at the entry of a handler or when leaving a with block is no caller's experience (CPython may even crash)
            entry = False
            if event == "line":
                entry, self.handler[k] = self.handler[k] == id(frame), None
            self._point(frame, event == "line" and not entry)
        return self._local

    def _point(self, frame, may_raise):
        k = self.current
        self.step += 1
        self.mine[k] += 1
        f = self.faults[k]
        to = self.switches.get(self.step)
        if to is None and self.every and self.step % self.every == 0:
            to = (k + 1) % self.n
        if to is not None and to != k and self.alive[to]:
            self._mark(k)
            self.places.append((k, frame.f_code.co_name, frame.f_lineno))
            self._pass(to)
            self.go[k].acquire()
        if f and may_raise and not self.fired[k] and self.mine[k] >= f[0] and not linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith("with "):
            self.fired[k] = True
            f[1]()
