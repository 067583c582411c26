"""Simulated process pools.

Installed before stcal is imported, this replaces multiprocessing's Pool and
concurrent.futures' ProcessPoolExecutor.  A simulated worker is a real, separate
interpreter state (forked from a pristine zygote that has imported stcal but run
nothing, which is what a spawned worker sees), but only one of them ever executes at a
time and the seeded scheduler decides which worker takes which task and in which order
they finish.  Arguments, results and exceptions cross a real pickling boundary.

Faults: an exception at an arbitrary line of stcal code in the worker, death of the
worker (before, during or after the task), failure to start workers, an interrupt
delivered to the caller while it waits, machine size (cpu count) and clock jumps.
"""
import concurrent.futures
import concurrent.futures.process
import io
import itertools
import linecache
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import socket
import struct
import sys
import time

from . import core
from .core import HarnessError, SimHang

# --------------------------------------------------------------------------- zygote


def _send(sock, obj):
    data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    sock.sendall(struct.pack("!Q", len(data)) + data)


def _recvn(sock, n):
    buf = io.BytesIO()
    while n:
        c = sock.recv(min(n, 1 << 20))
        if not c:
            raise EOFError
        buf.write(c)
        n -= len(c)
    return buf.getvalue()


def _recv(sock):
    (n,) = struct.unpack("!Q", _recvn(sock, 8))
    return pickle.loads(_recvn(sock, n))


class InjectedFault(Exception):
    """Raised inside a worker by the simulator."""


class LineFault:
    """Raise or die at the n-th executed line of stcal code."""

    def __init__(self, at, action, only=None):
        self.after_exc = None
        self.at, self.action, self.count, self.fired, self.only = at, action, 0, False, only
        self.sites = None

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(core.STCAL_SRC) and (self.only is None or self.only in fn):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "exception":
            self.after_exc = id(frame)
        elif event == "line" and not self.fired:
            self.count += 1
            # CPython leaks the exception, and the frames it holds, when a trace function raises at the very entry of a handler
            entry, self.after_exc = self.after_exc == id(frame), None
            # leaving a with block shows its first line again, before the manager is told: an exception there is no caller's experience
            if self.sites is not None:
                if not entry and not linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith("with "):
                    self.sites.setdefault((frame.f_code.co_filename, frame.f_lineno), self.count)
            elif self.count >= self.at and not entry and not linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith("with "):
                self.fired = True
                sys.settrace(None)
                self.action()
        return self.local


class CallFault:
    """Raise instead of the n-th call that stcal code makes to a function of another library."""

    def __init__(self, at, action):
        self.at, self.action, self.count, self.fired = at, action, 0, False
        self.sites = None

    def glob(self, frame, event, arg):
        if self.fired:
            return
        if event == "c_call":
            name, caller = getattr(arg, "__name__", ""), frame
        elif event == "call":
            name, caller = frame.f_code.co_name, frame.f_back
            if caller is None or frame.f_code.co_filename.startswith(core.STCAL_SRC):
                return
        else:
            return
        if name.startswith("_") or not caller.f_code.co_filename.startswith(core.STCAL_SRC):
            return
        self.count += 1
        if self.sites is not None:
            self.sites.setdefault((caller.f_code.co_filename, caller.f_lineno, name), self.count)
        elif self.count >= self.at:
            self.fired = True
            sys.setprofile(None)
            self.action()


def scout(make, install, func, args, kwargs):
    """Run the task in a child process and list the first visit of every place where a fault could strike."""
    r, w = os.pipe()
    if os.fork() == 0:
        try:
            os.close(r)
            tracer = make()
            tracer.sites = {}
            install(tracer.glob)
            try:
                func(*args, **kwargs)
            except BaseException:  # noqa: BLE001
                pass
            finally:
                sys.settrace(None)
                sys.setprofile(None)
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(list(tracer.sites.values())))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    return pickle.loads(data) if data else []


EXCEPTIONS = {
    "MemoryError": lambda: MemoryError("injected"), "ValueError": lambda: ValueError("injected"),
    "OSError": lambda: OSError(12, "Cannot allocate memory (injected)"), "RuntimeError": lambda: RuntimeError("injected"),
    "FloatingPointError": lambda: FloatingPointError("injected"), "InjectedFault": lambda: InjectedFault("injected"),
    "IndexError": lambda: IndexError("injected"), "KeyError": lambda: KeyError("injected"), "TypeError": lambda: TypeError("injected"),
    "EOFError": lambda: EOFError("injected"), "TimeoutError": lambda: TimeoutError("injected"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "injected"), "LinAlgError": lambda: __import__("numpy").linalg.LinAlgError("injected"),
    "AttributeError": lambda: AttributeError("injected"), "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "SystemExit": lambda: SystemExit(3), "RecursionError": lambda: RecursionError("injected"),
}


def make_exception(kind):
    return EXCEPTIONS[kind]()


def _worker(sock):
    """The loop of one simulated worker process."""
    while True:
        try:
            msg = _recv(sock)
        except EOFError:
            os._exit(0)
        func, args, kwargs, fault = pickle.loads(msg["task"]) + (msg["fault"],)
        kind = fault and fault["kind"]
        reply = {"lines": 0, "fired": None}
        if kind == "die_before":
            os._exit(9)
        tracer = None
        if kind in ("raise_line", "die_line", "raise_call"):
            if kind != "die_line":
                exc = make_exception(fault["exc"])

                def action(exc=exc):
                    raise exc
            else:
                def action():
                    os._exit(9)
            cls, install = (CallFault, sys.setprofile) if kind == "raise_call" else (LineFault, sys.settrace)
            at = fault.get("at", 1)
            if fault.get("site") is not None:  # one of the places that the task visits, each with the same chance
                visits = scout(lambda: cls(1, action), install, func, args, kwargs)
                at = visits[int(fault["site"] * len(visits))] if visits else 1
            tracer = cls(at, action)
        try:
            if tracer:
                install(tracer.glob)
            try:
                value = func(*args, **kwargs)
            finally:
                sys.settrace(None)
                sys.setprofile(None)
            reply["result"] = pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
            reply["ok"] = True
        except BaseException as e:  # what a pool worker sends back to the caller
            reply["ok"] = False
            try:
                reply["result"] = pickle.dumps(e)
                pickle.loads(reply["result"])
            except Exception:
                reply["result"] = pickle.dumps(RuntimeError(f"unpicklable exception {e!r}"))
        if tracer:
            reply["lines"] = tracer.count
            reply["fired"] = tracer.fired
        if kind == "die_after":
            os._exit(9)
        _send(sock, reply)


class Zygote:
    """Forks pristine workers on request."""

    def __init__(self):
        self.sock, child = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.sock.close()
                self._serve(child)
            finally:
                os._exit(0)
        child.close()

    @staticmethod
    def _serve(sock):
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            msg, fds, _, _ = socket.recv_fds(sock, 1, 1)
            if not msg:
                os._exit(0)
            s = socket.socket(fileno=fds[0])
            if os.fork() == 0:
                sock.close()
                try:
                    _worker(s)
                finally:
                    os._exit(1)
            s.close()

    def spawn(self):
        a, b = socket.socketpair()
        socket.send_fds(self.sock, [b"w"], [b.fileno()])
        b.close()
        return a


ZYGOTE = None


def start_zygote():
    """Call once, after stcal is imported and before any simulated run."""
    global ZYGOTE
    if ZYGOTE is None:
        ZYGOTE = Zygote()


def fresh_call(func, *args, **kwargs):
    """Run func in a brand-new pristine interpreter; returns (ok, value-or-exception)."""
    s = ZYGOTE.spawn()
    try:
        _send(s, {"task": pickle.dumps((func, args, kwargs)), "fault": None})
        reply = _recv(s)
    finally:
        s.close()
    return reply["ok"], pickle.loads(reply["result"])


# --------------------------------------------------------------------------- simulator


class Sim:
    """State of the pool simulation during one run."""

    def __init__(self, rec, choices, faults=(), cpu=8, clock=None):
        self.rec = rec
        self.choices = choices
        self.cpu = cpu
        self.faults = [dict(f) for f in faults]
        self.pools = []
        self.steps = 0
        self.task_no = 0
        self.clock = clock
        self.tasks_by_worker = []

    def fault_for(self, kind_prefixes, **match):
        for f in self.faults:
            if f.get("used") or not f["kind"].startswith(kind_prefixes):
                continue
            if all(f.get(k) == v for k, v in match.items()):
                return f
        return None

    def step(self):
        self.steps += 1
        self.rec.steps += 1
        f = self.fault_for(("interrupt",), step=self.steps)
        if f:
            f["used"] = True
            self.rec.fault("interrupt_while_waiting")
            self.rec.event("fault interrupt at step", self.steps)
            raise KeyboardInterrupt("injected")


CURRENT = None


def _cur():
    if CURRENT is None:
        raise HarnessError("a process pool was used outside a simulated run")
    return CURRENT


class _Worker:
    def __init__(self, pool, wid):
        self.pool, self.wid, self.sock, self.busy, self.alive, self.ntasks = pool, wid, None, None, True, 0

    def start(self):
        if self.sock is None:
            self.sock = ZYGOTE.spawn()
            init = self.pool.initializer
            if init is not None:
                self.call(pickle.dumps((init, tuple(self.pool.initargs), {})), None)

    def call(self, task, fault):
        self.start()
        _send(self.sock, {"task": task, "fault": fault})
        try:
            return _recv(self.sock)
        except (EOFError, ConnectionResetError):
            self.kill()
            return None

    def kill(self):
        self.alive = False
        if self.sock is not None:
            self.sock.close()
            self.sock = None


class _Task:
    def __init__(self, func, argtuples, on_done):
        self.no = None
        self.func, self.argtuples, self.on_done = func, argtuples, on_done
        self.cancelled = False


class _PoolBase:
    """Scheduling shared by both pool flavours."""

    def _setup(self, nproc, initializer, initargs, method, kind):
        sim = _cur()
        self.sim = sim
        self.kind = kind
        self.initializer, self.initargs = initializer, initargs
        self.nproc = nproc
        self.state = "run"
        self.broken = False
        self.queue = []
        self.workers = []
        f = sim.fault_for(("pool_start",))
        sim.rec.event(kind, "created nproc", nproc)
        if f:
            f["used"] = True
            sim.rec.fault("pool_start_failure")
            self.state = "terminated"
            raise OSError(11, "Resource temporarily unavailable (injected)")
        sim.pools.append(self)
        self.workers = [_Worker(self, i) for i in range(nproc)]

    def _enqueue(self, task):
        task.no = self.sim.task_no
        self.sim.task_no += 1
        self.queue.append(task)

    def _idle(self):
        return [w for w in self.workers if w.alive and w.busy is None]

    def _busy(self):
        return [w for w in self.workers if w.alive and w.busy is not None]

    def _advance(self):
        """One scheduling step; False when nothing can happen."""
        if self.state == "terminated":
            return False
        self.queue = [t for t in self.queue if not t.cancelled]
        moves = []
        if self.queue:
            moves += [("take", w) for w in self._idle()]
        moves += [("finish", w) for w in self._busy()]
        if not moves:
            return False
        self.sim.step()
        what, w = moves[self.sim.choices.next(len(moves))]
        if what == "take":
            w.busy = self.queue.pop(0)
            w.busy_started = True
            self.sim.tasks_by_worker.append((w.busy.no, w.wid))
            self.sim.rec.event("worker", w.wid, "takes task", w.busy.no)
        else:
            self._finish(w)
        return True

    def _finish(self, w):
        task, sim = w.busy, self.sim
        fault = sim.fault_for(("raise", "die"), task=task.no)
        if fault:
            fault["used"] = True
        try:
            payloads = [pickle.dumps((task.func, a, k), protocol=pickle.HIGHEST_PROTOCOL)
                        for a, k in task.argtuples]
        except Exception as e:
            w.busy = None
            task.on_done([(False, e)])
            return
        out = []
        for p in payloads:
            reply = w.call(p, fault)
            fault_kind = fault and fault["kind"]
            if reply is None:
                w.busy = None
                if not fault_kind or not fault_kind.startswith("die"):
                    # the worker crashed on its own
                    sim.rec.event("worker", w.wid, "crashed by itself on task", task.no)
                    sim.rec.probe("worker_crashed_by_itself")
                else:
                    sim.rec.fault("worker_" + fault_kind)
                    sim.rec.event("fault worker", w.wid, fault_kind, "task", task.no)
                self._worker_lost(w, task)
                return
            if fault_kind in ("raise_line", "raise_call"):
                if reply["fired"]:
                    sim.rec.fault(("worker_raise:" if fault_kind == "raise_line" else "worker_library_call_raises:") + fault["exc"])
                    sim.rec.event("fault worker", w.wid, fault["exc"], fault_kind[6:], fault["at"], "task", task.no)
                    sim.fired_raise = True
                else:
                    sim.rec.event("fault not reached,", fault_kind[6:], reply["lines"])
            elif fault_kind == "die_line":
                sim.rec.event("fault not reached, lines", reply["lines"])
            out.append((reply["ok"], pickle.loads(reply["result"])))
            fault = None
            if not out[-1][0]:
                break
        w.busy = None
        w.ntasks += 1
        sim.rec.event("worker", w.wid, "finishes task", task.no, "ok" if out[-1][0] else exc_name(out[-1][1]))
        task.on_done(out)

    def _drive(self, done, what):
        while not done():
            if not self._advance():
                raise SimHang(f"{self.kind}: waiting for {what} that can never arrive")

    def _release(self):
        self.state = "terminated"
        for w in self.workers:
            w.kill()
        self.queue = []


def exc_name(e):
    return type(e).__name__


class _Async:
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.n, self.single = pool, n, single
        self.results, self.left = {}, n
        self.error = None
        self.callback, self.error_callback = callback, error_callback
        self.order = []

    def set(self, base, out):
        for k, (ok, v) in enumerate(out):
            if ok:
                self.results[base + k] = v
                self.order.append((True, v))
                self.left -= 1
            else:
                if self.error is None:
                    self.error = v
                self.order.append((False, v))
                self.left = 0
        if self.left == 0 and self.callback and self.error is None:
            self.callback(self._value())

    def ready(self):
        return self.left <= 0

    def successful(self):
        return self.ready() and self.error is None

    def _value(self):
        return self.results[0] if self.single else [self.results[i] for i in range(self.n)]

    def wait(self, timeout=None):
        self.pool._drive_timeout(self.ready, timeout, "a result")

    def get(self, timeout=None):
        if not self.pool._drive_timeout(self.ready, timeout, "a result"):
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        return self._value()


class SimPool(_PoolBase):
    """multiprocessing.pool.Pool"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = _cur().cpu
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._setup(processes, initializer, initargs, getattr(context, "_name", None), "Pool")

    def _check(self):
        if self.state != "run":
            raise ValueError("Pool not running")

    def _worker_lost(self, w, task):
        # CPython's Pool replaces the process but the task is lost
        self.workers[w.wid] = _Worker(self, w.wid)

    def _drive_timeout(self, done, timeout, what):
        if timeout is None:
            self._drive(done, what)
            return True
        while not done():
            if not self._advance():
                self.sim.rec.simtime += timeout
                return False
        return True

    def _submit(self, func, items, chunksize=None, single=False, callback=None, error_callback=None):
        self._check()
        items = list(items)
        res = _Async(self, len(items), single, callback, error_callback)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.nproc * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        for b in range(0, len(items), chunksize):
            self._enqueue(_Task(func, items[b:b + chunksize], lambda out, b=b: res.set(b, out)))
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), dict(kwds or {}))], 1, True, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [((x,), {}) for x in iterable], chunksize, False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(x), {}) for x in iterable], chunksize, False, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        items = [self.apply_async(func, (x,)) for x in iterable]
        return (r.get() for r in items)

    def imap_unordered(self, func, iterable, chunksize=1):
        items = list(iterable)
        res = self._submit(func, [((x,), {}) for x in items], 1)

        def gen():
            k = 0
            while k < len(items):
                self._drive(lambda: len(res.order) > k, "an unordered result")
                ok, v = res.order[k]
                k += 1
                if not ok:
                    raise v
                yield v
        return gen()

    def close(self):
        if self.state == "run":
            self.state = "closed"

    def terminate(self):
        self._release()

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        while self._advance():
            pass
        self._release()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class SimFuture(concurrent.futures.Future):
    def __init__(self, pool):
        super().__init__()
        self.sim_pool = pool

    def _wait(self, timeout):
        if not self.done():
            while not self.done():
                if not self.sim_pool._advance():
                    if timeout is None:
                        raise SimHang("waiting for a future that can never complete")
                    self.sim_pool.sim.rec.simtime += timeout
                    raise concurrent.futures.TimeoutError

    def result(self, timeout=None):
        self._wait(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._wait(timeout)
        return super().exception(0)


class SimProcessPoolExecutor(_PoolBase, concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                 max_tasks_per_child=None):
        if max_workers is None:
            max_workers = _cur().cpu
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._setup(max_workers, initializer, initargs, getattr(mp_context, "_name", None), "Executor")
        self.futures = []

    def _worker_lost(self, w, task):
        self.broken = True
        e = concurrent.futures.process.BrokenProcessPool(
            "A process in the process pool was terminated abruptly while the future was running or pending.")
        for f in self.futures:
            if not f.done():
                f.set_exception(e)
        self.queue = []
        for x in self.workers:
            x.kill()

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise concurrent.futures.process.BrokenProcessPool("the process pool is not usable anymore")
        if self.state != "run":
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture(self)
        self.futures.append(fut)

        def done(out):
            if not fut.done():
                ok, v = out[0]
                if ok:
                    fut.set_result(v)
                else:
                    fut.set_exception(v)
        task = _Task(fn, [(args, kwargs)], done)
        self._enqueue(task)
        fut.sim_task = task
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]

        def gen():
            try:
                for f in futs:
                    yield f.result(timeout)
            finally:
                for f in futs:
                    f.cancel()
                    f.sim_task.cancelled = f.cancelled()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self.state == "terminated":
            return
        if cancel_futures:
            for f in self.futures:
                if f.cancel():
                    f.sim_task.cancelled = True
        if not wait and (self.queue or self._busy()):
            self.state = "detached"
            return
        self.state = "closed"
        try:
            while self._advance():
                pass
        finally:  # an interrupted shutdown goes on in the background of the real executor
            self._release()


_real_wait = concurrent.futures.wait
_real_as_completed = concurrent.futures.as_completed


def sim_wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)

    def enough():
        done = [f for f in fs if f.done()]
        if len(done) == len(fs):
            return True
        if return_when == concurrent.futures.FIRST_COMPLETED:
            return bool(done)
        if return_when == concurrent.futures.FIRST_EXCEPTION:
            return any(concurrent.futures.Future.exception(f, 0) for f in done)
        return False
    while not enough():
        if not any(f.sim_pool._advance() for f in fs if not f.done()):
            if timeout is None:
                raise SimHang("wait() can never return")
            break
    return _real_wait(fs, 0, return_when)


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        ready = [f for f in left if f.done()]
        if not ready:
            if not any(f.sim_pool._advance() for f in left):
                raise SimHang("as_completed() can never yield")
            continue
        left.remove(ready[0])
        yield ready[0]


_real_time = {}


class SimClock:
    """Wall clock under the simulator: advances by a plan-given step per reading, may jump."""

    def __init__(self, start=1.7e9, steps=()):
        self.now = start
        self.steps = list(steps)
        self.reads = 0

    def read(self):
        if self.steps:
            self.now += self.steps[self.reads % len(self.steps)]
        self.reads += 1
        return self.now


_installed = False


def install():
    """Replace the process-pool, cpu-count and wall-clock seams (before stcal is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    multiprocessing.pool.Pool = SimPool
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.wait = sim_wait
    concurrent.futures.as_completed = sim_as_completed
    real_cpu = os.cpu_count
    os.cpu_count = lambda: CURRENT.cpu if CURRENT is not None else real_cpu()
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    real_aff = os.sched_getaffinity
    os.sched_getaffinity = lambda pid: set(range(CURRENT.cpu)) if CURRENT is not None and pid == 0 else real_aff(pid)
    _real_time["time"] = time.time

    def sim_time():
        if CURRENT is not None and CURRENT.clock is not None:
            return CURRENT.clock.read()
        return _real_time["time"]()
    time.time = sim_time

    def no_process(self):
        raise HarnessError("multiprocessing.Process is not simulated")
    multiprocessing.process.BaseProcess.start = no_process


class running:
    """with running(Sim(...)): the simulated machine stcal sees."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global CURRENT
        CURRENT = self.sim
        return self.sim

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        for p in self.sim.pools:
            for w in p.workers:
                w.kill()


def leaked_pools(sim):
    """Pools that are open, or were let go while their workers still had something to do."""
    return [p for p in sim.pools if p.state == "run" or (p.state != "terminated" and (p.queue or p._busy()))]
