"""Simulated object store behind pyarrow, and a virtual clock for calls that wait for it with a time limit.

The store serves partition files from memory through pyarrow's own Python file-system interface.  A fault belongs to the n-th operation of a
kind on a file.  Stalls and delays are virtual: the thread that meets one is parked until the time it waits for has come, and virtual time
only moves when the thread that makes the call waits for it; a thread given up by its caller stays parked until the plan releases it.
"""
import io
import threading
import time

import numpy as np

BASE = 1.0e6


class Clock:
    """Virtual time of the calling thread; replaces the waiting primitives of threading and time while active."""

    def __init__(self, rec, real_limit=20.0):
        self.rec = rec
        self.now = 0.0
        self.main = threading.get_ident()
        self.lock = threading.Condition(threading.Lock())
        self.parked = []          # live pauses: [wake time or None, state]
        self.given_up = []
        self.waiting = False      # the caller waits
        self.deadline = None
        self.expired = False
        self.active = False
        self.starting = False
        self.hang = None
        self.open = False         # pauses pass at once (clean-up, or a release under way)
        self.limit = real_limit
        self.threads = []

    def __enter__(self):
        self.saved = (threading.Condition.wait, threading.Thread.join, threading.Thread.start, time.sleep, time.monotonic, time.time, threading._time)
        c, (wait, join, start, sleep, mono, wall, _) = self, self.saved
        self._wait, self._mono = wait, mono

        def cwait(cond, timeout=None):
            if cond is c.lock or not c.mine():
                return wait(cond, timeout)
            waiter = threading._allocate_lock()
            waiter.acquire()
            cond._waiters.append(waiter)
            state = cond._release_save()
            got = False
            try:
                got = c.poll(timeout, lambda t: waiter.acquire(True, t) if t else waiter.acquire(False))
            finally:
                cond._acquire_restore(state)
                if not got:
                    got = waiter.acquire(False)
                if not got:
                    cond._waiters.remove(waiter)
            return got

        def tjoin(thread, timeout=None):
            if not c.mine():
                return join(thread, timeout)
            c.poll(timeout, lambda t: (join(thread, t), not thread.is_alive())[1])

        def tstart(thread):
            if threading.get_ident() != c.main:
                return start(thread)
            c.starting = True
            try:
                c.threads.append(thread)
                return start(thread)
            finally:
                c.starting = False

        def tsleep(seconds):
            if not c.mine():
                return sleep(seconds)
            c.poll(seconds, lambda t: (sleep(min(t, seconds)), not c.parked)[1])

        def now():
            return BASE + c.now if c.mine() else mono()

        def walltime():
            return BASE + c.now if c.mine() else wall()

        threading.Condition.wait, threading.Thread.join, threading.Thread.start = cwait, tjoin, tstart
        time.sleep, time.monotonic, time.time, threading._time = tsleep, now, walltime, now
        import queue
        import concurrent.futures._base as fb
        self.q = (queue, queue.time)
        queue.time = now
        self.fb = fb
        return self

    def __exit__(self, *exc):
        (threading.Condition.wait, threading.Thread.join, threading.Thread.start, time.sleep, time.monotonic, time.time, threading._time) = self.saved
        self.q[0].time = self.q[1]

    def mine(self):
        return self.active and not self.starting and threading.get_ident() == self.main

    # --- the calling thread

    def begin(self):
        self.active, self.hang, self.t0 = True, None, self.now

    def end(self):
        """The call is over: what is still parked has been given up."""
        self.active = False
        with self.lock:
            self.given_up += self.parked
            n = len(self.parked)
            self.parked = []
        return n

    def poll(self, timeout, step):
        with self.lock:
            self.deadline = None if timeout is None else self.now + max(0.0, timeout)
            self.waiting, self.expired = True, False
            self.advance()
        t0 = self._mono()
        try:
            if timeout is not None and timeout <= 0:
                return step(0)
            while True:
                if step(0.002):
                    return True
                if self.expired:
                    return False
                if self._mono() - t0 > self.limit:
                    self.hang = self.hang or "the call waits although nothing is left that could end the wait"
                    self.free()
                    if self._mono() - t0 > 2 * self.limit:
                        from sim.core import SimHang
                        raise SimHang(self.hang)
        finally:
            with self.lock:
                self.waiting, self.deadline = False, None

    def advance(self):
        """Move virtual time to the next thing that happens (lock held, the caller waits)."""
        if not self.parked or self.expired:
            return
        times = [p[0] for p in self.parked if p[0] is not None]
        nxt = min(times) if times else None
        if self.deadline is not None and (nxt is None or nxt >= self.deadline):
            self.now = max(self.now, self.deadline)
            self.expired = True
            return
        if nxt is None:
            self.hang = "the call waits without a time limit for a store that never answers"
            for p in self.parked:
                p[1] = "hang"
            self.parked = []
        else:
            self.now = max(self.now, nxt)
            for p in [p for p in self.parked if p[0] is not None and p[0] <= self.now]:
                p[1] = "go"
                self.parked.remove(p)
        self.lock.notify_all()

    def free(self):
        with self.lock:
            for p in self.parked + self.given_up:
                p[1] = "go" if p[0] is not None else "hang"
            self.parked, self.given_up = [], []
            self.lock.notify_all()

    # --- threads that meet a pause

    def pause(self, seconds):
        """Returns False if the pause must end with an error."""
        if self.open:
            return True
        if threading.get_ident() == self.main and self.active:
            if seconds is None:
                self.hang = "the call itself waits for a store that never answers"
                return False
            self.now += seconds
            return True
        with self.lock:
            me = [None if seconds is None else self.now + seconds, "parked"]
            self.parked.append(me)
            if self.waiting:
                self.advance()
            t0 = self._mono()
            while me[1] == "parked":
                self._wait(self.lock, 0.5)
                if not self.waiting and me in self.parked and self._mono() - t0 > self.limit / 2:
                    self.parked.remove(me)
                    if me[0] is None:
                        self.hang = "the call waits outside of any wait with a time limit"
                        me[1] = "hang"
                    else:
                        self.now = max(self.now, me[0])
                        me[1] = "go"
            return me[1] == "go"

    def release(self, ok):
        """Let the given-up threads go on (or fail) and wait until they are done."""
        with self.lock:
            n = len(self.given_up)
            for p in self.given_up:
                p[1] = "go" if ok else "hang"
            self.given_up = []
            self.open = True
            self.lock.notify_all()
        t0 = self._mono()
        old = self.old_threads()
        while n and any(t.is_alive() for t in old) and self._mono() - t0 < 10:
            self.saved[3](0.001)
        self.open = False
        return n

    def old_threads(self):
        return list(self.before)

    def mark(self):
        """Threads that exist now belong to earlier calls."""
        self.before = [t for t in self.threads if t.is_alive()]


class File(io.RawIOBase):
    def __init__(self, fs, path, data):
        self.fs, self.path, self.data, self.pos = fs, path, data, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = [0, self.pos, len(self.data)][whence] + offset
        return self.pos

    def tell(self):
        return self.pos

    def size(self):
        return len(self.data)

    def read(self, n=-1):
        n = len(self.data) - self.pos if n is None or n < 0 else n
        short = self.fs.op("read", self.path)
        if short and n > 1:
            n = max(1, int(n * short))
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class Faults:
    """Where the operations of the store meet the faults of the plan."""

    def __init__(self, rec, clock):
        self.rec, self.clock = rec, clock
        self.files = {}
        self.lock = threading.Lock()
        self.reset([])

    def reset(self, faults):
        with self.lock:
            self.faults = [dict(f, seen=0, done=False) for f in faults]
            self.ops = 0
            self.hit = []

    def op(self, kind, path):
        if self.clock.open:
            return None
        with self.lock:
            self.ops += 1
            hit = None
            for f in self.faults:
                if f["op"] == kind and path.endswith(f["file"]) and not f["done"]:
                    f["seen"] += 1
                    if f["seen"] > f["nth"]:
                        f["done"] = True
                        hit = f
                        break
            if hit:
                self.hit.append(hit["kind"])
        if not hit:
            return None
        self.rec.fault(f"{hit['kind']}:{kind}")
        if hit["kind"] == "release":
            self.clock.release(hit["ok"])
        elif hit["kind"] == "stall":
            if not self.clock.pause(None):
                raise OSError(5, "the connection of the simulated store ended at last")
        elif hit["kind"] == "delay":
            if not self.clock.pause(hit["seconds"]):
                raise OSError(5, "the connection of the simulated store ended at last")
        elif hit["kind"] == "short":
            return hit["part"]
        else:
            raise ERRORS[hit["kind"]]()
        return None


ERRORS = {"eio": lambda: OSError(5, "Input/output error"), "reset": lambda: ConnectionResetError(104, "Connection reset by peer"),
          "slow_down": lambda: OSError("AWS Error SLOW_DOWN during GetObject operation: Please reduce your request rate."),
          "denied": lambda: PermissionError(13, "AWS Error ACCESS_DENIED"), "missing": lambda: FileNotFoundError(2, "AWS Error NO_SUCH_KEY"),
          "timeout": lambda: TimeoutError("AWS Error NETWORK_CONNECTION during GetObject: curlCode: 28, Timeout was reached"),
          "memory": lambda: MemoryError()}


def handler(faults):
    import pyarrow as pa
    import pyarrow.fs as pf

    class Handler(pf.FileSystemHandler):
        def __eq__(self, other):
            return self is other

        def __ne__(self, other):
            return self is not other

        def get_type_name(self):
            return "sim"

        def normalize_path(self, path):
            return path

        def get_file_info(self, paths):
            out = []
            for p in paths:
                faults.op("info", p)
                if p in faults.files:
                    out.append(pf.FileInfo(p, type=pf.FileType.File, size=len(faults.files[p])))
                elif any(k.startswith(p.rstrip("/") + "/") for k in faults.files):
                    out.append(pf.FileInfo(p, type=pf.FileType.Directory))
                else:
                    out.append(pf.FileInfo(p, type=pf.FileType.NotFound))
            return out

        def get_file_info_selector(self, selector):
            faults.op("list", selector.base_dir)
            pre = selector.base_dir.rstrip("/") + "/"
            return [pf.FileInfo(k, type=pf.FileType.File, size=len(v)) for k, v in sorted(faults.files.items()) if k.startswith(pre)]

        def _open(self, path):
            faults.op("open", path)
            if path not in faults.files:
                raise FileNotFoundError(path)
            return pa.PythonFile(File(faults, path, faults.files[path]), mode="r")

        open_input_stream = open_input_file = _open

        def _no(self, *a, **k):
            raise PermissionError("the store is read only")

        create_dir = delete_dir = delete_dir_contents = delete_root_dir_contents = delete_file = move = copy_file = _no
        open_output_stream = open_append_stream = _no

    return pf.PyFileSystem(Handler())


# --- the catalogue

def build(seed, threshold, max_order, n_field, clusters):
    """A catalogue in HATS layout: ({relative path: bytes}, columns as arrays, list of (order, pixel))."""
    import pyarrow as pa
    import pyarrow.csv  # noqa: F401
    import pyarrow.parquet as pq
    from astropy import units as u
    from astropy_healpix import HEALPix
    r = np.random.default_rng(seed)
    ra = [r.uniform(0, 360, n_field)]
    dec = [np.degrees(np.arcsin(r.uniform(-1, 1, n_field)))]
    for cra, cdec, scale, n in clusters:
        off = r.normal(0, scale, (2, n))
        d = cdec + off[0]
        a = cra + off[1] / max(0.02, np.cos(np.radians(cdec)))
        over = np.abs(d) > 90
        d = np.where(over, np.sign(d) * 180 - d, d)
        a = np.where(over, a + 180, a)
        ra.append(a % 360)
        dec.append(d)
    ra, dec = np.concatenate(ra), np.concatenate(dec)
    n = ra.size
    order = r.permutation(n)
    ra, dec = ra[order], dec[order]
    nan = lambda a, p: np.where(r.random(n) < p, np.nan, a)  # noqa: E731
    blank = r.random(n) < 0.2
    cols = {"ra": ra, "ra_error": r.uniform(0, 1, n), "dec": dec, "dec_error": r.uniform(0, 1, n),
            "parallax": np.where(blank, np.nan, r.uniform(0, 50, n)), "parallax_error": np.where(blank, np.nan, r.uniform(0, 1, n)),
            "source_id": r.permutation(n).astype(np.int64) + 4 * 10 ** 18, "ref_epoch": np.full(n, 2016.0),
            "pmra": nan(np.where(blank, np.nan, r.uniform(-2000, 2000, n)), 0.05), "pmra_error": r.uniform(0, 1, n),
            "pmdec": nan(np.where(blank, np.nan, r.uniform(-2000, 2000, n)), 0.05), "pmdec_error": r.uniform(0, 1, n),
            "phot_g_mean_mag": nan(r.uniform(5, 21, n), 0.02), "radial_velocity": r.uniform(-100, 100, n)}
    pix29 = np.asarray(HEALPix(nside=2 ** 29, order="nested").lonlat_to_healpix(ra * u.deg, dec * u.deg), dtype=np.int64)
    srt = np.argsort(pix29, kind="stable")
    cols = {k: v[srt] for k, v in cols.items()}
    pix29 = pix29[srt]
    files, parts = {}, []

    def split(o, p, idx):
        if not len(idx):
            return
        if len(idx) > threshold and o < max_order:
            sub = pix29[idx] >> (2 * (29 - o - 1))
            for q in range(4 * p, 4 * p + 4):
                split(o + 1, q, idx[sub == q])
            return
        parts.append((o, p))
        t = {"_healpix_29": pix29[idx]}
        t.update({k: v[idx] for k, v in cols.items()})
        arrs = {k: pa.array(v, mask=np.isnan(v)) if v.dtype.kind == "f" else pa.array(v) for k, v in t.items()}
        buf = pa.BufferOutputStream()
        pq.write_table(pa.table(arrs), buf, row_group_size=max(4, len(idx) // 3))
        files[f"dataset/Norder={o}/Dir={p // 10000 * 10000}/Npix={p}.parquet"] = buf.getvalue().to_pybytes()

    allidx = np.arange(n)
    top = pix29 >> (2 * 29)
    for p in range(12):
        split(0, p, allidx[top == p])
    order = r.permutation(len(parts))
    files["partition_info.csv"] = ("Norder,Npix,num_rows\n" + "".join(f"{parts[i][0]},{parts[i][1]},1\n" for i in order)).encode()
    return files, cols, parts
