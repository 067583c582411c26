"""The simulated disk (sim/shim/disk.c) seen from Python, and deterministic temporary names."""
import contextlib
import ctypes
import errno
import os
import shutil
import tempfile

from . import core

KINDS = ["open", "write", "read", "close", "flush", "unlink", "mkdir", "rename", "truncate", "map", "fdopen"]
BIT = {k: 1 << i for i, k in enumerate(KINDS)}
_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ.get("SIM_SHIM")
        if not path or path not in os.environ.get("LD_PRELOAD", ""):
            raise core.HarnessError("the disk shim is not preloaded")
        _lib = ctypes.CDLL(path)
        _lib.sim_disk_space.argtypes = [ctypes.c_longlong, ctypes.c_int]
        for n in ("sim_disk_ops", "sim_disk_fired_kind", "sim_disk_benign", "sim_disk_space_hits"):
            getattr(_lib, n).restype = ctypes.c_long
    return _lib


class Disk:
    """One simulated disk directory; faults count operations from the moment they are planned."""

    def __init__(self, rec):
        self.rec = rec
        self.seen = [0] * len(KINDS)
        self.benign = self.space_hits = 0

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="disk-", dir=os.getcwd())
        lib().sim_disk_clear()
        lib().sim_disk_arm(self.root.encode())
        return self

    def __exit__(self, *exc):
        lib().sim_disk_disarm()
        lib().sim_disk_clear()
        shutil.rmtree(self.root, ignore_errors=True)

    def plan(self, f):
        mask = 0
        for k in f["on"]:
            mask |= BIT[k]
        return lib().sim_disk_fault(mask, f["nth"], f.get("times", 1), f["err"], f.get("amount", 0))

    def space(self, n, late):
        lib().sim_disk_space(n, late)

    def heal(self):
        self.tally()
        lib().sim_disk_forget()

    def fired(self):
        """Number of faults (not benign short transfers) that have hit an operation so far."""
        return sum(lib().sim_disk_fired_kind(i) for i in range(len(KINDS))) + lib().sim_disk_space_hits()

    def fired_kind(self, kind):
        return lib().sim_disk_fired_kind(KINDS.index(kind))

    def tally(self):
        """Move the counters into the run's record."""
        for i, k in enumerate(KINDS):
            n = lib().sim_disk_fired_kind(i)
            if n > self.seen[i]:
                self.rec.fault(f"disk_{k}_error", n - self.seen[i])
                self.seen[i] = n
        n = lib().sim_disk_benign()
        if n > self.benign:
            self.rec.fault("disk_short_transfer", n - self.benign)
            self.benign = n
        n = lib().sim_disk_space_hits()
        if n > self.space_hits:
            self.rec.fault("disk_full", n - self.space_hits)
            self.space_hits = n

    def ops(self):
        return sum(lib().sim_disk_ops(i) for i in range(len(KINDS)))

    @contextlib.contextmanager
    def aside(self):
        """The harness itself looks at the directory: no faults, no counting."""
        lib().sim_disk_disarm()
        try:
            yield
        finally:
            lib().sim_disk_arm(self.root.encode())

    def listing(self):
        with self.aside():
            out = []
            for r, ds, fs in os.walk(self.root):
                out += [os.path.relpath(os.path.join(r, x), self.root) for x in ds + fs]
            return sorted(out)


ERRNOS = {
    "open": [errno.EMFILE, errno.ENOENT, errno.EACCES, errno.EIO, errno.ENOSPC, errno.EROFS, errno.ESTALE],
    "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EINTR],
    "read": [errno.EIO, errno.ESTALE, errno.EINTR], "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    "flush": [errno.EIO, errno.ENOSPC], "unlink": [errno.EBUSY, errno.EACCES, errno.EIO], "mkdir": [errno.ENOSPC, errno.EACCES, errno.ENOENT],
    "rename": [errno.ENOSPC, errno.EIO], "truncate": [errno.EIO, errno.EINVAL], "map": [errno.ENOMEM, errno.EAGAIN],
    "fdopen": [errno.ENOMEM, errno.EMFILE],
}


def gen_fault(rng, kinds, maxnth=40, maxbytes=400):
    k = rng.weighted(kinds)
    f = {"on": [k], "nth": int(maxnth * rng.random() ** 1.5), "err": rng.pick(ERRNOS[k]), "times": rng.weighted([(1, 7), (2, 1), (-1, 2)])}
    if f["err"] == errno.EINTR:
        f["times"] = 1  # a system call is not interrupted for ever
    if k in ("write", "read", "close", "flush"):
        f["amount"] = rng.weighted([(0, 2), (rng.randrange(1, 9), 3), (rng.randrange(1, maxbytes), 3), (-1 if k in ("write", "read") else 1, 1)])
    return f


class Names:
    """Deterministic, seeded stand-in for tempfile's random names; proposes names that are in use, but never one that was used and is free again."""

    def __init__(self, values, repeat=0, where=None):
        self.values, self.k, self.repeat, self.last, self.where = values, 0, repeat, None, where

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        v = self.values[self.k % len(self.values)] if self.values else 0
        if self.repeat and self.last is not None and v % 8 < self.repeat and self.k % 5:
            if self.where and any(os.path.lexists(os.path.join(w, "tmp" + self.last)) for w in self.where):
                return self.last
        self.last = f"n{self.k:05d}{v % 997:03d}"
        return self.last


@contextlib.contextmanager
def names(values, repeat=0, where=None):
    old = tempfile._name_sequence
    tempfile._name_sequence = Names(values, repeat, where)
    try:
        yield
    finally:
        tempfile._name_sequence = old
