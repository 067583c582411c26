"""Failing memory: allocations of the compiled fitter, of numpy's array data and of Python objects fail where the plan says."""
import ctypes
import os

from sim import core


class Memory:
    """Installs the fault points around the compiled function of a module; see fail()."""

    def __init__(self, module, name, libs):
        import _testcapi
        self.testcapi = _testcapi
        self.c = [ctypes.CDLL(lib) for lib in libs]
        self.np = ctypes.PyDLL(os.environ["SIM_NP"])
        if self.np.simnp_init():
            raise core.HarnessError("numpy memory handler")
        for f in ("simnp_count", "simnp_failed", "simnp_live"):
            getattr(self.np, f).restype = ctypes.c_long
        self.var = {n: [ctypes.c_long.in_dll(c, "sim_" + n) for c in self.c] for n in ("count", "live", "failed")}
        self.real = getattr(module, name)
        self.calls = 0
        self.plan = None
        setattr(module, name, self)

    def __call__(self, *args, **kwargs):
        self.calls += 1
        dom, nth, start, length = self.plan or ("none", [], -1, 0)
        arr = (ctypes.c_long * max(1, len(nth)))(*nth)

        def arm(function, on):
            function(ctypes.c_long(len(nth) if on else 0), arr, ctypes.c_long(start if on else -1))

        for i, c in enumerate(self.c):
            arm(c.sim_arm, dom == f"c{i}")
        arm(self.np.simnp_arm, dom == "array")
        if self.np.simnp_install():
            raise core.HarnessError("numpy memory handler")
        real, remove, stop = self.real, self.testcapi.remove_mem_hooks, 0 if length == 0 else start + length
        try:
            if dom == "object":
                try:
                    self.testcapi.set_nomemory(start, stop)
                    return real(*args, **kwargs)
                finally:
                    remove()
            return real(*args, **kwargs)
        finally:
            self.np.simnp_restore()

    def counts(self):
        return dict({f"c{i}": v.value for i, v in enumerate(self.var["count"])}, array=self.np.simnp_count())

    def failed(self):
        return sum(v.value for v in self.var["failed"]) + self.np.simnp_failed()

    def live(self):
        return sum(v.value for v in self.var["live"]), self.np.simnp_live()
