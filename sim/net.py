"""Simulated network: every socket of the process talks to scripted servers under a virtual clock.

A server is {"addrs": [how each address answers a connection], "script": [[step, argument], ...]}; steps of the script:
send (bytes), delay (seconds), stall, reset, eof.  A script belongs to one connection; connections take scripts in order.
"""
import errno
import io
import socket as real

from sim.core import SimHang


class Net:
    def __init__(self, rec):
        self.rec = rec
        self.clock = 0.0
        self.dns = {}
        self.scripts = []
        self.connections = 0
        self.requests = []

    def __enter__(self):
        net = self

        class Socket(SimSocket):
            _net = net
        self.saved = (real.socket, real.getaddrinfo)
        real.socket, real.getaddrinfo = Socket, self.getaddrinfo
        return self

    def __exit__(self, *exc):
        real.socket, real.getaddrinfo = self.saved

    def expect(self, host, addrs, scripts):
        """The next request goes to host; each connection that opens takes the next script."""
        self.dns = {host: list(addrs)}
        self.scripts = list(scripts)

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        host = host.decode() if isinstance(host, bytes) else host
        if host not in self.dns:
            raise real.gaierror(real.EAI_NONAME, f"Name or service not known ({host})")
        how = self.dns[host]
        if how == ["dns"]:
            self.rec.fault("dns-failure")
            raise real.gaierror(real.EAI_AGAIN, "Temporary failure in name resolution")
        return [(real.AF_INET, real.SOCK_STREAM, 6, "", (f"10.0.0.{k}", port)) for k in range(len(how))]

    def how(self, address):
        k = int(address[0].rsplit(".", 1)[1])
        return next(iter(self.dns.values()))[k]

    def wait(self, seconds, timeout, what):
        """Let virtual time pass; seconds None means for ever."""
        if timeout is not None and (seconds is None or seconds >= timeout):
            self.clock += timeout
            raise TimeoutError("timed out")
        if seconds is None:
            raise SimHang(f"waiting for the service without a time limit ({what})")
        self.clock += seconds


class SimSocket:
    _net = None

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.timeout = None
        self.script = None
        self.pos = 0
        self.closed = False

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, *a):
        pass

    def fileno(self):
        return -1

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ("10.0.0.100", 40000)

    def connect(self, address):
        net = self._net
        how = net.how(address)
        self.peer = address
        if how == "refuse":
            net.rec.fault("refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if how == "unreachable":
            net.rec.fault("unreachable")
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if how == "stall":
            net.rec.fault("connect-stall")
            net.wait(None, self.timeout, "connect")
        if isinstance(how, (int, float)):
            net.wait(how, self.timeout, "connect")
        net.connections += 1
        self.script = [list(s) for s in (net.scripts.pop(0) if net.scripts else [["reset", None]])]

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno
        return 0

    def sendall(self, data, flags=0):
        if self.script and self.script[0][0] == "reset_on_send":
            self._net.rec.fault("reset-on-send")
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if self.script and self.script[0][0] == "stall_on_send":
            self._net.rec.fault("stall-on-send")
            self._net.wait(None, self.timeout, "send")
        self._net.requests.append(bytes(data))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        net = self._net
        while True:
            if not self.script:
                return b""
            step, arg = self.script[0]
            if step == "send":
                out, rest = arg[:n], arg[n:]
                if rest:
                    self.script[0][1] = rest
                else:
                    self.script.pop(0)
                if out:
                    return out
            elif step == "delay":
                self.script.pop(0)
                net.rec.fault("delay")
                net.wait(arg, self.timeout, "reply")
            elif step == "stall":
                net.rec.fault("reply-stall")
                net.wait(None, self.timeout, "reply")
            elif step == "stall_on_send":
                net.wait(None, self.timeout, "reply")
            elif step in ("reset", "reset_on_send"):
                net.rec.fault("reply-reset")
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            elif step == "eof":
                return b""
            else:
                raise AssertionError(step)

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def makefile(self, mode="r", buffering=None, **kw):
        return io.BufferedReader(_Raw(self), 8192 if buffering in (None, -1) else max(1, buffering))

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(memoryview(b))


def pieces(data, cuts):
    """Cut data at the given places: what arrives in one receive."""
    cuts = sorted({c % (len(data) + 1) for c in cuts})
    out, last = [], 0
    for c in cuts + [len(data)]:
        if c > last:
            out.append(data[last:c])
            last = c
    return out
