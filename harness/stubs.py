"""Stand-ins for the environment (random, clock, sockets, event loop, threads, HTTP). Installed before the packages under test
are imported, in both modes; what they answer is decided by the scenario through ENV."""
import itertools
import os
import random
import socket
import time

REAL = {}


class Env(object):
    pass


ENV = Env()
_PATCHED = []


def patch(obj, attr, new):
    _PATCHED.append((obj, attr, getattr(obj, attr)))
    setattr(obj, attr, new)


def _randint(a, b):
    return ENV.randint(a, b)


def _time():
    return ENV.time()


BOOT = 123456789


def _monotonic():
    f = getattr(ENV, "monotonic", None)
    return _time() - BOOT if f is None else f()


def _time_ns():
    return int(_time() * 1000) * 1000000


def _monotonic_ns():
    return int(_monotonic() * 1000) * 1000000


def _start_randint(a, b):
    return a + 1000


def plain(data):
    """The bytes of a buffer."""
    if type(data) in (bytearray, memoryview):
        return bytes(data)
    f = getattr(type(data), "plain", None)
    return data if f is None else f(data)


class FastCycle(object):
    """itertools.cycle over ranges that can be advanced by billions (concrete runs only)."""

    def __new__(cls, it):
        parts = it.parts if type(it) is FastChain else [it]
        if not all(isinstance(p, range) for p in parts):
            return REAL["cycle"](it)
        self = object.__new__(cls)
        self.parts, self.k = parts, 0
        return self

    def __iter__(self):
        return self

    def __next__(self):
        n = sum(map(len, self.parts))
        if not n:
            raise StopIteration
        k = self.k % n
        self.k += 1
        for p in self.parts:
            if k < len(p):
                return p[k]
            k -= len(p)

    def advance(self, d):
        self.k += d


class FastCount(object):
    def __init__(self, start=0, step=1):
        self.k, self.step = start, step

    def __iter__(self):
        return self

    def __next__(self):
        k = self.k
        self.k += self.step
        return k

    def advance(self, d):
        self.k += d * self.step


class FastChain(object):
    from_iterable = itertools.chain.from_iterable

    def __init__(self, *parts):
        self.parts = parts
        self.it = REAL["chain"](*parts)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def _gethostname():
    return ENV.hostname


def _gethostbyname(name):
    return ENV.ip


def _getpid():
    return ENV.pid


def find_iterators(*owners):
    """Sequence generators kept in classes or modules (cycle, count)."""
    out = []
    for o in owners:
        for v in list(vars(o).values()):
            if not isinstance(v, type) and hasattr(v, "advance") and hasattr(v, "__next__"):
                out.append(v)
    return out


def install(S):
    ENV.__dict__.clear()
    ENV.S = S
    ENV.debug = bool(os.environ.get("SX_DEBUG"))
    ENV.randint = _start_randint
    ENV.time = REAL["time"]
    ENV.hostname, ENV.ip, ENV.pid = "host", "127.0.0.1", 4711
    patch(random, "randint", _randint)
    patch(time, "time", _time)
    patch(time, "monotonic", _monotonic)
    patch(time, "perf_counter", _monotonic)
    patch(time, "time_ns", _time_ns)
    patch(time, "monotonic_ns", _monotonic_ns)
    patch(time, "perf_counter_ns", _monotonic_ns)
    patch(socket, "gethostname", _gethostname)
    patch(socket, "gethostbyname", _gethostbyname)
    patch(os, "getpid", _getpid)
    if not S.symbolic:
        patch(itertools, "cycle", FastCycle)
        patch(itertools, "chain", FastChain)
        patch(itertools, "count", FastCount)


def uninstall():
    while _PATCHED:
        obj, attr, old = _PATCHED.pop()
        setattr(obj, attr, old)
    ENV.__dict__.pop("S", None)


REAL["time"] = time.time
REAL["cycle"] = itertools.cycle
REAL["chain"] = itertools.chain


def ms_clock(S, ms):
    """A clock reading whose millisecond count is ms."""
    if not S.symbolic:
        t = ms / 1000
        return t if int(t * 1000) == ms else (ms + 0.25) / 1000
    return ms / 1000
