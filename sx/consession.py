"""Concrete side of a harness: the same scenario run on the unmodified code with one assignment of the inputs."""
from . import common


class Fail(Exception):
    pass


class Skip(BaseException):
    """assume() is false for this assignment, or the scenario stopped itself."""


class ConSession(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.names = {}
        self.fails = []
        self.covers = []
        self.observations = []
        self.used = {}
        self.known = []
        self.cleanups = []
        self.ended = None

    def skip(self, why):
        self.ended = Skip(why)
        raise self.ended

    def reraise(self):
        """Raise what ends the run again if something swallowed it."""
        if self.ended is not None:
            raise self.ended

    def dead(self, f):
        f()

    def _name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "%s#%d" % (base, k)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = self.inputs.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        if lo is not None and v < lo or hi is not None and v > hi:
            self.skip("range of " + name)
        return v

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = self.inputs.get(name)
        if v is None:
            return float(lo or 0)
        return v["num"] / v["den"]

    def bool(self, name):
        return bool(self.inputs.get(self._name(name), False))

    flag = bool

    def choice(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if len(opts) == 1:
            return opts[0]
        return opts[self.int(name, 0, len(opts) - 1)]

    def bytes(self, name, n):
        return bytes(self.int("%s[%d]" % (name, i), 0, 255) for i in range(n))

    def text(self, name, n, ascii=False, surrogates=False):
        return "".join(chr(self.int("%s[%d]" % (name, i), 0, 0x10ffff)) for i in range(n))

    def blob(self, name, lo=0, hi=None):
        name = self._name(name)
        d = self.inputs.get(name) or {"len": lo, "reads": {}}
        return common.blob_bytes(name, d["len"], d["reads"])

    def textblob(self, name, lo=0, hi=None):
        name = self._name(name)
        d = self.inputs.get(name) or {"len": lo, "reads": {}}
        return common.blob_text(name, d["len"], d.get("enclen"), d["reads"])

    def assume(self, c):
        if not c:
            self.skip("assume")

    def stop(self):
        self.skip("stop")

    def check(self, c, label):
        if not c:
            self.fails.append(label)
        return bool(c)

    def fail(self, label):
        self.fails.append(label)

    def cover(self, label):
        self.covers.append(label)

    def observe(self, label, value):
        self.observations.append([label, common.canon(value)])

    def known_finding(self, key):
        self.known.append(key)

    def possible(self, c):
        return bool(c)

    certain = possible

    def advance(self, it, d):
        f = getattr(it, "advance", None)
        if f is not None:
            return f(d)
        for _ in range(d):
            next(it)

    def defer(self, f):
        self.cleanups.append(f)
