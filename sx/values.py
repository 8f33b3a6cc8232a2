"""Symbolic values. Integers are mathematical (z3 Int), reals are z3 Real, byte and text strings are ropes of cells
(symbolic elements, concrete count), blobs (opaque contents, symbolic length) and integer atoms (decimal numerals)."""
import z3

from . import engine as E
from .engine import Unsupported, cur

Z = z3.IntVal


class Sym(object):
    __slots__ = ()


def is_sym(x):
    return issubclass(type(x), Sym)


def has_sym(x, depth=3):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth and issubclass(t, (tuple, list, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def unsupported(msg):
    cur().raise_control(Unsupported(msg))


def zi(x):
    """z3 Int expression of an int-like value."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, Z(1), Z(0))
    if isinstance(x, int):
        return Z(int(x))
    if z3.is_expr(x):
        return x
    raise TypeError("not an int: %r" % (x,))


def zr(x):
    t = type(x)
    if t is SymReal:
        return x.e
    if t in (SymInt, SymBool):
        return z3.ToReal(zi(x))
    if isinstance(x, int):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d)
    raise TypeError("not a number: %r" % (x,))


def mk_int(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_real(e):
    e = z3.simplify(e)
    return SymReal(e)


def zb(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if t is SymInt:
        return x.e != 0
    raise TypeError("not a bool: %r" % (x,))


def _intlike(x):
    return type(x) in (SymInt, SymBool) or isinstance(x, int)


def _numlike(x):
    return type(x) in (SymInt, SymBool, SymReal) or isinstance(x, (int, float))


def _isreal(x):
    return type(x) is SymReal or isinstance(x, float)


def _divmod_const(x, k):
    """(x div k, x mod k) with fresh linear variables (unique solution)."""
    en = cur()
    key = ("dm", x.get_id(), k)
    hit = en.defs.get(key)
    if hit is not None:
        return hit[0], hit[1]
    q = z3.Int(en.fresh_name("q"))
    r = z3.Int(en.fresh_name("r"))
    en.add(z3.And(x == q * k + r, r >= 0, r < k))
    en.defs[key] = (q, r, x)
    return q, r


class _Num(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, f):
        if not _numlike(o):
            return NotImplemented
        if _isreal(self) or _isreal(o):
            return mk_bool(f(zr(self), zr(o)))
        return mk_bool(f(zi(self), zi(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _numlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _numlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return 77001

    def _arith(self, o, f, swap=False):
        if not _numlike(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if _isreal(a) or _isreal(b):
            return mk_real(f(zr(a), zr(b)))
        return mk_int(f(zi(a), zi(b)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)) or type(o) in (SymBytes, SymStr):
            return seq_repeat(o, self)
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        return _truediv(self, o)

    def __rtruediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        return _truediv(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)[0]

    def __rfloordiv__(self, o):
        return _floordiv(o, self)[0]

    def __mod__(self, o):
        return _floordiv(self, o)[1]

    def __rmod__(self, o):
        return _floordiv(o, self)[1]

    def __divmod__(self, o):
        return _floordiv(self, o)

    def __rdivmod__(self, o):
        return _floordiv(o, self)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self + 0

    def __abs__(self):
        return -self if self < 0 else self + 0

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 8 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        unsupported("symbolic power")

    def __rpow__(self, o):
        if isinstance(o, int) and type(self) is SymInt:
            return o ** cur().concretise(self.e, "exponent")
        unsupported("symbolic power")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __reduce__(self):
        unsupported("pickle of symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _truediv(a, b):
    z = zr(b)
    if cur().fork(z == 0):
        raise ZeroDivisionError("division by zero")
    return mk_real(zr(a) / z)


def _floordiv(a, b):
    if not (_numlike(a) and _numlike(b)):
        unsupported("divmod on %s/%s" % (type(a).__name__, type(b).__name__))
    if _isreal(a) or _isreal(b):
        q = _truediv(a, b)
        f = mk_int(z3.ToInt(zr(q)))
        return f, a - f * b
    if type(b) in (SymInt, SymBool):
        e = zi(b)
        if cur().fork(e == 0):
            raise ZeroDivisionError("integer modulo by zero")
        if cur().fork(e > 0):
            return mk_int(zi(a) / e), mk_int(zi(a) % e)
        return mk_int((-zi(a)) / (-e)), mk_int(-((-zi(a)) % (-e)))
    b = int(b)
    if b == 0:
        raise ZeroDivisionError("integer modulo by zero")
    if b > 0:
        q, r = _divmod_const(zi(a), b)
        return mk_int(q), mk_int(r)
    q, r = _divmod_const(-zi(a), -b)
    return mk_int(q), mk_int(-r)


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return cur().fork(self.e != 0)

    def __index__(self):
        return cur().concretise(self.e, "index")

    def __int__(self):
        return self

    def __float__(self):
        unsupported("float() of a symbolic int")

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    # bit operations with exact models for masks and shifts by constants
    def __lshift__(self, o):
        o = _const(o, "shift")
        if o < 0:
            raise ValueError("negative shift count")
        return mk_int(self.e * (1 << o))

    def __rlshift__(self, o):
        return o << cur().concretise(self.e, "shift")

    def __rshift__(self, o):
        o = _const(o, "shift")
        if o < 0:
            raise ValueError("negative shift count")
        return mk_int(_divmod_const(self.e, 1 << o)[0]) if o else self

    def __rrshift__(self, o):
        return o >> cur().concretise(self.e, "shift")

    def __and__(self, o):
        if type(o) is SymBool:
            o = SymInt(zi(o))
        if type(o) is SymInt:
            unsupported("& of two symbolic ints")
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o == 0:
            return 0
        if o < 0:
            # x & -2^k  and  x & ~m
            return self - (self & ~o)
        r = 0
        bit = 0
        x = self.e
        while o >> bit:
            if not (o >> bit) & 1:
                bit += 1
                continue
            n = 0
            while (o >> (bit + n)) & 1:
                n += 1
            part = _divmod_const(x, 1 << bit)[0] if bit else x
            part = _divmod_const(part, 1 << n)[1]
            r = r + part * (1 << bit)
            bit += n
        return mk_int(r)

    __rand__ = __and__

    def __or__(self, o):
        if not _intlike(o):
            return NotImplemented
        return _bitor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if not _intlike(o):
            return NotImplemented
        if isinstance(o, int) and type(o) is not SymInt:
            a = self & o
            return self + int(o) - 2 * a
        unsupported("xor of two symbolic ints")

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        en = cur()
        x = abs(self)
        n = 0
        while True:
            en.tick()
            if x < (1 << n):
                return n
            n += 1

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = _const(length, "to_bytes length")
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def conjugate(self):
        return self


def _const(x, what):
    if type(x) is SymInt:
        return cur().concretise(x.e, what)
    return int(x)


def _bitor(a, b):
    """a | b, exact when the engine can show the operands occupy disjoint bits."""
    en = cur()
    if not is_sym(b):
        b = int(b)
        return a + b - (a & b)
    if not is_sym(a):
        a = int(a)
        return a + b - (b & a)
    ea, eb = zi(a), zi(b)
    for x, y in ((ea, eb), (eb, ea)):
        for k in (8, 16, 24, 32, 4, 6, 7, 12, 18, 48):
            if en.must(z3.And(y >= 0, y < (1 << k))):
                if en.must(_divmod_const(x, 1 << k)[1] == 0):
                    return mk_int(x + y)
    unsupported("| of two symbolic ints")


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().fork(self.e)

    def __hash__(self):
        return 77001

    def _int(self):
        return SymInt(z3.If(self.e, Z(1), Z(0)))

    def __and__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.And(self.e, zb(o)))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.Or(self.e, zb(o)))
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.Xor(self.e, zb(o)))
        return self._int() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return -self._int() - 1

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(self.e == zb(o))
        if _numlike(o):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(z3.Not(zb(r)))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"


for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__lt__", "__le__", "__gt__", "__ge__",
            "__truediv__", "__rtruediv__", "__floordiv__", "__mod__", "__neg__", "__abs__", "__lshift__", "__rshift__"):
    def _mk(op):
        def f(self, *a):
            return getattr(self._int(), op)(*a)
        return f
    setattr(SymBool, _op, _mk(_op))


class SymReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return cur().fork(self.e != 0)

    def __int__(self):
        return self.__trunc__()

    def __trunc__(self):
        if cur().fork(self.e >= 0):
            return mk_int(z3.ToInt(self.e))
        return mk_int(-z3.ToInt(-self.e))

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            return mk_int(z3.ToInt(self.e + z3.RealVal(1) / 2))
        return self

    def __float__(self):
        unsupported("float() of symbolic real")

    def is_integer(self):
        return mk_bool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def hex(self):
        unsupported("float.hex")


# ---------------------------------------------------------------------------------------------------- ropes

class Blob(object):
    """Opaque contents of symbolic length. kind 'b' or 's'. src links an encoding to the text it came from."""

    def __init__(self, name, kind, length, src=None):
        self.name = name
        self.kind = kind
        self.length = length
        self.src = src          # text blob this is the UTF-8 encoding of
        self.enc = None         # the encoding of this text blob
        self.base = None        # the rope this is only a view of
        self.arr = z3.Array(name + ".data", z3.IntSort(), z3.IntSort())
        self.reads = []

    def sel(self, idx):
        en = cur()
        idx = z3.simplify(Z(idx) if isinstance(idx, int) else idx)
        key = (self.name, idx.get_id())
        hit = en.selcache.get(key)
        if hit is not None:
            return hit[0]
        e = z3.Select(self.arr, idx)
        en.add(z3.And(e >= 0, e <= (255 if self.kind == "b" else 0x7f)))
        en.selcache[key] = (e, idx)
        self.reads.append(idx)
        return e


class Seg(object):
    """blob[off : off+ln]"""
    __slots__ = ("blob", "off", "ln")

    def __init__(self, blob, off, ln):
        self.blob = blob
        self.off = off
        self.ln = ln

    def whole(self):
        return _same(self.off, 0) and _same(self.ln, self.blob.length)

    def must_whole(self):
        return self.whole() or cur().must(z3.And(zi(self.off) == 0, zi(self.ln) == zi(self.blob.length)))


def fixed(e):
    """e as a number if it has one value only on this path."""
    if isinstance(e, int):
        return e
    m = cur().sat_model()
    if m is None:
        return e
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v) and cur().must(e == v):
        return v.as_long()
    return e


def resolve(segs):
    out = []
    for s in segs:
        if type(s) is Seg and s.blob.base is not None:
            i, j = fixed(s.off), fixed(_ex(zi(s.off) + zi(s.ln)))
            b = s.blob.base
            r = b
            n = b.slen()
            if not _same(j, n):
                r = r.cut(j)[0]
            if not _same(i, 0):
                r = r.cut(i)[1]
            out.extend(r.segs)
        else:
            out.append(s)
    return _norm(out)


class IntAtom(object):
    """Numeral of an int expression: base 10 or 16 (lower case), optionally right-aligned to width with fill."""
    __slots__ = ("e", "base", "width", "fill")

    def __init__(self, e, base=10, width=0, fill=" "):
        self.e = e
        self.base = base
        self.width = width
        self.fill = fill

    def plain(self):
        return self.base == 10 and not self.width


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(zi(a) - zi(b))
    return z3.is_int_value(d) and d.as_long() == 0


def _ex(x):
    """int or expr, normalised"""
    if isinstance(x, int):
        return x
    if type(x) is SymInt:
        x = x.e
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else x


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    d = z3.simplify(zi(a) - zi(b))
    if z3.is_int_value(d):
        return d.as_long() < 0
    return cur().fork(zi(a) < zi(b))


def _le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    d = z3.simplify(zi(a) - zi(b))
    if z3.is_int_value(d):
        return d.as_long() <= 0
    return cur().fork(zi(a) <= zi(b))


def _eqf(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(zi(a) - zi(b))
    if z3.is_int_value(d):
        return d.as_long() == 0
    return cur().fork(zi(a) == zi(b))


def _sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return _ex(zi(a) - zi(b))


def _add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return _ex(zi(a) + zi(b))


def expand_atom(a):
    """Digits of an integer atom as cells (forks on sign and digit count)."""
    en = cur()
    cells = []
    e = z3.simplify(a.e)
    if z3.is_int_value(e):
        v = e.as_long()
        s = ("%x" if a.base == 16 else "%d") % v
        return [ord(c) for c in s.rjust(a.width, a.fill)] if a.width else [ord(c) for c in s]
    neg = en.fork(e < 0)
    x = -e if neg else e
    n = 1
    while not en.fork(x < a.base ** n):
        en.tick()
        n += 1
        if n > 40:
            unsupported("integer with more than 40 digits")
    if n == 1:
        ds = [x]
    else:
        key = ("dig", z3.simplify(x).get_id(), a.base, n)
        hit = en.defs.get(key)
        if hit:
            ds = hit[0]
        else:
            ds = [z3.Int(en.fresh_name("dig")) for _ in range(n)]
            tot = Z(0)
            for d in ds:
                tot = tot * a.base + d
            en.add(z3.And(x == tot, *[z3.And(d >= 0, d < a.base) for d in ds]))
            en.defs[key] = (ds, x)
    for d in ds:
        cells.append(z3.simplify(d + 48) if a.base == 10 else z3.simplify(z3.If(d < 10, d + 48, d + 87)))
    if neg:
        cells.insert(0, 45)
    if a.width > len(cells):
        cells = [ord(a.fill)] * (a.width - len(cells)) + cells
    return cells


def _norm(segs):
    out = []
    for s in segs:
        if isinstance(s, list):
            if not s:
                continue
            if out and isinstance(out[-1], list):
                out[-1] = out[-1] + s
            else:
                out.append(s)
        elif isinstance(s, Seg):
            if isinstance(s.ln, int) and s.ln == 0:
                continue
            if out and isinstance(out[-1], Seg) and out[-1].blob is s.blob and _same(_add(out[-1].off, out[-1].ln), s.off):
                p = out[-1]
                out[-1] = Seg(p.blob, p.off, _add(p.ln, s.ln))
            else:
                out.append(s)
        else:
            out.append(s)
    return out


class SymSeq(Sym):
    """Common part of SymBytes and SymStr. segs: list of [cells], Seg, IntAtom."""
    __slots__ = ("_segs", "_view")
    text = False

    def __init__(self, segs):
        self._segs = _norm(segs)
        self._view = None

    @property
    def segs(self):
        """The segments, with slices at symbolic positions resolved."""
        for s in self._segs:
            if type(s) is Seg and s.blob.base is not None:
                self._segs = resolve(self._segs)
                break
        return self._segs

    def lazy(self, i, j):
        """self[i:j], left unresolved until its contents matter, so that adjacent pieces can be put together again."""
        if len(self._segs) == 1 and type(self._segs[0]) is Seg:
            s = self._segs[0]
            return type(self)([Seg(s.blob, _add(s.off, i), _sub(j, i))])
        if self._view is None:
            v = Blob(cur().fresh_name("view"), "s" if self.text else "b", self.slen())
            v.base = self
            self._view = v
        return type(self)([Seg(self._view, i, _sub(j, i))])

    # -- conversion
    @classmethod
    def of(cls, x):
        if type(x) is cls:
            return x
        if cls.text:
            if type(x) is str or isinstance(x, str) and not is_sym(x):
                return cls([[ord(c) for c in x]])
        else:
            if type(x) in (ByteArr, MemView):
                v = x.plain()
                return v if type(v) is cls else cls.of(v)
            if isinstance(x, (bytes, bytearray, memoryview)) and not is_sym(x):
                return cls([list(bytes(x))])
        raise TypeError("%s expected, got %s" % ("str" if cls.text else "bytes", type(x).__name__))

    @classmethod
    def can(cls, x):
        if type(x) is cls:
            return True
        if is_sym(x):
            return type(x) in (ByteArr, MemView) and not cls.text
        return isinstance(x, str) if cls.text else isinstance(x, (bytes, bytearray, memoryview))

    def simp(self):
        """Native value if fully concrete."""
        if not self._segs:
            return "" if self.text else b""
        if len(self._segs) == 1 and isinstance(self._segs[0], list):
            c = self._segs[0]
            if all(isinstance(x, int) for x in c):
                return "".join(map(chr, c)) if self.text else bytes(c)
            if any(not isinstance(x, int) for x in c):
                c2 = []
                conc = True
                for x in c:
                    if not isinstance(x, int):
                        if z3.is_int_value(x):
                            x = x.as_long()
                        else:
                            conc = False
                    c2.append(x)
                if conc:
                    return "".join(map(chr, c2)) if self.text else bytes(c2)
        if len(self._segs) == 1 and isinstance(self._segs[0], IntAtom):
            a = self._segs[0]
            e = z3.simplify(a.e)
            if z3.is_int_value(e):
                return "".join(map(chr, expand_atom(a)))
        return self

    # -- length
    def slen(self):
        n = 0
        for i, s in enumerate(self._segs):
            if isinstance(s, list):
                n = _add(n, len(s))
            elif isinstance(s, Seg):
                n = _add(n, s.ln)
            else:
                c = expand_atom(s)
                n = _add(n, len(c))
        return n

    def sxlen(self):
        return mk_int(self.slen())

    def __len__(self):
        n = self.slen()
        if isinstance(n, int):
            return n
        return cur().concretise(n, "length")

    def __bool__(self):
        for s in self._segs:
            if isinstance(s, list) or isinstance(s, IntAtom):
                return True
        n = self.slen()
        if isinstance(n, int):
            return n > 0
        return cur().fork(n > 0)

    def expanded(self):
        """Same rope with atoms turned into digit cells."""
        if not any(isinstance(s, IntAtom) for s in self._segs):
            return self
        return type(self)([expand_atom(s) if isinstance(s, IntAtom) else s for s in self.segs])

    def cells(self, what="operation"):
        out = []
        for s in self.segs:
            if isinstance(s, list):
                out.extend(s)
            elif isinstance(s, IntAtom):
                out.extend(expand_atom(s))
            else:
                n = s.ln
                if not isinstance(n, int):
                    n = cur().concretise(n, "blob length in " + what, cap=12)
                for i in range(n):
                    out.append(s.blob.sel(_add(s.off, i)))
        return out

    def all_cells(self):
        return all(isinstance(s, list) for s in self.segs)

    # -- slicing
    def cut(self, p):
        """(prefix of length p, rest); requires 0 <= p <= len (caller clamps)."""
        pre = []
        segs = list(self.expanded()._segs)
        rest = p
        i = 0
        while i < len(segs):
            s = segs[i]
            if isinstance(rest, int) and rest == 0:
                break
            if isinstance(s, list):
                k = len(s)
                if _le(k, rest):
                    pre.append(s)
                    rest = _sub(rest, k)
                    i += 1
                    continue
                # 0 <= rest < k
                rest = fixed(rest)
                if not isinstance(rest, int):
                    for v in range(k):
                        if _eqf(rest, v):
                            rest = v
                            break
                    else:
                        unsupported("cut position")
                pre.append(s[:rest])
                segs[i] = s[rest:]
                rest = 0
                break
            if _le(s.ln, rest):
                pre.append(s)
                rest = _sub(rest, s.ln)
                i += 1
                continue
            pre.append(Seg(s.blob, s.off, rest))
            segs[i] = Seg(s.blob, _add(s.off, rest), _sub(s.ln, rest))
            rest = 0
            break
        return type(self)(pre), type(self)(segs[i:])

    def seat(self, p):
        """(index of a segment, position in it) if that follows from the terms alone, else None."""
        acc = 0
        for k, s in enumerate(self._segs):
            if type(s) is IntAtom:
                return None
            d = _sub(p, acc)
            n = len(s) if isinstance(s, list) else s.ln
            if isinstance(d, int):
                if d == 0:
                    return k, 0
                if d < 0:
                    return None
                if isinstance(n, int) and d < n:
                    return k, d
            acc = _add(acc, n)
        return (len(self._segs), 0) if _same(p, acc) else None

    def located(self, i, j):
        """self[i:j] if both positions are known in terms of the segments."""
        b = self
        if len(self._segs) == 1 and type(self._segs[0]) is Seg and self._segs[0].blob.base is not None:
            s = self._segs[0]
            b = s.blob.base
            i, j = _add(s.off, i), _add(s.off, j)
        if len(b._segs) == 1 and type(b._segs[0]) is Seg:
            return None
        x = b.seat(i)
        if x is None:
            return None
        y = b.seat(j)
        if y is None:
            return None
        out = []
        for k in range(x[0], min(y[0] + 1, len(b._segs))):
            s = b._segs[k]
            lo = x[1] if k == x[0] else 0
            if isinstance(s, list):
                out.append(s[lo:y[1]] if k == y[0] else s[lo:])
            elif k < y[0]:
                out.append(Seg(s.blob, _add(s.off, lo), _sub(s.ln, lo)))
            elif y[1] != lo:
                out.append(Seg(s.blob, _add(s.off, lo), y[1] - lo))
        return type(self)(out)

    def _clamp(self, i, n, default):
        if i is None:
            return default
        if not _intlike(i):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        i = _ex(zi(i)) if is_sym(i) else int(i)
        if _lt(i, 0):
            i = _add(i, n)
            if _lt(i, 0):
                return 0
            return i
        if _lt(n, i):
            return n
        return i

    def getslice(self, sl):
        step = sl.step
        if step is not None and step != 1:
            c = self.cells("extended slice")
            return self._from_cells(c[slice(_opt(sl.start), _opt(sl.stop), _opt(step))])
        n = self.slen()
        i = self._clamp(sl.start, n, 0)
        j = self._clamp(sl.stop, n, n)
        if _same(i, 0) and _same(j, n):
            return self.simp()
        if isinstance(i, int) and isinstance(j, int):
            if i >= j:
                return self._from_cells([])
        else:
            if not _le(i, j):
                return self._from_cells([])
            i, j = fixed(i), fixed(j)
            if isinstance(i, int) and i == j:
                return self._from_cells([])
        r = self.located(i, j)
        if r is not None:
            return r.simp()
        if not (isinstance(i, int) and isinstance(j, int)):
            if not any(type(s) is IntAtom for s in self._segs):
                return self.lazy(i, j)
        r = self
        if not _same(j, n):
            r = r.cut(j)[0]
        if not _same(i, 0):
            r = r.cut(i)[1]
        for s in r._segs:
            if type(s) is Seg and s.blob.base is not None and isinstance(s.off, int) and isinstance(s.ln, int):
                r.segs
                break
        return r.simp()

    @classmethod
    def _from_cells(cls, c):
        return cls([list(c)]).simp()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.getslice(i)
        n = self.slen()
        i = _ex(zi(i))
        if _lt(i, 0):
            i = _add(i, n)
        if _lt(i, 0) or not _lt(i, n):
            raise IndexError("index out of range")
        segs = self.expanded().segs
        for s in segs:
            ln = len(s) if isinstance(s, list) else s.ln
            if _lt(i, ln):
                if isinstance(s, list):
                    if not isinstance(i, int):
                        i = cur().concretise(i, "index")
                    return self._item(s[i])
                return self._item(s.blob.sel(_add(s.off, i)))
            i = _sub(i, ln)
        raise IndexError("index out of range")

    def __iter__(self):
        en = cur()
        segs = list(self.expanded().segs)
        for s in segs:
            if isinstance(s, list):
                for c in s:
                    yield self._item(c)
            else:
                i = 0
                while _lt(i, s.ln):
                    en.tick()
                    yield self._item(s.blob.sel(_add(s.off, i)))
                    i += 1

    # -- concatenation
    def __add__(self, o):
        if not self.can(o):
            return NotImplemented
        return type(self)(self._segs + self.of(o)._segs).simp()

    def __radd__(self, o):
        if not self.can(o):
            return NotImplemented
        return type(self)(self.of(o)._segs + self._segs).simp()

    def __mul__(self, n):
        return seq_repeat(self, n)

    __rmul__ = __mul__

    def join(self, it):
        return seq_join(self, it)

    # -- comparison
    def __eq__(self, o):
        if not self.can(o):
            if type(o) is type(self) or is_sym(o):
                return False
            return NotImplemented
        return seq_eq(self, self.of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(z3.Not(zb(r)))

    def __hash__(self):
        return 77002

    def _order(self, o):
        if not self.can(o):
            return None
        a, b = self.cells("ordering"), self.of(o).cells("ordering")
        for x, y in zip(a, b):
            if _lt(x, y):
                return -1
            if _lt(y, x):
                return 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r < 0

    def __le__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r <= 0

    def __gt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r > 0

    def __ge__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r >= 0

    # -- searching
    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self.getwrap(self[slice(start, end)]).startswith(p)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = self.of(p)
        n = p.slen()
        if _lt(self.slen_lazy(n), n):
            return False
        return seq_eq(self.cut(n)[0], p)

    def slen_lazy(self, need):
        # length, without expanding atoms behind a long enough prefix of cells
        if isinstance(need, int):
            n = 0
            for s in self.segs:
                if not isinstance(s, list):
                    break
                n += len(s)
                if n >= need:
                    return n
        return self.slen()

    @classmethod
    def getwrap(cls, x):
        return cls.of(x)

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self.getwrap(self[slice(start, end)]).endswith(p)
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = self.of(p)
        n, m = self.slen(), p.slen()
        if _lt(n, m):
            return False
        return seq_eq(self.cut(_sub(n, m))[1], p)

    def removeprefix(self, p):
        if self.startswith(p):
            return self.cut(self.of(p).slen())[1].simp()
        return self.simp()

    def removesuffix(self, p):
        if self.endswith(p):
            return self.cut(_sub(self.slen(), self.of(p).slen()))[0].simp()
        return self.simp()

    def toks(self, sep=None):
        """Tokens for searching a separator: items, with atoms kept whole when the separator cannot overlap a numeral."""
        out = []
        keep = sep is not None and all(isinstance(c, int) and not (48 <= c <= 57 or c == 45 or 97 <= c <= 102) for c in sep)
        for s in self.segs:
            if isinstance(s, list):
                out.extend(s)
            elif isinstance(s, IntAtom):
                if keep and s.plain():
                    out.append(s)
                else:
                    out.extend(expand_atom(s))
            else:
                if isinstance(s.ln, int):
                    out.extend(s.blob.sel(_add(s.off, i)) for i in range(s.ln))
                else:
                    unsupported("search in opaque contents")
        return out

    @classmethod
    def _from_toks(cls, t):
        segs = []
        for x in t:
            if isinstance(x, (IntAtom, Seg)):
                segs.append(x)
            else:
                segs.append([x])
        return cls(segs).simp()

    def _match_at(self, toks, i, sep):
        if i + len(sep) > len(toks):
            return False
        conds = []
        for x, y in zip(toks[i:i + len(sep)], sep):
            if isinstance(x, IntAtom):
                return False
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            else:
                conds.append(zi(x) == zi(y))
        if not conds:
            return True
        return cur().fork(z3.And(*conds))

    def _sep(self, sep):
        sep = self.of(sep).cells("separator")
        if not sep:
            raise ValueError("empty separator")
        return sep

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        sep = self._sep(sep)
        toks = self.toks(sep)
        out, curr, i = [], [], 0
        while i < len(toks):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(toks, i, sep):
                out.append(self._from_toks(curr))
                curr = []
                i += len(sep)
            else:
                curr.append(toks[i])
                i += 1
        out.append(self._from_toks(curr))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            unsupported("rsplit on whitespace")
        sep = self._sep(sep)
        toks = self.toks(sep)
        out, curr, i = [], [], len(toks)
        while i > 0:
            if len(out) < maxsplit and i >= len(sep) and self._match_at(toks, i - len(sep), sep):
                out.append(self._from_toks(curr[::-1]))
                curr = []
                i -= len(sep)
            else:
                i -= 1
                curr.append(toks[i])
        out.append(self._from_toks(curr[::-1]))
        return out[::-1]

    def _split_ws(self, maxsplit):
        if maxsplit >= 0:
            unsupported("split on whitespace with maxsplit")
        toks = self.toks([32])
        out, curr = [], []
        for t in toks:
            if not isinstance(t, IntAtom) and self._isspace_item(t):
                if curr:
                    out.append(self._from_toks(curr))
                curr = []
            else:
                curr.append(t)
        if curr:
            out.append(self._from_toks(curr))
        return out

    def _isspace_item(self, c):
        if isinstance(c, int):
            return chr(c).isspace() if self.text else bytes([c]).isspace()
        ws = (c == 32, z3.And(c >= 9, c <= 13))
        if self.text:
            ws += (z3.And(c >= 28, c <= 31), c == 0x85, c == 0xa0, c == 0x1680, z3.And(c >= 0x2000, c <= 0x200a),
                   c == 0x2028, c == 0x2029, c == 0x202f, c == 0x205f, c == 0x3000)
        return cur().fork(z3.Or(*ws))

    def partition(self, sep):
        s = self._sep(sep)
        toks = self.toks(s)
        for i in range(len(toks)):
            if self._match_at(toks, i, s):
                return self._from_toks(toks[:i]), self._from_toks(s), self._from_toks(toks[i + len(s):])
        e = "" if self.text else b""
        return self.simp(), e, e

    def rpartition(self, sep):
        s = self._sep(sep)
        toks = self.toks(s)
        for i in range(len(toks) - 1, -1, -1):
            if self._match_at(toks, i, s):
                return self._from_toks(toks[:i]), self._from_toks(s), self._from_toks(toks[i + len(s):])
        e = "" if self.text else b""
        return e, e, self.simp()

    def find(self, sub, start=0, end=None):
        if start or end is not None:
            unsupported("find with bounds")
        if isinstance(sub, int) and not self.text:
            sub = bytes([sub])
        s = self.of(sub).cells("find")
        toks = self.cells("find")
        for i in range(len(toks) - len(s) + 1):
            if self._match_at(toks, i, s):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        if not len(self.of(sub).cells()):
            return len(self) + 1
        return len(self.split(sub)) - 1

    def __contains__(self, sub):
        if _intlike(sub) and not self.text:
            for c in self.cells("in"):
                if _eqf(c, _ex(zi(sub))):
                    return True
            return False
        if not self.can(sub):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        s = self.of(sub).cells("in")
        if not s:
            return True
        toks = self.toks(s)
        return any(self._match_at(toks, i, s) for i in range(len(toks)))

    def strip(self, chars=None):
        return self.getwrap(self.lstrip(chars)).rstrip(chars)

    def _strippable(self, c, chars):
        if isinstance(c, IntAtom):
            return False
        if chars is None:
            return self._isspace_item(c)
        for x in chars:
            if _eqf(c, x):
                return True
        return False

    def _opaque(self):
        return any(isinstance(g, Seg) and not isinstance(g.ln, int) for g in self.segs)

    def _strip_opaque(self, ch, left, most=2):
        """Up to so many items of opaque contents are stripped one by one."""
        segs = list(self.segs)
        at = 0 if left else -1
        while segs:
            g = segs[at]
            if isinstance(g, IntAtom):
                if ch is None:
                    break
                g = expand_atom(g)
            if isinstance(g, list):
                g = list(g)
                while g and self._strippable(g[at], ch):
                    g.pop(at)
                segs[at] = g
                if g:
                    break
                segs.pop(at)
                continue
            if not _lt(0, g.ln):
                segs.pop(at)
                continue
            c = g.blob.sel(g.off if left else _sub(_add(g.off, g.ln), 1))
            if not self._strippable(c, ch):
                break
            most -= 1
            if most < 0:
                unsupported("stripping more of opaque contents")
            segs[at] = Seg(g.blob, _add(g.off, 1) if left else g.off, _sub(g.ln, 1))
        return type(self)(segs).simp()

    def lstrip(self, chars=None):
        ch = None if chars is None else self.of(chars).cells()
        if self._opaque():
            return self._strip_opaque(ch, True)
        t = self.toks([32] if ch is None else ch)
        while t and self._strippable(t[0], ch):
            t.pop(0)
        return self._from_toks(t)

    def rstrip(self, chars=None):
        ch = None if chars is None else self.of(chars).cells()
        if self._opaque():
            return self._strip_opaque(ch, False)
        t = self.toks([32] if ch is None else ch)
        while t and self._strippable(t[-1], ch):
            t.pop()
        return self._from_toks(t)

    def replace(self, a, b, n=-1):
        parts = self.split(a, n)
        return seq_join(self.of(b), parts)

    def lower(self):
        return self._map_case(65, 90, 32)

    def upper(self):
        return self._map_case(97, 122, -32)

    def _map_case(self, lo, hi, d):
        out = []
        for c in self.cells("case"):
            if isinstance(c, int):
                if self.text and c > 127:
                    r = chr(c).lower() if d > 0 else chr(c).upper()
                    out.extend(map(ord, r))
                else:
                    out.append(c + d if lo <= c <= hi else c)
            else:
                if self.text and not cur().must(c < 128):
                    unsupported("case mapping outside ASCII")
                out.append(z3.simplify(z3.If(z3.And(c >= lo, c <= hi), c + d, c)))
        return self._from_cells(out)

    def _pad(self, width, fill, left):
        n = self.slen()
        if not isinstance(n, int):
            unsupported("padding of opaque contents")
        f = [ord(fill) if self.text else fill[0]] * max(0, width - n)
        return type(self)([f] + self.segs if left else self.segs + [f]).simp()

    def rjust(self, width, fill=None):
        return self._pad(width, fill or (" " if self.text else b" "), True)

    def ljust(self, width, fill=None):
        return self._pad(width, fill or (" " if self.text else b" "), False)

    def zfill(self, width):
        return self._pad(width, "0" if self.text else b"0", True)

    def isspace(self):
        c = self.cells("isspace")
        return bool(c) and all(self._isspace_item(x) for x in c)

    def isdigit(self):
        c = self.cells("isdigit")
        if not c:
            return False
        for x in c:
            if isinstance(x, int):
                if not (chr(x).isdigit() if self.text else 48 <= x <= 57):
                    return False
            else:
                if cur().fork(z3.And(x >= 48, x <= 57)):
                    continue
                if self.text and not cur().must(x < 128):
                    if cur().fork(x >= 128):
                        unsupported("isdigit outside ASCII")
                return False
        return True

    isdecimal = isnumeric = isdigit

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        unsupported("pickle of symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _opt(x):
    return x if x is None else _const(x, "slice bound")


def seq_repeat(s, n):
    if isinstance(s, (list, tuple)):
        return s * cur().concretise(zi(n), "repeat count")
    cls = SymStr if isinstance(s, str) else SymBytes
    s = cls.of(s)
    if is_sym(n):
        n = cur().concretise(zi(n), "repeat count")
    return cls(s.segs * max(0, n)).simp()


def seq_join(sep, it):
    cls = type(sep) if is_sym(sep) else (SymStr if isinstance(sep, str) else SymBytes)
    sep = cls.of(sep)
    segs = []
    for i, x in enumerate(it):
        if not cls.can(x):
            raise TypeError("sequence item %d: expected %s instance, %s found" % (i, "str" if cls.text else "a bytes-like object", type(x).__name__))
        if i:
            segs.extend(sep._segs)
        segs.extend(cls.of(x)._segs)
    return cls(segs).simp()


def _head_is_nondigit(segs, i):
    """The rope ends at i or goes on with a concrete non-digit cell."""
    if i >= len(segs):
        return True
    s = segs[i]
    return isinstance(s, list) and isinstance(s[0], int) and not 48 <= s[0] <= 57


def seq_eq(a, b):
    """Equality of two ropes of the same kind as a bool or SymBool; may fork on the alignment of segments."""
    en = cur()
    if a is b:
        return True
    x, y = a._segs, b._segs
    if len(x) == 1 and len(y) == 1 and type(x[0]) is Seg and type(y[0]) is Seg and x[0].blob is y[0].blob:
        if _same(x[0].off, y[0].off) and _same(x[0].ln, y[0].ln):
            return True
    x, y = list(a.segs), list(b.segs)
    conds = []
    atoms = any(isinstance(s, IntAtom) for s in x + y)
    if not atoms:
        la, lb = a.slen(), b.slen()
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
        elif not _same(la, lb):
            if not en.fork(zi(la) == zi(lb)):
                return False
    while True:
        while x and isinstance(x[0], list) and not x[0]:
            x.pop(0)
        while y and isinstance(y[0], list) and not y[0]:
            y.pop(0)
        if not x or not y:
            for r in (x, y):
                for s in r:
                    if isinstance(s, (list, IntAtom)):
                        return False
                    if not isinstance(s.ln, int):
                        if en.fork(s.ln > 0):
                            return False
                    elif s.ln > 0:
                        return False
            break
        s, t = x[0], y[0]
        if isinstance(s, IntAtom) and isinstance(t, IntAtom):
            if s.plain() and t.plain() and _head_is_nondigit(x, 1) and _head_is_nondigit(y, 1):
                conds.append(s.e == t.e)
                x.pop(0)
                y.pop(0)
                continue
            if (s.base, s.width, s.fill) == (t.base, t.width, t.fill) and z3.simplify(s.e).eq(z3.simplify(t.e)):
                x.pop(0)
                y.pop(0)
                continue
        if isinstance(s, IntAtom):
            x[0] = expand_atom(s)
            continue
        if isinstance(t, IntAtom):
            y[0] = expand_atom(t)
            continue
        if isinstance(s, list) and isinstance(t, list):
            k = min(len(s), len(t))
            for p, q in zip(s[:k], t[:k]):
                if isinstance(p, int) and isinstance(q, int):
                    if p != q:
                        return False
                elif not (not isinstance(p, int) and not isinstance(q, int) and p.eq(q)):
                    conds.append(zi(p) == zi(q))
            x[0] = s[k:]
            y[0] = t[k:]
            continue
        if isinstance(s, Seg) and isinstance(t, Seg):
            for z, w in ((s, x), (t, y)):
                if _eqf(z.ln, 0):
                    w.pop(0)
                    break
            else:
                if not _le(s.ln, t.ln):
                    s, t, x, y = t, s, y, x
                n = s.ln
                if s.blob is t.blob and (_same(s.off, t.off) or en.must(zi(s.off) == zi(t.off))):
                    pass
                else:
                    # contents differ in general: they are equal only if every element is
                    i = z3.Int(en.fresh_name("k"))
                    conds.append(z3.ForAll([i], z3.Implies(
                        z3.And(i >= 0, i < zi(n)),
                        z3.Select(s.blob.arr, zi(s.off) + i) == z3.Select(t.blob.arr, zi(t.off) + i))))
                    for v in (s, t):
                        v.blob.sel(v.off)
                x.pop(0)
                if _same(n, t.ln) or en.fork(zi(n) == zi(t.ln)):
                    y.pop(0)
                else:
                    y[0] = Seg(t.blob, _add(t.off, n), _sub(t.ln, n))
            continue
        # one list, one blob segment
        if isinstance(s, Seg):
            s, t, x, y = t, s, y, x
        k = len(s)
        whole = False
        if _eqf(t.ln, 0):
            y.pop(0)
            continue
        if isinstance(t.ln, int) or en.must(zi(t.ln) >= k) or not en.fork(zi(t.ln) < k):
            n = min(k, t.ln) if isinstance(t.ln, int) else k
        else:
            n = en.concretise(t.ln, "alignment")
            whole = True
        for i in range(n):
            e = t.blob.sel(_add(t.off, i))
            conds.append(e == zi(s[i]))
        x[0] = s[n:]
        y[0] = Seg(t.blob, _add(t.off, n), 0 if whole else _sub(t.ln, n))
        if isinstance(y[0].ln, int) and y[0].ln == 0:
            y.pop(0)
    if not conds:
        return True
    return mk_bool(z3.And(*conds))


class SymBytes(SymSeq):
    __slots__ = ()

    @property
    def __class__(self):
        return bytes

    def _item(self, c):
        return mk_int(c)

    def decode(self, encoding="utf-8", errors="strict"):
        return bytes_decode(self, encoding, errors)

    def hex(self, *a):
        out = []
        for c in self.cells("hex"):
            out.append(IntAtom(zi(c), 16, 2, "0"))
        return SymStr([expand_atom(a) for a in out]).simp()

    def tobytes(self):
        return self

    def __bytes__(self):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __mod__(self, o):
        unsupported("bytes % formatting")


class SymStr(SymSeq):
    __slots__ = ()
    text = True

    @property
    def __class__(self):
        return str

    def _item(self, c):
        return SymStr([[c]]).simp()

    def encode(self, encoding="utf-8", errors="strict"):
        return str_encode(self, encoding, errors)

    def format(self, *a, **k):
        unsupported("format string is symbolic")

    def __mod__(self, o):
        from . import rt
        return rt.str_mod(self, o)

    def isascii(self):
        return all(cur().fork(zi(c) < 128) for c in self.cells("isascii"))

    def casefold(self):
        return self.lower()


def _is_utf8(enc):
    return enc.lower().replace("_", "-") in ("utf-8", "utf8", "u8", "cp65001")


def _is_sig(enc):
    return enc in ("utf-8-sig", "utf8-sig")


def str_encode(s, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    if _is_sig(enc):
        return b"\xef\xbb\xbf" + str_encode(s, "utf-8", errors)
    utf8 = _is_utf8(enc)
    limit = None
    if not utf8:
        if enc in ("ascii", "us-ascii"):
            limit = 128
        elif enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
            limit = 256
        elif all(isinstance(g, list) and all(isinstance(c, int) for c in g) for g in s.segs):
            return "".join(chr(c) for g in s.segs for c in g).encode(encoding, errors)
        else:
            unsupported("encode to " + encoding)
    if errors != "strict":
        unsupported("encode errors=" + errors)
    en = cur()
    segs = []
    for g in s.segs:
        if isinstance(g, IntAtom):
            segs.append(expand_atom(g))
        elif isinstance(g, Seg):
            if not utf8:
                unsupported("encode of opaque text to " + encoding)
            if not g.whole():
                unsupported("encode of part of opaque text")
            b = g.blob.enc
            if b is None:
                ln = z3.Int(g.blob.name + ".enclen")
                en.add(z3.And(ln >= zi(g.blob.length), ln <= 4 * zi(g.blob.length)))
                b = g.blob.enc = Blob(g.blob.name + ".enc", "b", ln, src=g.blob)
            segs.append(Seg(b, 0, b.length))
        else:
            out = []
            for c in g:
                if limit:
                    if _lt(c, limit):
                        out.append(c)
                    else:
                        raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
                    continue
                if isinstance(c, int):
                    out.extend(chr(c).encode("utf-8"))
                    continue
                if en.fork(c < 0x80):
                    out.append(c)
                elif en.fork(c < 0x800):
                    q, r = _divmod_const(c, 64)
                    out += [z3.simplify(q + 0xc0), z3.simplify(r + 0x80)]
                elif en.fork(c < 0x10000):
                    if en.fork(z3.And(c >= 0xd800, c <= 0xdfff)):
                        raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                    q, r = _divmod_const(c, 64)
                    q2, r2 = _divmod_const(q, 64)
                    out += [z3.simplify(q2 + 0xe0), z3.simplify(r2 + 0x80), z3.simplify(r + 0x80)]
                else:
                    q, r = _divmod_const(c, 64)
                    q2, r2 = _divmod_const(q, 64)
                    q3, r3 = _divmod_const(q2, 64)
                    out += [z3.simplify(q3 + 0xf0), z3.simplify(r3 + 0x80), z3.simplify(r2 + 0x80), z3.simplify(r + 0x80)]
            segs.append(out)
    return SymBytes(segs).simp()


def bytes_decode(b, encoding="utf-8", errors="strict"):
    en = cur()
    enc = encoding.lower().replace("_", "-")
    if _is_sig(enc):
        t = bytes_decode(b, "utf-8", errors)
        return t[1:] if len(t) > 0 and t[0] == "\ufeff" else t
    utf8 = _is_utf8(enc)
    strict = errors == "strict"
    segs = []
    items = []

    def bad():
        if strict:
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid")
        unsupported("decode errors=" + errors)

    def flush():
        if not items:
            return
        out = []
        i = 0
        n = len(items)

        def cont(j, lo=0x80, hi=0xbf):
            if j >= n:
                return False
            c = items[j]
            if isinstance(c, int):
                return lo <= c <= hi
            return en.fork(z3.And(c >= lo, c <= hi))

        def rng(c, lo, hi):
            if isinstance(c, int):
                return lo <= c <= hi
            return en.fork(z3.And(c >= lo, c <= hi))
        while i < n:
            c = items[i]
            if not utf8:
                if enc in ("ascii", "us-ascii"):
                    if not rng(c, 0, 127):
                        bad()
                out.append(c)
                i += 1
                continue
            if rng(c, 0, 0x7f):
                out.append(c)
                i += 1
            elif rng(c, 0xc2, 0xdf):
                if not cont(i + 1):
                    bad()
                out.append(z3.simplify((zi(c) - 0xc0) * 64 + (zi(items[i + 1]) - 0x80)))
                i += 2
            elif rng(c, 0xe0, 0xef):
                if rng(c, 0xe0, 0xe0):
                    ok = cont(i + 1, 0xa0, 0xbf)
                elif rng(c, 0xed, 0xed):
                    ok = cont(i + 1, 0x80, 0x9f)
                else:
                    ok = cont(i + 1)
                if not ok or not cont(i + 2):
                    bad()
                out.append(z3.simplify(((zi(c) - 0xe0) * 64 + (zi(items[i + 1]) - 0x80)) * 64 + (zi(items[i + 2]) - 0x80)))
                i += 3
            elif rng(c, 0xf0, 0xf4):
                if rng(c, 0xf0, 0xf0):
                    ok = cont(i + 1, 0x90, 0xbf)
                elif rng(c, 0xf4, 0xf4):
                    ok = cont(i + 1, 0x80, 0x8f)
                else:
                    ok = cont(i + 1)
                if not ok or not cont(i + 2) or not cont(i + 3):
                    bad()
                out.append(z3.simplify((((zi(c) - 0xf0) * 64 + (zi(items[i + 1]) - 0x80)) * 64 +
                                        (zi(items[i + 2]) - 0x80)) * 64 + (zi(items[i + 3]) - 0x80)))
                i += 4
            else:
                bad()
        segs.append([x.as_long() if not isinstance(x, int) and z3.is_int_value(x) else x for x in out])
        items.clear()

    if not utf8 and enc not in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        v = b.simp()
        if not is_sym(v):
            return v.decode(encoding, errors)
        unsupported("decode from " + encoding)
    for g in b.segs:
        if isinstance(g, list):
            items.extend(g)
        elif isinstance(g, Seg):
            flush()
            if g.blob.src is not None and utf8 and g.must_whole():
                segs.append(Seg(g.blob.src, 0, g.blob.src.length))
            elif isinstance(g.ln, int) or cur().must(zi(g.ln) <= 8):
                items.extend(SymBytes([g]).cells("decode"))
            else:
                unsupported("decode of opaque bytes")
    flush()
    return SymStr(segs).simp()


def int_to_bytes(x, length, byteorder, signed):
    en = cur()
    e = zi(x)
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if length == 0:
        lo = hi = 0
    if not en.fork(z3.And(e >= lo, e <= hi)):
        raise OverflowError("int too big to convert")
    return pack_int(e, length, byteorder != "little", signed)


def pack_int(e, size, big, signed):
    """Bytes of an in-range integer; fresh byte variables defined by a linear equation with a unique solution."""
    en = cur()
    e = z3.simplify(e) if not isinstance(e, int) else e
    if isinstance(e, int) or z3.is_int_value(e):
        v = e if isinstance(e, int) else e.as_long()
        return v.to_bytes(size, "big" if big else "little", signed=signed)
    if size == 1 and not signed:
        return SymBytes([[e]])
    key = ("pk", e.get_id(), size, signed)
    hit = en.defs.get(key)
    if hit is None:
        bs = [z3.Int(en.fresh_name("b")) for _ in range(size)]
        tot = Z(0)
        for b in bs:
            tot = tot * 256 + b
        u = z3.If(e < 0, e + (1 << (8 * size)), e) if signed else e
        en.add(z3.And(u == tot, *[z3.And(b >= 0, b <= 255) for b in bs]))
        en.defs[key] = hit = (bs, e)
        for i, b in enumerate(bs):
            en.packs[b.get_id()] = (e, size, signed, i, b)
    bs = hit[0]
    return SymBytes([list(bs) if big else list(reversed(bs))])


def unpack_int(cells, big, signed):
    en = cur()
    if not big:
        cells = list(reversed(cells))
    size = len(cells)
    if all(isinstance(c, int) for c in cells):
        return int.from_bytes(bytes(cells), "big", signed=signed)
    p = None if isinstance(cells[0], int) else en.packs.get(cells[0].get_id())
    if p is not None and p[1] == size and p[3] == 0:
        ok = True
        for i, c in enumerate(cells):
            q = None if isinstance(c, int) else en.packs.get(c.get_id())
            if q is None or q[3] != i or q[0] is not p[0] or q[1] != size or q[2] != p[2]:
                ok = False
                break
        if ok:
            e, sg = p[0], p[2]
            if sg == signed:
                return mk_int(e)
            if signed:
                return mk_int(z3.If(e >= (1 << (8 * size - 1)), e - (1 << (8 * size)), e))
            return mk_int(z3.If(e < 0, e + (1 << (8 * size)), e))
    tot = Z(0)
    for c in cells:
        tot = tot * 256 + zi(c)
    if signed:
        tot = z3.If(tot >= (1 << (8 * size - 1)), tot - (1 << (8 * size)), tot)
    return mk_int(tot)


def int_of_str(s, base=10):
    """int(text) for a rope."""
    if base == 10 and len(s.segs) == 1 and isinstance(s.segs[0], IntAtom) and s.segs[0].plain():
        return mk_int(s.segs[0].e)
    if base != 10:
        unsupported("int() with base %r" % (base,))
    en = cur()
    t = s.strip()
    t = s.of(t) if not is_sym(t) else t
    if len(t.segs) == 1 and isinstance(t.segs[0], IntAtom) and t.segs[0].plain():
        return mk_int(t.segs[0].e)
    c = t.cells("int()")

    def isd(x):
        if isinstance(x, int):
            if x > 127 and chr(x).isdecimal():
                unsupported("non-ASCII digits")
            return 48 <= x <= 57
        if en.fork(z3.And(x >= 48, x <= 57)):
            return True
        if type(s) is SymStr and not en.must(x < 128):
            if en.fork(x >= 128):
                unsupported("int() of non-ASCII text")
        return False
    i = 0
    neg = False
    if i < len(c):
        if _eqf(c[i], 45):
            neg = True
            i = 1
        elif _eqf(c[i], 43):
            i = 1
    if i >= len(c):
        raise ValueError("invalid literal for int() with base 10")
    v = Z(0)
    prev_us = True
    while i < len(c):
        if isd(c[i]):
            v = v * 10 + (zi(c[i]) - 48)
            prev_us = False
        elif _eqf(c[i], 95) and not prev_us and i + 1 < len(c):
            prev_us = True
        else:
            raise ValueError("invalid literal for int() with base 10")
        i += 1
    if prev_us:
        raise ValueError("invalid literal for int() with base 10")
    return mk_int(-v if neg else v)


def str_of(x):
    """str(x) for a symbolic or native value."""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr([IntAtom(x.e)])
    if t is SymBool:
        return "True" if bool(x) else "False"
    if t is SymBytes:
        unsupported("str() of symbolic bytes")
    if t is SymReal:
        unsupported("str() of symbolic real")
    return str(x)


class ByteArr(Sym):
    """bytearray stand-in holding a bytes rope."""
    __slots__ = ("val",)

    def __init__(self, val=b""):
        self.val = val

    @property
    def __class__(self):
        return bytearray

    def sxlen(self):
        return self.val.sxlen() if is_sym(self.val) else len(self.val)

    def __len__(self):
        return len(self.val)

    def __bool__(self):
        return bool(self.val)

    def append(self, c):
        self.val = self.val + SymBytes([[_ex(zi(c))]]).simp()

    def extend(self, o):
        if not SymBytes.can(o):
            o = SymBytes([[_ex(zi(c)) for c in o]])
        self.val = SymBytes.of(self.val) + o

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return ByteArr(SymBytes.of(self.val) + SymBytes.of(o))

    def __radd__(self, o):
        return SymBytes.of(o) + SymBytes.of(self.val)

    def __eq__(self, o):
        if not SymBytes.can(o):
            return NotImplemented
        return seq_eq(SymBytes.of(self.val), SymBytes.of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(z3.Not(zb(r)))

    __hash__ = None

    def __getitem__(self, i):
        r = SymBytes.of(self.val)[i]
        return ByteArr(r) if isinstance(i, slice) else r

    def plain(self):
        return self.val

    def __setitem__(self, i, v):
        s = SymBytes.of(self.val)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                unsupported("bytearray step assignment")
            a = 0 if i.start is None else i.start
            b = s.sxlen() if i.stop is None else i.stop
            if a < 0 or b < 0:
                unsupported("bytearray assignment from the end")
            if b < a:
                b = a
            new = SymBytes.of(v if SymBytes.can(v) else bytes(v))
            self.val = SymBytes.of(SymBytes.of(s[:a]) + new) + SymBytes.of(s[b:])
            return
        if i < 0:
            i = i + s.sxlen()
        if i < 0 or i >= s.sxlen():
            raise IndexError("bytearray index out of range")
        self.val = SymBytes.of(SymBytes.of(s[:i]) + SymBytes([[_ex(zi(v))]])) + SymBytes.of(s[i + 1:])

    def __delitem__(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and i.step is None and i.stop is not None:
            self.val = SymBytes.of(self.val)[i.stop:]
            return
        if isinstance(i, slice) and i == slice(None):
            self.val = b""
            return
        unsupported("bytearray item deletion")

    def __iter__(self):
        return iter(SymBytes.of(self.val)) if is_sym(self.val) else iter(self.val)

    def clear(self):
        self.val = b""

    def copy(self):
        return ByteArr(self.val)

    def __bytes__(self):
        return self.val

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(SymBytes.of(self.val), n)


class MemView(Sym):
    """memoryview stand-in over a bytes rope or a bytearray stand-in."""
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo=0, hi=None):
        self.base = base
        self.lo = lo
        self.hi = base.sxlen() if hi is None else hi

    @property
    def __class__(self):
        return memoryview

    def plain(self):
        b = self.base.plain() if type(self.base) is ByteArr else self.base
        return SymBytes.of(b)[self.lo:self.hi]

    tobytes = plain

    def sxlen(self):
        return self.hi - self.lo

    @property
    def nbytes(self):
        return self.sxlen()

    def __len__(self):
        return len(SymBytes.of(self.plain()))

    def __bool__(self):
        return bool(self.sxlen() > 0)

    def __eq__(self, o):
        if not SymBytes.can(o):
            return NotImplemented
        return seq_eq(SymBytes.of(self.plain()), SymBytes.of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(z3.Not(zb(r)))

    __hash__ = None

    def _range(self, i):
        if i.step not in (None, 1):
            unsupported("memoryview step")
        n = self.sxlen()
        ends = []
        for x, d in ((i.start, 0), (i.stop, n)):
            if x is None:
                x = d
            elif x < 0:
                x = x + n
                x = 0 if x < 0 else x
            elif x > n:
                x = n
            ends.append(x)
        a, b = ends
        return a, (a if b < a else b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = self._range(i)
            return MemView(self.base, self.lo + a, self.lo + b)
        return SymBytes.of(self.plain())[i]

    def __setitem__(self, i, v):
        if type(self.base) is not ByteArr:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            a, b = self._range(i)
            n = SymBytes.of(v).sxlen()
            if not (n == b - a):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.base[self.lo + a:self.lo + b] = v
            return
        self.base[self.lo + i] = v

    def __iter__(self):
        return iter(SymBytes.of(self.plain()))

    def __bytes__(self):
        return self.plain()

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class BytesIOModel(Sym):
    """io.BytesIO stand-in."""
    __slots__ = ("val", "pos", "closed")

    def __init__(self, initial=b""):
        self.val = initial
        self.pos = 0
        self.closed = False

    @property
    def __class__(self):
        import io
        return io.BytesIO

    def write(self, b):
        b = SymBytes.of(b)
        n = b.sxlen()
        ln = SymBytes.of(self.val).sxlen()
        if not (self.pos == ln):
            unsupported("BytesIO overwrite")
        self.val = SymBytes.of(self.val) + b
        self.pos = self.pos + n
        return n

    def getvalue(self):
        return self.val

    def getbuffer(self):
        return self.val

    def read(self, n=-1):
        v = SymBytes.of(self.val)
        r = v[self.pos:] if n is None or n < 0 else v[self.pos:self.pos + n]
        self.pos = self.pos + SymBytes.of(r).sxlen()
        return r

    read1 = read

    def seek(self, p, whence=0):
        if whence == 2:
            p = SymBytes.of(self.val).sxlen() + p
        elif whence == 1:
            p = self.pos + p
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.val = SymBytes.of(self.val)[:n]
        return n

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False
