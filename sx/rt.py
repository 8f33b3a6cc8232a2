"""Runtime of the rewritten code: what a call, subscript, %, `in` ... does when symbolic values are involved. With only
native values everything falls through to the native operation."""
import abc
import builtins
import collections
import enum
import io
import itertools
import string
import struct
import traceback
import types

import z3

from . import engine as E
from . import structmodel
from .engine import cur
from .values import (ByteArr, MemView, BytesIOModel, IntAtom, Seg, Sym, SymBool, SymBytes, SymInt, SymReal, SymStr, expand_atom,
                     has_sym, int_of_str, is_sym, mk_bool, mk_int, seq_join, seq_eq, str_of, unsupported, zb, zi,
                     int_to_bytes, unpack_int, _ex)

PLACEHOLDER = "<sym>"


def tick():
    en = E.CURRENT
    if en is not None:
        en.tick()


FUNCTIONS = set()


def enter(fn):
    en = E.CURRENT
    if en is not None:
        FUNCTIONS.add(fn)
        en.tick()


def pending():
    en = E.CURRENT
    if en is not None:
        en.check_pending()


def truth(x):
    t = type(x)
    if t is bool or x is None:
        return x
    if issubclass(t, dict) and type(t.__dict__.get("__len__")) is types.FunctionType:
        n = sx_len(x)
        return bool(n != 0)
    return x


# ------------------------------------------------------------------------------------------------- mappings

def _symkeys(d):
    for k in dict.keys(d):
        if has_sym(k):
            return True
    return False


def dict_find(d, key):
    """The stored key equal to `key`, or _NO. Case-splits on symbolic equality."""
    ks = has_sym(key)
    if not ks and not _symkeys(d):
        return key if dict.__contains__(d, key) else _NO
    tk = type(key)
    for k in list(dict.keys(d)):
        if k is key:
            return k
        if not ks and not has_sym(k):
            if type(k) is tk or not is_sym(k):
                try:
                    if hash(k) == hash(key) and k == key:
                        return k
                except TypeError:
                    pass
            continue
        if key_eq(k, key):
            return k
    return _NO


def key_eq(a, b):
    r = a == b
    return bool(r)


class _No(object):
    pass


_NO = _No()


def _is_symdict_op(d, key):
    return has_sym(key) or _symkeys(d)


def _missing(d, key):
    m = getattr(type(d), "__missing__", None)
    if m is not None:
        return m(d, key)
    raise KeyError(key)


def raw_get(d, key):
    k = dict_find(d, key)
    if k is _NO:
        return _missing(d, key)
    return dict.__getitem__(d, k)


def _raw(d, name):
    return getattr(collections.OrderedDict if isinstance(d, collections.OrderedDict) else dict, name)


def raw_set(d, key, val):
    k = dict_find(d, key)
    _raw(d, "__setitem__")(d, key if k is _NO else k, val)


def raw_del(d, key):
    k = dict_find(d, key)
    if k is _NO:
        raise KeyError(key)
    _raw(d, "__delitem__")(d, k)


def raw_contains(d, key):
    return dict_find(d, key) is not _NO


def _overrides(d, name):
    return type(getattr(type(d), name, None)) is types.FunctionType


def sx_getitem(o, i):
    if isinstance(o, dict):
        if not _overrides(o, "__getitem__") and _is_symdict_op(o, i):
            return raw_get(o, i)
        return o[i]
    if type(i) is slice and not is_sym(o):
        if has_sym((i.start, i.stop, i.step)):
            if isinstance(o, (bytes, bytearray, memoryview)):
                return SymBytes.of(o)[i]
            if isinstance(o, str):
                return SymStr.of(o)[i]
    elif type(i) is SymInt:
        if isinstance(o, (bytes, bytearray)) and not is_sym(o):
            return SymBytes.of(o)[i]
    return o[i]


def sx_setitem(v, o, i):
    if isinstance(o, dict) and not _overrides(o, "__setitem__") and _is_symdict_op(o, i):
        raw_set(o, i, v)
        return
    o[i] = v


def sx_delitem(o, i):
    if isinstance(o, dict) and not _overrides(o, "__delitem__") and _is_symdict_op(o, i):
        raw_del(o, i)
        return
    del o[i]


def sx_augitem(o, i, op, v):
    import operator
    fn = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
          "BitAnd": operator.iand, "LShift": operator.ilshift, "RShift": operator.irshift, "Mod": sx_mod,
          "FloorDiv": operator.ifloordiv, "Div": operator.itruediv, "BitXor": operator.ixor, "Pow": operator.ipow,
          "MatMult": operator.imatmul}[op]
    sx_setitem(fn(sx_getitem(o, i), v), o, i)


def sx_in(x, c):
    if isinstance(c, dict):
        if _overrides(c, "__contains__") or not _is_symdict_op(c, x):
            return x in c
        return raw_contains(c, x)
    tc = type(c)
    if tc is types.MappingProxyType or isinstance(c, collections.abc.KeysView):
        if has_sym(x):
            return any(key_eq(k, x) for k in list(c))
        return x in c
    if tc in (set, frozenset):
        if has_sym(x) or any(has_sym(k) for k in c):
            return any(key_eq(k, x) for k in list(c))
        return x in c
    if isinstance(c, enum.EnumMeta):
        if type(x) in (SymInt, SymBool):
            return any(key_eq(m.value, x) for m in c)
        return x in c
    if is_sym(c):
        return c.__contains__(x)
    if is_sym(x):
        if isinstance(c, str):
            if type(x) is not SymStr:
                raise TypeError("'in <string>' requires string as left operand")
            return SymStr.of(c).__contains__(x)
        if isinstance(c, (bytes, bytearray)):
            return SymBytes.of(c).__contains__(x)
        if tc is range:
            return sx_in_range(x, c)
    return x in c


def sx_in_range(x, r):
    if type(x) not in (SymInt, SymBool):
        return x in r
    lo, hi, st = r.start, r.stop, r.step
    if st > 0:
        c = z3.And(zi(x) >= lo, zi(x) < hi)
    else:
        c = z3.And(zi(x) <= lo, zi(x) > hi)
    if abs(st) != 1:
        c = z3.And(c, (zi(x) - lo) % abs(st) == 0)
    return mk_bool(c)


def sx_notin(x, c):
    r = sx_in(x, c)
    if type(r) is SymBool:
        return mk_bool(z3.Not(r.e))
    return not r


def sx_is(a, b):
    if type(a) is SymBool:
        return bool(a) is b
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def sx_slice(a, b, c):
    return slice(a, b, c)


def sx_dict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k in p[0].keys():
                raw_set(d, k, p[0][k])
        elif has_sym(p[0]) or _symkeys(d):
            raw_set(d, p[0], p[1])
        else:
            d[p[0]] = p[1]
    return d


# ------------------------------------------------------------------------------------------------- formatting

def text_of(x):
    """str(x) usable inside a larger text. Bytes and composite values are shown as a placeholder (log messages only)."""
    t = type(x)
    if t in (SymBytes, SymReal, ByteArr, MemView):
        return PLACEHOLDER
    if t in (SymStr, SymInt, SymBool):
        return str_of(x)
    return sx_str(x)


def fmt_one(v, conv, spec):
    if conv in (114, "r", 97, "a"):
        if type(v) in (SymInt, SymBool):
            v = str_of(v)
        else:
            v = sx_repr(v)
    elif conv in (115, "s"):
        v = text_of(v)
    if not is_sym(v):
        if is_sym(spec):
            unsupported("symbolic format spec")
        if spec == "" and type(v) is not str:
            f = type(v).__format__
            if f is object.__format__ or f in (int.__format__,):
                return sx_str(v) if not isinstance(v, (int, float)) else format(v, spec)
        return native_text(lambda x: format(x, spec), v)
    if is_sym(spec):
        unsupported("symbolic format spec")
    if spec == "":
        return text_of(v)
    t = type(v)
    if t is SymStr:
        m = spec
        if m.endswith("s"):
            m = m[:-1]
        if m == "":
            return v
        fill, align = " ", "<"
        if len(m) > 1 and m[1] in "<>":
            fill, align, m = m[0], m[1], m[2:]
        elif m[0] in "<>":
            align, m = m[0], m[1:]
        if m.isdigit():
            return v.ljust(int(m), fill) if align == "<" else v.rjust(int(m), fill)
        unsupported("format spec " + spec)
    if t is SymBool:
        v = SymInt(zi(v))
        t = SymInt
    if t is SymInt:
        base = 10
        m = spec
        up = False
        if m[-1:] in "dxX":
            up = m[-1:] == "X"
            base = 10 if m[-1] == "d" else 16
            m = m[:-1]
        fill = " "
        if len(m) > 1 and m[1] == ">":
            fill, m = m[0], m[2:]
        elif m[:1] == ">":
            m = m[1:]
        elif m[:1] == "0" and len(m) > 1:
            fill, m = "0", m[1:]
        if m == "":
            r = SymStr([IntAtom(v.e, base)])
        elif m.isdigit():
            w = int(m)
            if fill == "0" and not cur().must(v.e >= 0) and cur().fork(v.e < 0):
                unsupported("zero padded negative number")
            r = SymStr([IntAtom(v.e, base, w, fill)])
        else:
            unsupported("format spec " + spec)
        return r.upper() if up else r
    return PLACEHOLDER


def concat(parts):
    if any(is_sym(p) for p in parts):
        return seq_join("", parts)
    return "".join(parts)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            out.append(fmt_one(p[0], -1 if p[1] == -1 else p[1], p[2]))
    return concat(out)


class _Fmt(string.Formatter):
    def get_field(self, field_name, args, kwargs):
        import _string
        first, rest = _string.formatter_field_name_split(field_name)
        obj = self.get_value(first, args, kwargs)
        for is_attr, i in rest:
            obj = sx_getattr(obj, i) if is_attr else sx_getitem(obj, i)
        return obj, first


def str_format(s, args, kwargs):
    out = []
    auto = 0
    f = _Fmt()
    for lit, field, spec, conv in f.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = f.get_field(field, args, kwargs)
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
        out.append(fmt_one(obj, conv or "", spec or ""))
    return concat(out)


def str_mod(s, o):
    if is_sym(s):
        unsupported("symbolic % format")
    args = list(o) if isinstance(o, tuple) else None
    mapping = o if args is None else None
    single = [o] if args is None else args
    out = []
    i = 0
    n = len(s)
    used = 0
    while i < n:
        j = s.find("%", i)
        if j < 0:
            out.append(s[i:])
            break
        out.append(s[i:j])
        j += 1
        key = None
        if s[j] == "(":
            k = s.index(")", j)
            key = s[j + 1:k]
            j = k + 1
        k = j
        while s[k] in "#0- +":
            k += 1
        flags = s[j:k]
        j = k
        while s[k].isdigit() or s[k] in ".*":
            k += 1
        width = s[j:k]
        c = s[k]
        i = k + 1
        if c == "%":
            out.append("%")
            continue
        if key is not None:
            v = sx_getitem(mapping, key)
        else:
            if used >= len(single):
                raise TypeError("not enough arguments for format string")
            v = single[used]
            used += 1
        if "*" in width:
            unsupported("* in format")
        if not is_sym(v):
            if c == "s" and type(v) is not str and not flags and not width:
                out.append(sx_str(v))
            else:
                out.append(("%" + flags + width + c) % (v,))
            continue
        t = type(v)
        if c in "sr":
            r = text_of(v)
            if width:
                if not width.isdigit():
                    unsupported("format precision")
                r = SymStr.of(r)
                r = r.ljust(int(width)) if "-" in flags else r.rjust(int(width))
            out.append(r)
        elif c in "dixX":
            if t is SymReal:
                v = v.__trunc__()
                t = type(v)
                if t is not SymInt:
                    out.append(("%" + flags + width + c) % v)
                    continue
            if t not in (SymInt, SymBool):
                raise TypeError("%%%s format: a number is required, not %s" % (c, t.__name__))
            out.append(fmt_one(v, "", ("0" if "0" in flags else "") + width + ("d" if c in "di" else c)))
        else:
            out.append(PLACEHOLDER)
    if used < len(single) and args is not None:
        raise TypeError("not all arguments converted during string formatting")
    return concat(out)


def sx_mod(a, b):
    if isinstance(a, str) and not is_sym(a):
        if is_sym(b) or isinstance(b, tuple) and any(is_sym(x) or _odd(x) for x in b) or isinstance(b, dict) or _odd(b):
            return str_mod(a, b)
    elif isinstance(a, (bytes, bytearray)) and not is_sym(a) and has_sym(b):
        unsupported("bytes % formatting")
    return a % b


def _odd(x):
    """Objects whose __str__ is Python code that may build a symbolic text."""
    return type(type(x).__str__) is types.FunctionType


# ------------------------------------------------------------------------------------------------- builtins

def sx_len(x):
    t = type(x)
    if issubclass(t, Sym):
        if t in (SymInt, SymBool, SymReal):
            raise TypeError("object of type '%s' has no len()" % x.__class__.__name__)
        return x.sxlen()
    f = getattr(t, "__len__", None)
    if type(f) is types.FunctionType:
        return f(x)
    return len(x)


_SENT = object()


def sx_int(x=_SENT, base=_SENT):
    if x is _SENT:
        return 0
    if base is not _SENT:
        if is_sym(x):
            return int_of_str(x, base)
        return int(x, base)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return SymInt(zi(x))
    if t is SymReal:
        return x.__trunc__()
    if t in (SymStr, SymBytes):
        return int_of_str(x)
    return int(x)


def sx_str(x=_SENT, encoding=_SENT, errors="strict"):
    if x is _SENT:
        return ""
    if encoding is not _SENT:
        if is_sym(x):
            return x.decode(encoding, errors)
        return str(x, encoding, errors)
    t = type(x)
    if issubclass(t, Sym):
        if t in (SymBytes, ByteArr, MemView, SymReal):
            return PLACEHOLDER
        return str_of(x)
    f = t.__str__
    if type(f) is types.FunctionType:
        return f(x)
    if issubclass(t, BaseException):
        if len(x.args) == 1 and is_sym(x.args[0]) and f is BaseException.__str__:
            return text_of(x.args[0])
    if f is object.__str__ and type(t.__repr__) is types.FunctionType:
        return t.__repr__(x)
    return native_text(str, x)


def native_text(f, x):
    try:
        return f(x)
    except TypeError as e:
        # a composite value with symbolic parts inside: shown in log messages only
        if "returned non-string" in str(e):
            return PLACEHOLDER
        raise


def sx_repr(x):
    if type(x) in (SymInt, SymBool):
        return str_of(x)
    f = type(x).__repr__
    if type(f) is types.FunctionType and not is_sym(x):
        return f(x)
    return native_text(repr, x)


def sx_bytes(x=_SENT, *a, **k):
    if x is _SENT:
        return b""
    t = type(x)
    if t is SymBytes:
        return x
    if t in (ByteArr, MemView):
        return x.plain()
    if t is SymStr:
        if not a and not k:
            raise TypeError("string argument without an encoding")
        return x.encode(*a, **k)
    if t in (SymInt, SymBool):
        n = cur().concretise(zi(x), "bytes(n)")
        return bytes(n)
    if not isinstance(x, (bytes, bytearray, str, int, memoryview)) and not hasattr(t, "__bytes__"):
        items = list(x)
        if any(is_sym(i) for i in items):
            en = cur()
            for i in items:
                if not en.fork(z3.And(zi(i) >= 0, zi(i) <= 255)):
                    raise ValueError("bytes must be in range(0, 256)")
            return SymBytes([[_ex(zi(i)) for i in items]]).simp()
        return bytes(items)
    return bytes(x, *a, **k)


def sx_bytearray(x=_SENT, *a, **k):
    if x is _SENT:
        return ByteArr(b"")
    return ByteArr(sx_bytes(x, *a, **k))


def sx_memoryview(x):
    if is_sym(x):
        return x[:] if type(x) is MemView else MemView(x)
    return memoryview(x)


def sx_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mk_bool(x.e != 0)
    return bool(truth(x))


def sx_float(x=0.0):
    t = type(x)
    if t is SymReal:
        return x
    if t in (SymInt, SymBool):
        return SymReal(z3.ToReal(zi(x)))
    if t is SymStr:
        unsupported("float of symbolic text")
    return float(x)


def sx_type(*a):
    if len(a) == 1:
        if is_sym(a[0]):
            return a[0].__class__
        return type(a[0])
    return type(*a)


def sx_getattr(o, name, *d):
    if type(name) is SymStr:
        names = [n for n in dir(o)]
        hit = None
        for n in names:
            if bool(name == n):
                hit = n
                break
        if hit is None:
            # dynamic attributes
            if hasattr(type(o), "__getattr__"):
                return type(o).__getattr__(o, name)
            if d:
                return d[0]
            raise AttributeError("no such attribute")
        name = hit
    return getattr(o, name, *d)


def sx_hasattr(o, name):
    if type(name) is SymStr:
        return any(bool(name == n) for n in dir(o))
    return hasattr(o, name)


def sx_setattr(o, name, v):
    if type(name) is SymStr:
        unsupported("setattr with symbolic name")
    setattr(o, name, v)


def sx_map(fn, *its):
    for args in zip(*its):
        yield sx_call(fn, *args)


def sx_filter(fn, it):
    for x in it:
        if (truth(x) if fn is None else sx_call(fn, x)):
            yield x


def sx_ord(x):
    if type(x) in (SymStr, SymBytes):
        c = x.cells("ord")
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return mk_int(c[0])
    return ord(x)


def sx_chr(x):
    if type(x) is SymInt:
        if not cur().fork(z3.And(x.e >= 0, x.e <= 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([[x.e]]).simp()
    return chr(x)


def sx_hex(x):
    if type(x) is SymInt:
        if x < 0:
            return SymStr.of("-0x") + SymStr([IntAtom(zi(-x), 16)])
        return SymStr.of("0x") + SymStr([IntAtom(x.e, 16)])
    return hex(x)


def sx_format(x, spec=""):
    return fmt_one(x, "", spec)


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_hash(x):
    return hash(x)


def sx_isinstance(x, c):
    return isinstance(x, c)


def sx_print(*a, **k):
    pass


def sx_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def sx_abs(x):
    return x.__abs__() if is_sym(x) else abs(x)


def sx_pow(x, y, *m):
    if is_sym(x) or is_sym(y):
        return x ** y if not m else unsupported("pow with modulus")
    return pow(x, y, *m)


def sx_divmod(a, b):
    if is_sym(a) or is_sym(b):
        from .values import _floordiv
        return _floordiv(a, b)
    return divmod(a, b)


def sx_minmax(fn, less):
    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in items) and not k.get("key"):
            if not items:
                return fn(items, **k)
            if all(type(x) in (SymInt, SymBool) or isinstance(x, int) for x in items):
                r = zi(items[0])
                for x in items[1:]:
                    x = zi(x)
                    r = z3.If(x < r, x, r) if less else z3.If(x > r, x, r)
                return mk_int(r)
            r = items[0]
            for x in items[1:]:
                if (x < r if less else x > r):
                    r = x
            return r
        return fn(*a, **k)
    return f


# ---- iterators

class SxRange(object):
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s
        if is_sym(s):
            self.s = cur().concretise(zi(s), "range step")
        if self.s == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.a
        while (i < self.b if self.s > 0 else i > self.b):
            cur().tick()
            yield i
            i = i + self.s

    def nth(self, k):
        return self.a + k * self.s

    def size(self):
        if self.s == 1:
            return mk_int(z3.If(zi(self.b) > zi(self.a), zi(self.b) - zi(self.a), z3.IntVal(0)))
        unsupported("length of stepped range")

    def __len__(self):
        return len(range(0, cur().concretise(zi(self.size()), "range length")))

    def __getitem__(self, i):
        if isinstance(i, slice):
            unsupported("slice of range")
        n = self.size()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("range object index out of range")
        return self.nth(i)

    def __contains__(self, x):
        if self.s != 1:
            unsupported("in stepped range")
        return bool(mk_bool(z3.And(zi(x) >= zi(self.a), zi(x) < zi(self.b))))


def sx_range(*a):
    if has_sym(a):
        if len(a) == 1:
            return SxRange(0, a[0])
        return SxRange(*a)
    return range(*a)


class SxChain(object):
    """Concatenation of ranges with random access (for the request id sequence)."""

    def __init__(self, parts):
        self.parts = parts
        self.it = None

    def __iter__(self):
        if self.it is None:
            self.it = self._gen()
        return self.it

    def _gen(self):
        for p in self.parts:
            for x in p:
                yield x

    def __next__(self):
        return next(iter(self))


class SxCycle(object):
    """cycle over a chain of integer ranges, positioned by a (possibly symbolic) index."""

    def __init__(self, parts):
        self.parts = [SxRange(p.start, p.stop, p.step) if isinstance(p, range) else p for p in parts]
        self.k = 0

    def __iter__(self):
        return self

    def total(self):
        n = 0
        for p in self.parts:
            n = n + p.size()
        return n

    def __next__(self):
        k = self.k
        self.k = self.k + 1
        en = cur()
        n = self.total()
        if is_sym(n) and not en.must(zi(n) > 0):
            if en.fork(zi(n) == 0):
                raise StopIteration
        elif not is_sym(n) and n == 0:
            raise StopIteration
        if not is_sym(n):
            k = k % n
        elif en.fork(z3.And(zi(k) >= 0, zi(k) < zi(n))):
            pass
        else:
            k = k % n
        for p in self.parts:
            sz = p.size()
            if k < sz:
                return p.nth(k)
            k = k - sz
        raise StopIteration

    def advance(self, d):
        self.k = self.k + d


def _ranges(it):
    if isinstance(it, SxChain) and it.it is None:
        return it.parts if all(isinstance(p, (SxRange, range)) for p in it.parts) else None
    if isinstance(it, (SxRange, range)):
        return [it]
    return None


def sx_chain(*its):
    if all(isinstance(i, (SxRange, range)) for i in its):
        return SxChain(list(its))
    return itertools.chain(*its)


def sx_cycle(it):
    r = _ranges(it)
    if r is not None:
        return SxCycle(r)
    return itertools.cycle(it)


class SxCount(object):
    def __init__(self, start=0, step=1):
        self.k, self.step = start, step

    def __iter__(self):
        return self

    def __next__(self):
        k = self.k
        self.k = self.k + self.step
        return k

    def advance(self, d):
        self.k = self.k + d * self.step


def sx_islice(it, *a):
    a = tuple(cur().concretise(zi(x), "islice bound") if is_sym(x) else x for x in a)
    return itertools.islice(it, *a)


# ---- bytes/str/dict methods called on native receivers

def _int_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) in (ByteArr, MemView):
        b = b.plain()
    if is_sym(b):
        return unpack_int(b.cells("int.from_bytes"), byteorder != "little", signed)
    if not isinstance(b, (bytes, bytearray, memoryview)):
        items = list(b)
        if any(is_sym(x) for x in items):
            return unpack_int([_ex(zi(x)) for x in items], byteorder != "little", signed)
        b = bytes(items)
    return int.from_bytes(b, byteorder, signed=signed)


def _fromkeys(it, v=None):
    d = {}
    for k in it:
        raw_set(d, k, v)
    return d


def dict_update(d, *a, **k):
    st = _overrides(d, "__setitem__")
    for x in a:
        if hasattr(x, "keys"):
            pairs = [(q, x[q]) for q in x.keys()]
        else:
            pairs = [tuple(p) for p in x]
        for q, v in pairs:
            raw_set(d, q, v)
    for q, v in k.items():
        raw_set(d, q, v)


def dict_method(d, name, args, kwargs):
    """C-level dict method on a dict holding or given symbolic keys."""
    if name in ("__getitem__",):
        return raw_get(d, args[0])
    if name == "__setitem__":
        return raw_set(d, args[0], args[1])
    if name == "__delitem__":
        return raw_del(d, args[0])
    if name == "__contains__":
        return raw_contains(d, args[0])
    k = dict_find(d, args[0])
    if name == "get":
        return dict.__getitem__(d, k) if k is not _NO else (args[1] if len(args) > 1 else kwargs.get("default"))
    if name == "pop":
        if k is _NO:
            if len(args) > 1:
                return args[1]
            if "default" in kwargs:
                return kwargs["default"]
            raise KeyError(args[0])
        return _raw(d, "pop")(d, k)
    if name == "setdefault":
        if k is not _NO:
            return dict.__getitem__(d, k)
        v = args[1] if len(args) > 1 else None
        _raw(d, "__setitem__")(d, args[0], v)
        return v
    if name == "move_to_end":
        if k is _NO:
            raise KeyError(args[0])
        return collections.OrderedDict.move_to_end(d, k, *args[1:], **kwargs)
    unsupported("dict." + name)


DICT_KEYED = {"__getitem__", "__setitem__", "__delitem__", "__contains__", "get", "pop", "setdefault", "move_to_end"}
SET_KEYED = {"add", "discard", "remove", "__contains__"}


def set_method(s, name, x):
    hit = _NO
    for k in list(s):
        if k is x or key_eq(k, x):
            hit = k
            break
    if name == "__contains__":
        return hit is not _NO
    if name == "add":
        if hit is _NO:
            set.add(s, x)
        return None
    if hit is _NO:
        if name == "remove":
            raise KeyError(x)
        return None
    set.discard(s, hit)


def construct_dict(cls, args, kwargs):
    """dict(...) or a dict subclass without Python-level construction."""
    if len(args) == 1 and not hasattr(args[0], "keys"):
        pairs = [tuple(p) for p in args[0]]
        if any(has_sym(p[0]) for p in pairs):
            d = cls()
            for k, v in pairs:
                raw_set(d, k, v)
            for k, v in kwargs.items():
                raw_set(d, k, v)
            return d
        return cls(pairs, **kwargs)
    if len(args) == 1 and isinstance(args[0], dict) and _symkeys(args[0]) and kwargs:
        d = cls()
        for k in args[0].keys():
            raw_set(d, k, args[0][k])
        for k, v in kwargs.items():
            raw_set(d, k, v)
        return d
    return cls(*args, **kwargs)


def enum_lookup(cls, v):
    en = cur()
    t = type(v)
    for m in cls:
        mv = m.value
        if is_sym(mv):
            unsupported("symbolic enum value")
        if t in (SymInt, SymBool, SymReal) and not isinstance(mv, (int, float)):
            continue
        if t is SymStr and not isinstance(mv, str) or t is SymBytes and not isinstance(mv, bytes):
            continue
        if bool(v == mv):
            return m
    raise ValueError("%s is not a valid %s" % (PLACEHOLDER, cls.__name__))


def native_method(f, s, name, args, kwargs):
    """Bound C method of a native object, some argument may be symbolic."""
    ts = type(s)
    if isinstance(s, dict):
        if name in DICT_KEYED and args and (has_sym(args[0]) or _symkeys(s)):
            return dict_method(s, name, args, kwargs)
        if name == "update":
            if _symkeys(s) or any(_update_sym(a) for a in args):
                return dict_update(s, *args, **kwargs)
        return f(*args, **kwargs)
    if ts is str or isinstance(s, str):
        if name == "format":
            if any(_fmt_sym(a) for a in args) or any(_fmt_sym(a) for a in kwargs.values()):
                return str_format(s, args, kwargs)
            return f(*args, **kwargs)
        if name == "join":
            items = list(args[0])
            if any(is_sym(x) for x in items):
                return seq_join(s, items)
            return f(items)
        if any(has_sym(a, 1) for a in args):
            return getattr(SymStr.of(s), name)(*args, **kwargs)
        return f(*args, **kwargs)
    if isinstance(s, (bytes, bytearray)):
        if name == "join":
            items = list(args[0])
            if any(is_sym(x) for x in items):
                return seq_join(bytes(s), items)
            return f(items)
        if any(has_sym(a, 1) for a in args):
            if isinstance(s, bytearray):
                unsupported("native bytearray with symbolic argument")
            return getattr(SymBytes.of(s), name)(*args, **kwargs)
        return f(*args, **kwargs)
    if ts is set or ts is frozenset:
        if name in SET_KEYED and (has_sym(args[0]) or any(has_sym(x) for x in s)):
            return set_method(s, name, args[0])
        return f(*args, **kwargs)
    if s is int and name == "from_bytes":
        return _int_from_bytes(*args, **kwargs)
    if s is dict and name == "fromkeys":
        return _fromkeys(*args)
    if isinstance(s, int) and name == "to_bytes" and any(is_sym(a) for a in args):
        args = (cur().concretise(zi(args[0]), "to_bytes length"),) + args[1:]
        return f(*args, **kwargs)
    r = f(*args, **kwargs)
    if r is NotImplemented and args and is_sym(args[0]) and name in REFLECTED:
        return getattr(args[0], REFLECTED[name])(s)
    return r


REFLECTED = {"__%s__" % n: "__r%s__" % n for n in "add sub mul and or xor mod floordiv truediv lshift rshift pow".split()}
REFLECTED.update({"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"})


def _fmt_sym(a):
    return has_sym(a, 1) or type(type(a).__str__) is types.FunctionType or isinstance(a, BaseException) \
        or type(type(a).__format__) is types.FunctionType or not isinstance(a, (str, int, float, bytes, type(None)))


def _update_sym(a):
    if isinstance(a, dict):
        return _symkeys(a)
    if hasattr(a, "keys"):
        return False
    return True


HOOKS = {
    len: sx_len, int: sx_int, str: sx_str, repr: sx_repr, bytes: sx_bytes, bytearray: sx_bytearray, bool: sx_bool,
    float: sx_float, type: sx_type, getattr: sx_getattr, hasattr: sx_hasattr, setattr: sx_setattr, map: sx_map,
    filter: sx_filter, ord: sx_ord, chr: sx_chr, hex: sx_hex, format: sx_format, sum: sx_sum, range: sx_range,
    memoryview: sx_memoryview, round: sx_round, abs: sx_abs, pow: sx_pow, divmod: sx_divmod, print: sx_print,
    min: sx_minmax(min, True), max: sx_minmax(max, False),
    io.BytesIO: BytesIOModel, itertools.chain: sx_chain, itertools.cycle: sx_cycle, itertools.count: SxCount,
    itertools.islice: sx_islice,
    struct.pack: structmodel.pack, struct.unpack: structmodel.unpack, struct.calcsize: structmodel.calcsize,
    struct.Struct: structmodel.StructModel, struct.unpack_from: structmodel.unpack_from,
    struct.pack_into: structmodel.pack_into, struct.iter_unpack: structmodel.iter_unpack,
    traceback.format_exc: lambda *a, **k: "traceback",
    traceback.print_exc: lambda *a, **k: None,
}

_Builtin = types.BuiltinMethodType
_Wrapper = types.MethodWrapperType


def sx_call(f, *args, **kwargs):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        if t is types.FunctionType:
            h = HOOKS.get(f)
            if h is not None:
                return h(*args, **kwargs)
        return f(*args, **kwargs)
    if t is _Builtin or t is _Wrapper:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            h = HOOKS.get(f)
            if h is not None:
                return h(*args, **kwargs)
            return f(*args, **kwargs)
        return native_method(f, s, f.__name__, args, kwargs)
    if isinstance(f, type):
        h = HOOKS.get(f)
        if h is not None:
            return h(*args, **kwargs)
        if issubclass(f, dict):
            if args and type(f.__init__) is not types.FunctionType and type(f.__new__) is not types.FunctionType:
                return construct_dict(f, args, kwargs)
        elif isinstance(f, enum.EnumMeta) and len(args) == 1 and is_sym(args[0]) and not kwargs:
            return enum_lookup(f, args[0])
        elif f is set or f is frozenset:
            if args:
                items = list(args[0])
                if any(has_sym(x) for x in items):
                    s = set()
                    for x in items:
                        set_method(s, "add", x)
                    return s
                return f(items)
        return f(*args, **kwargs)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # dict.get(d, k), str.join(sep, xs) ...
        if args and (has_sym(args, 2) or isinstance(args[0], dict)):
            if is_sym(args[0]):
                return getattr(args[0], f.__name__)(*args[1:], **kwargs)
            return native_method(types.MethodType(f, args[0]), args[0], f.__name__, args[1:], kwargs)
    return f(*args, **kwargs)


EXPORTS = {
    "__sx_enter__": enter, "__sx_call__": sx_call, "__sx_tick__": tick, "__sx_truth__": truth, "__sx_mod__": sx_mod, "__sx_in__": sx_in,
    "__sx_notin__": sx_notin, "__sx_is__": sx_is, "__sx_isnot__": sx_isnot, "__sx_getitem__": sx_getitem,
    "__sx_setitem__": sx_setitem, "__sx_delitem__": sx_delitem, "__sx_augitem__": sx_augitem, "__sx_fstr__": sx_fstr,
    "__sx_dict__": sx_dict, "__sx_pending__": pending, "__sx_slice__": sx_slice,
}
