"""struct on ropes. Format strings may contain symbolic counts for 's' items (built with '%d' formatting)."""
import struct as _s

import z3

from .engine import cur
from .values import (ByteArr, IntAtom, Seg, SymBool, SymBytes, SymInt, SymReal, SymStr, _add, _ex, _lt, _same, _sub,
                     has_sym, is_sym, mk_int, pack_int, unpack_int, unsupported, zi)

error = _s.error
STD = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8,
       "e": 2, "f": 4, "d": 8, "s": 1, "p": 1}
NATIVE = dict((c, _s.calcsize("@" + c)) for c in "xcbB?hHiIlLqQnNPefdsp")
INTS = "bBhHiIlLqQnN"


def parse(fmt):
    """-> (big, aligned, sizes, [(code, count)]) with count int or z3 expr."""
    if isinstance(fmt, (bytes, bytearray)):
        fmt = fmt.decode("ascii")
    if is_sym(fmt):
        if type(fmt) is SymBytes:
            unsupported("symbolic bytes format")
        toks = []
        for s in fmt.segs:
            if isinstance(s, list):
                for c in s:
                    if not isinstance(c, int):
                        unsupported("symbolic struct format")
                    toks.append(chr(c))
            elif isinstance(s, IntAtom) and s.plain():
                toks.append(s)
            else:
                unsupported("symbolic struct format")
    else:
        toks = list(fmt)
    big, sizes, align = False, NATIVE, True
    i = 0
    if toks and toks[0] in ("@", "=", "<", ">", "!"):
        big = toks[0] in ">!"
        if toks[0] != "@":
            sizes, align = STD, False
        i = 1
    items = []
    while i < len(toks):
        t = toks[i]
        if isinstance(t, str) and t.isspace():
            i += 1
            continue
        count = None
        if isinstance(t, IntAtom):
            e = z3.simplify(t.e)
            if cur().fork(e < 0):
                raise error("bad char in struct format")
            count = e.as_long() if z3.is_int_value(e) else e
            i += 1
            if i < len(toks) and isinstance(toks[i], str) and toks[i].isdigit():
                unsupported("digits next to symbolic count")
        elif t.isdigit():
            n = ""
            while i < len(toks) and isinstance(toks[i], str) and toks[i].isdigit():
                n += toks[i]
                i += 1
            if i < len(toks) and isinstance(toks[i], IntAtom):
                unsupported("digits next to symbolic count")
            count = int(n)
        if i >= len(toks):
            raise error("repeat count given without format specifier")
        c = toks[i]
        i += 1
        if not isinstance(c, str) or c not in sizes:
            raise error("bad char in struct format")
        if c in "sp":
            items.append((c, 1 if count is None else count))
        elif c == "x":
            if count is not None and not isinstance(count, int):
                count = cur().concretise(count, "pad count")
            items.append((c, 1 if count is None else count))
        else:
            if count is not None and not isinstance(count, int):
                count = cur().concretise(count, "repeat count")
            items.extend([(c, None)] * (1 if count is None else count))
    return big, align, sizes, items


def layout(fmt):
    """-> (big, sizes, [(code, count, offset)], total)"""
    big, align, sizes, items = parse(fmt)
    off = 0
    out = []
    for c, n in items:
        sz = sizes[c]
        if align and sz > 1:
            if not isinstance(off, int):
                unsupported("alignment after symbolic count")
            off = -(-off // sz) * sz
        out.append((c, n, off))
        off = _add(off, sz if n is None else n)
    return big, sizes, out, off


def calcsize(fmt):
    if not is_sym(fmt):
        return _s.calcsize(fmt)
    return mk_int(layout(fmt)[3])


def _plain(fmt, args):
    return not is_sym(fmt) and not any(has_sym(a) for a in args)


def pack(fmt, *args):
    if _plain(fmt, args):
        return _s.pack(fmt, *args)
    big, sizes, items, total = layout(fmt)
    en = cur()
    need = sum(1 for c, n, o in items if c != "x")
    if need != len(args):
        raise error("pack expected %d items for packing (got %d)" % (need, len(args)))
    segs = []
    pos = 0
    args = list(args)
    for c, n, off in items:
        if not _same(pos, off):
            segs.append([0] * _sub(off, pos))
        if c == "x":
            segs.append([0] * n)
            pos = _add(off, n)
            continue
        v = args.pop(0)
        if c == "s":
            if not SymBytes.can(v):
                raise error("argument for 's' must be a bytes object")
            v = SymBytes.of(v)
            ln = v.slen()
            if _same(ln, n):
                segs.extend(v.segs)
            elif _lt(n, ln):
                segs.extend(v.cut(n)[0].segs)
            else:
                segs.extend(v.segs)
                pad = _sub(n, ln)
                if not isinstance(pad, int):
                    pad = en.concretise(pad, "struct padding")
                segs.append([0] * pad)
            pos = _add(off, n)
            continue
        sz = sizes[c]
        pos = _add(off, sz)
        if c in INTS:
            t = type(v)
            if t is SymReal or isinstance(v, float) or not (t in (SymInt, SymBool) or hasattr(v, "__index__")) \
                    or SymBytes.can(v) or SymStr.can(v):
                raise error("required argument is not an integer")
            if not (t in (SymInt, SymBool) or isinstance(v, int)):
                v = v.__index__()
            e = zi(v)
            signed = c.islower()
            lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)
            if not en.fork(z3.And(e >= lo, e <= hi)):
                raise error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            segs.extend(SymBytes.of(pack_int(_ex(e), sz, big, signed)).segs)
        elif c == "?":
            segs.append([1 if bool(v) else 0])
        elif c == "c":
            v = SymBytes.of(v)
            cells = v.cells()
            if len(cells) != 1:
                raise error("char format requires a bytes object of length 1")
            segs.append(cells)
        else:
            if has_sym(v):
                unsupported("struct code " + c)
            segs.append(list(_s.pack((">" if big else "<") + c, v)))
    return SymBytes(segs).simp()


def unpack(fmt, buf):
    if not is_sym(fmt) and not is_sym(buf):
        return _s.unpack(fmt, buf)
    if not SymBytes.can(buf):
        raise TypeError("a bytes-like object is required, not '%s'" % type(buf).__name__)
    big, sizes, items, total = layout(fmt)
    b = SymBytes.of(buf)
    n = b.slen()
    if not _same(n, total):
        if not cur().fork(zi(n) == zi(total)):
            raise error("unpack requires a buffer of that many bytes")
    return _unpack(b, big, sizes, items)


def _unpack(b, big, sizes, items):
    out = []
    pos = 0
    for c, n, off in items:
        if not _same(pos, off):
            b = b.cut(_sub(off, pos))[1]
        sz = sizes[c] if n is None else n
        head, b = b.cut(sz)
        pos = _add(off, sz)
        if c == "x":
            continue
        if c == "s":
            out.append(head.simp())
        elif c in INTS:
            out.append(unpack_int(head.cells("struct"), big, c.islower()))
        elif c == "?":
            x = head.cells()[0]
            out.append(bool(x) if isinstance(x, int) else cur().fork(x != 0))
        elif c == "c":
            out.append(head.simp())
        else:
            h = head.simp()
            if is_sym(h):
                unsupported("struct code " + c)
            out.append(_s.unpack((">" if big else "<") + c, h)[0])
    return tuple(out)


def unpack_from(fmt, buffer, offset=0):
    if not is_sym(fmt) and not is_sym(buffer) and not is_sym(offset):
        return _s.unpack_from(fmt, buffer, offset)
    big, sizes, items, total = layout(fmt)
    b = SymBytes.of(buffer)
    n = b.slen()
    if offset < 0:
        offset = mk_int(zi(offset) + zi(n))
        if offset < 0:
            raise error("offset out of range")
    end = _add(_ex(zi(offset)), total)
    if _lt(n, end):
        raise error("unpack_from requires a larger buffer")
    b = SymBytes.of(b[offset:mk_int(zi(end))])
    return _unpack(b, big, sizes, items)


def pack_into(fmt, buffer, offset, *args):
    unsupported("struct.pack_into")


def iter_unpack(fmt, buffer):
    if not is_sym(fmt) and not is_sym(buffer):
        return _s.iter_unpack(fmt, buffer)
    unsupported("struct.iter_unpack")


class StructModel(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def pack_into(self, *a):
        return pack_into(self.format, *a)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)
