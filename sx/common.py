"""Shared by the symbolic and the concrete side: paths, blob contents, canonical observations."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
REPO_TOPS = ("anthunder", "mysockpool", "mytracer")
CON_PY = "/opt/venv/bin/python"
EXTRA_SITE = "/opt/venv/lib/python3.12/site-packages"

_PAT = bytes((i * 37 + 11) & 0xff for i in range(251))
_TEXT = {0: "abcdefghijklmnopqrstuvwxyz0123456789", 1: "\u00e9\u00fc\u0416\u05d0", 2: "\u4e2d\u6587\u20ac\u0e01", 3: "\U0001f600\U00010348"}


def name_salt(name):
    h = 7
    for c in name:
        h = (h * 33 + ord(c)) % 251
    return h


def blob_bytes(name, n, reads):
    s = name_salt(name)
    p = _PAT[s:] + _PAT[:s]
    b = (p * (n // len(p) + 1))[:n]
    if reads:
        b = bytearray(b)
        for i, v in reads.items():
            i = int(i)
            if 0 <= i < n:
                b[i] = v
        b = bytes(b)
    return b


def blob_text(name, n, enclen, reads):
    if enclen is None:
        enclen = n
    extra = enclen - n
    s = name_salt(name)
    if extra == 0:
        t = _TEXT[0]
        p = t[s % len(t):] + t[:s % len(t)]
        out = (p * (n // len(p) + 1))[:n]
    else:
        full, rest = divmod(extra, 3)
        parts = [(_TEXT[3] * (full // 2 + 1))[:full]]
        used = full
        if rest:
            parts.append(_TEXT[rest][s % 4])
            used += 1
        parts.append((_TEXT[0] * ((n - used) // 36 + 1))[:n - used])
        out = "".join(parts)
    if reads:
        out = list(out)
        for i, v in reads.items():
            i = int(i)
            if 0 <= i < n:
                out[i] = chr(v)
        out = "".join(out)
    return out


def canon(v, depth=6):
    """JSON-able canonical form of a native value, long contents abbreviated the same way on both sides."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return "i%d" % int(v)
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, (bytes, bytearray, memoryview)):
        b = bytes(v)
        if len(b) > 600:
            return "b%d:%s..%s" % (len(b), b[:40].hex(), b[-40:].hex())
        return "b" + b.hex()
    if isinstance(v, str):
        if len(v) > 600:
            return "s%d:%s..%s" % (len(v), v[:40], v[-40:])
        return "s" + v
    if isinstance(v, (list, tuple)):
        return [canon(x, depth - 1) for x in v]
    if isinstance(v, dict):
        return {"map": [[canon(k), canon(x, depth - 1)] for k, x in v.items()]}
    if isinstance(v, BaseException):
        return "e" + type(v).__name__
    return "o" + type(v).__name__
