"""C01-C05: encoding and decoding of frames and headers."""
from harness import wire
from harness.wire import I32, REQ_CLASS, RESP_CLASS
from sx.scen import scenario


def kinds():
    from anthunder.command.fail_response import FailResponse
    from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
    from anthunder.protocol import BoltRequest, BoltResponse
    return {"request": BoltRequest, "response": BoltResponse, "fail": FailResponse, "hbreq": HeartbeatRequest,
            "hbresp": HeartbeatResponse}


KINDS = ["request", "response", "fail", "hbreq", "hbresp"]
BIG = 1 << 20


def pairs_of(S, shape):
    """shape: one item per entry; "b": key and value are arbitrary texts; [m, n]: m and n arbitrary characters"""
    pairs = []
    for i, s in enumerate(shape):
        if s == "b":
            pairs.append((S.textblob("k%d" % i, 0, BIG), S.textblob("v%d" % i, 0, BIG)))
        else:
            pairs.append((S.text("k%d" % i, s[0]), S.text("v%d" % i, s[1])))
    for i in range(len(pairs)):
        for j in range(i):
            S.assume(pairs[i][0] != pairs[j][0])
    return pairs


def same_pairs(S, hdr, pairs, label):
    items = list(hdr.items())
    S.check(len(items) == len(pairs), label + ": number of entries")
    for (k, v), (k2, v2) in zip(items, pairs):
        S.check(k == k2, label + ": key")
        S.check(v == v2, label + ": value")


def fields(S, kind, enums):
    from anthunder.protocol import constants as K
    f = {}
    req = kind in ("request", "hbreq")
    f["ptype"] = S.choice("ptype", list(K.PTYPE)) if enums else (K.PTYPE.ONEWAY if req else K.PTYPE.RESPONSE)
    f["cmdcode"] = S.choice("cmdcode", list(K.CMDCODE)) if enums else (K.CMDCODE.REQUEST if req else K.CMDCODE.RESPONSE)
    f["codec"] = S.choice("codec", list(K.CODEC)) if enums else K.CODEC.HESSIAN
    f["request_id"] = S.int("request_id", *I32)
    if req:
        f["timeout"] = S.int("timeout", *I32)
    else:
        f["respstatus"] = S.choice("respstatus", list(K.RESPSTATUS)) if enums is True else K.RESPSTATUS.TIMEOUT
    return f


def build(S, kind, pairs, content, enums):
    from anthunder.protocol import SofaHeader
    cls = kinds()[kind]
    f = fields(S, kind, enums)
    header = SofaHeader(pairs)
    return cls, cls(header, content, **f), f


FEW = [{"kind": k, "shape": [], "enums": True} for k in KINDS] + \
      [{"kind": k, "shape": ["b"], "enums": "few"} for k in ("request", "response", "fail")] + \
      [{"kind": k, "shape": s, "enums": False} for k in ("request", "response") for s in ([[1, 1]], ["b", "b"], [[1, 0], [0, 1]])]
MORE = FEW + [{"kind": k, "shape": s, "enums": False} for k in KINDS for s in (["b", "b", "b"], [[2, 1]], [[1, 2], [1, 0]], [[1, 1], [1, 1]])]


@scenario("C01", variants=FEW, thorough=MORE, covers=["decoded"])
def frame_roundtrip(S, kind, shape, enums):
    pairs = pairs_of(S, shape)
    content = S.blob("content", 0, (1 << 32) - 1)
    cls, pkg, f = build(S, kind, pairs, content, enums)
    S.assume(len(wire.header_bytes(pairs)) <= 65535)
    data = pkg.to_stream()
    S.check(isinstance(data, bytes), "encoding is bytes")
    got = cls.from_stream(data)
    S.cover("decoded")
    S.check(isinstance(got, cls), "decoded to the same class")
    S.check(got.proto == 1 and got.ver2 == 1, "protocol and version")
    S.check(got.ptype == f["ptype"], "type")
    S.check(got.cmdcode == f["cmdcode"], "command")
    S.check(got.codec == f["codec"], "codec")
    S.check(got.request_id == f["request_id"], "request id")
    if "timeout" in f:
        S.check(got.timeout == f["timeout"], "timeout")
    else:
        S.check(got.respstatus == f["respstatus"], "status")
    S.check(got.content == content, "content")
    same_pairs(S, got.header, pairs, "header")
    S.check(got.to_stream() == data, "re-encoding gives the same bytes")
    S.observe("length", len(data))
    S.observe("id", got.request_id)


@scenario("C01", covers=["decoded"], thorough=[{"n": n, "kind": c} for n in (0, 1, 2) for c in ("request", "response")],
          variants=[{"n": n, "kind": c} for n in (0, 1) for c in ("request", "response")])
def two_part_decoding(S, n, kind):
    """The split decoding the servers and clients use: fixed header first, body separately."""
    from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
    for cls in ([BoltRequest] if kind == "request" else [BoltResponse]):
        pairs = [(S.text("k", n), S.text("v", n))]
        content = S.blob("content", 0, (1 << 32) - 1)
        rid = S.int("rid", *I32)
        if cls is BoltRequest:
            data = cls(SofaHeader(pairs), content, ptype=1, cmdcode=1, request_id=rid).to_stream()
        else:
            data = cls(SofaHeader(pairs), content, ptype=0, cmdcode=2, request_id=rid).to_stream()
        size = cls.bolt_header_size()
        S.check(size == (22 if cls is BoltRequest else 20), "size of the fixed header")
        h = cls.bolt_header_from_stream(data[:size])
        S.check(h["class_len"] + h["header_len"] + h["content_len"] == len(data) - size, "body length")
        got = cls.bolt_content_from_stream(data[size:], h)
        S.cover("decoded")
        S.check(got.request_id == rid, "request id")
        S.check(got.content == content, "content")
        same_pairs(S, got.header, pairs, "header")


# ------------------------------------------------------------------------------------------------------------- C02

@scenario("C02", variants=FEW, thorough=MORE, covers=["encoded"])
def layout(S, kind, shape, enums):
    pairs = pairs_of(S, shape)
    content = S.blob("content", 0, (1 << 32) - 1)
    cls, pkg, f = build(S, kind, pairs, content, enums)
    hb = wire.header_bytes(pairs)
    S.assume(len(hb) <= 65535)
    data = pkg.to_stream()
    S.cover("encoded")
    cn = {"request": REQ_CLASS, "response": RESP_CLASS, "fail": RESP_CLASS, "hbreq": b"", "hbresp": b""}[kind]
    if "timeout" in f:
        want = wire.request(f["ptype"], f["cmdcode"], f["request_id"], f["codec"], f["timeout"], cn, hb, content)
        S.check(cls.bolt_header_size() == 22, "fixed header size")
    else:
        want = wire.response(f["ptype"], f["cmdcode"], f["request_id"], f["codec"], f["respstatus"], cn, hb, content)
        S.check(cls.bolt_header_size() == 20, "fixed header size")
    n = cls.bolt_header_size()
    S.check(data[:n] == want[:n], "fixed header")
    S.check(data == want, "frame")
    S.observe("frame", data[:n])


@scenario("C02", covers=["encoded"])
def layout_of_factories(S):
    """Frames made by the constructors the servers and clients use."""
    from harness.stubs import ENV
    start = S.int("start", 0, (1 << 31) - 1)
    ENV.randint = lambda a, b: start
    from anthunder.protocol import SofaHeader
    from anthunder.protocol.constants import PTYPE, RESPSTATUS
    k = kinds()
    rid = S.int("rid", *I32)
    content = S.blob("content", 0, (1 << 32) - 1)
    which = S.choice("which", 5)
    if which == 0:
        timeout = S.int("timeout", *I32)
        one = S.flag("oneway")
        key, val = S.textblob("k", 0, 1000), S.textblob("v", 0, 1000)
        hb = wire.header_bytes([(key, val)])
        pkg = k["request"].new_request(SofaHeader([(key, val)]), content, ptype=PTYPE.ONEWAY if one else PTYPE.REQUEST,
                                       timeout_ms=timeout)
        rid = start
        want = wire.request(2 if one else 1, 1, rid, 11, -1 if timeout == 0 else timeout, REQ_CLASS, hb, content)
    elif which == 1:
        pkg = k["response"].response_to(content, rid)
        want = wire.response(0, 2, rid, 11, 0, RESP_CLASS, b"", content)
    elif which == 2:
        st = S.choice("status", list(RESPSTATUS))
        pkg = k["fail"].response_to(rid, st)
        want = wire.response(0, 2, rid, 11, st, RESP_CLASS, b"", b"")
    elif which == 3:
        pkg = k["hbreq"].new_request()
        want = wire.request(1, 0, start, 11, 0, b"", b"", b"")
    else:
        pkg = k["hbresp"].response_to(rid)
        want = wire.response(0, 0, rid, 11, 0, b"", b"", b"")
    data = pkg.to_stream()
    S.cover("encoded")
    S.check(data == want, "frame of factory %d" % which)
    S.observe("head", data[:20])


# ------------------------------------------------------------------------------------------------------------- C03

@scenario("C03", variants=[{"shape": s} for s in ([], [[0, 0]], [[1, 1]], [[2, 1]], [[1, 0], [1, 0]], ["b"], ["b", "b"])],
          thorough=[{"shape": s} for s in ([], [[0, 0]], [[1, 1]], [[2, 1]], [[1, 3]], [[1, 0], [1, 0]], [[1, 1], [1, 1]], [[2, 0], [1, 2]],
                                           [[0, 1], [1, 1], [2, 0]], ["b"], ["b", "b"], ["b", "b", "b"])],
          covers=["decoded"])
def header_roundtrip(S, shape):
    from anthunder.protocol import SofaHeader
    pairs = pairs_of(S, shape)
    h = SofaHeader(pairs)
    b = h.to_bytes()
    S.check(len(h) == len(b), "reported length")
    S.check(b == wire.header_bytes(pairs), "encoded entries")
    got = SofaHeader.from_bytes(b)
    S.cover("decoded")
    same_pairs(S, got, pairs, "map")
    S.check(got.to_bytes() == b, "re-encoding")
    S.observe("n", len(b))


@scenario("C03", variants=[{"n": 2}], thorough=[{"n": 2}, {"n": 3}], covers=["null key", "null value"])
def java_null(S, n):
    """Entries whose length is -1, among ordinary ones."""
    from anthunder.protocol import SofaHeader
    data = b""
    pairs = []
    for i in range(n):
        texts = []
        for part in ("key", "value"):
            if S.flag("null %s %d" % (part, i)):
                data = data + b"\xff\xff\xff\xff"
                texts.append("")
                S.cover("null " + part)
            else:
                t = S.textblob("%s%d" % (part, i), 0, BIG)
                data = data + wire.entry(t)
                texts.append(t)
        pairs.append((texts[0], texts[1]))
    for i in range(len(pairs)):
        for j in range(i):
            S.assume(pairs[i][0] != pairs[j][0])
    same_pairs(S, SofaHeader.from_bytes(data), pairs, "map with nulls")


@scenario("C03", variants=[{"n": 300}], thorough=[{"n": 300}, {"n": 1000}], covers=["decoded"])
def many_entries(S, n):
    """A map of many entries, one of them any character."""
    from anthunder.protocol import SofaHeader
    at = S.choice("at", [0, n // 2, n - 1])
    pairs = [("k%d" % i, "v%d" % i) for i in range(n)]
    pairs[at] = (pairs[at][0], S.text("v", 1))
    h = SofaHeader(pairs)
    b = h.to_bytes()
    S.check(len(h) == len(b), "reported length")
    S.check(b == wire.header_bytes(pairs), "encoded entries")
    got = SofaHeader.from_bytes(b)
    S.cover("decoded")
    same_pairs(S, got, pairs, "map")


# ------------------------------------------------------------------------------------------------------------- C04

def decode_outcome(S, f):
    """('ok', value) or ('refused', None); any other exception is a violation."""
    from anthunder.protocol.exceptions import DecodeError
    try:
        return "ok", f()
    except DecodeError:
        return "refused", None
    except Exception as e:
        S.fail("decoding raised %s" % type(e).__name__)
        return "refused", None


@scenario("C04", variants=[{"n": n} for n in range(0, 11)], thorough=[{"n": n} for n in range(0, 18)],
          covers=["malformed", "well-formed"], steps=20000, hang=True)
def header_bytes(S, n):
    """Every byte string of length n as a header map."""
    from anthunder.protocol import SofaHeader
    b = S.bytes("b", n)
    st, got = decode_outcome(S, lambda: SofaHeader.from_bytes(b))
    try:
        want = wire.parse_header(b)
    except wire.Bad:
        want = None
    if want is None:
        S.check(st == "refused", "malformed header map is refused")
        S.cover("malformed")
    else:
        S.check(st == "ok", "well-formed header map is accepted")
        S.cover("well-formed")
        if st == "ok":
            same_pairs(S, got, list(want.items()), "map")
    S.observe("st", st)


@scenario("C04", variants=[{"cls": c, "m": 0, "free": True} for c in ("request", "response")] +
          [{"cls": c, "m": m, "free": False} for c in ("request", "response") for m in (3, 4, 5)],
          thorough=[{"cls": c, "m": m, "free": True} for c in ("request", "response") for m in (0, 4, 8)] +
          [{"cls": c, "m": m, "free": False} for c in ("request", "response") for m in range(0, 15)],
          steps=20000, hang=True, quick_s=120, covers=["malformed", "well-formed"])
def frame_bytes(S, cls, m, free):
    """An arbitrary fixed header followed by a body of arbitrary length; the header section has m bytes. Not free: type, command,
    codec and status are valid ones, the rest is arbitrary."""
    k = kinds()
    C = k[cls]
    size = 22 if cls == "request" else 20
    fixed = S.bytes("fixed", size)
    body = S.blob("body", 0, (1 << 33))
    data = fixed + body
    F = wire.Req if cls == "request" else wire.Resp
    hl = int.from_bytes(fixed[size - 6:size - 4], "big")
    S.assume(hl == m)
    if not free:
        S.assume(fixed[1] == 1)
        S.assume(fixed[2:4] == b"\x00\x01")
        S.assume(fixed[9] == 11)
        if cls == "response":
            S.assume(fixed[10:12] == b"\x00\x07")
    st, got = decode_outcome(S, lambda: C.from_stream(data))
    f = F(data)
    ok = f.size == len(data) and f.proto == 1 and f.ptype in wire.PTYPES and f.cmdcode in wire.CMDS and f.ver2 == 1 \
        and f.codec in wire.CODECS and (cls == "request" or f.status in wire.STATUS)
    pairs = None
    if ok:
        try:
            pairs = list(wire.parse_header(f.header).items())
        except wire.Bad:
            ok = False
    if not ok:
        S.check(st == "refused", "malformed frame is refused")
        S.cover("malformed")
        return
    S.check(st == "ok", "well-formed frame is accepted")
    S.cover("well-formed")
    if st != "ok":
        return
    S.check(got.request_id == f.request_id, "request id")
    S.check(got.ptype == f.ptype, "type")
    S.check(got.cmdcode == f.cmdcode, "command")
    S.check(got.codec == f.codec, "codec")
    if cls == "request":
        S.check(got.timeout == f.timeout, "timeout")
    else:
        S.check(got.respstatus == f.status, "status")
    S.check(got.content == f.content, "content")
    same_pairs(S, got.header, pairs, "map")


@scenario("C04", variants=[{"cls": "request"}, {"cls": "response"}], covers=["short", "cut"])
def truncated_frame(S, cls):
    """Every proper prefix of a valid frame and every frame with surplus bytes."""
    from anthunder.protocol import SofaHeader
    C = kinds()[cls]
    size = 22 if cls == "request" else 20
    short = S.blob("short", 0, size - 1)
    st, got = decode_outcome(S, lambda: C.from_stream(short))
    S.cover("short")
    S.check(st == "refused", "fewer bytes than the fixed header")
    k, v = S.textblob("k", 0, 1000), S.textblob("v", 0, 1000)
    content = S.blob("content", 0, 1 << 32)
    S.assume(len(content) < (1 << 32))
    rid = S.int("rid", *I32)
    data = C(SofaHeader([(k, v)]), content, ptype=1, cmdcode=1, request_id=rid).to_stream()
    if S.flag("surplus"):
        extra = S.blob("extra", 1, 1 << 20)
        st, got = decode_outcome(S, lambda: C.from_stream(data + extra))
        S.check(st == "refused", "surplus bytes")
    else:
        cut = S.int("cut", size, (1 << 34))
        S.assume(cut < len(data))
        S.cover("cut")
        st, got = decode_outcome(S, lambda: C.from_stream(data[:cut]))
        S.check(st == "refused", "missing bytes")


# ------------------------------------------------------------------------------------------------------------- C05

def encode_outcome(S, f, label):
    from anthunder.protocol.exceptions import EncodeError, ParamTypeError
    try:
        return f()
    except (EncodeError, ParamTypeError):
        return None
    except Exception as e:
        S.fail("%s: refused with %s" % (label, type(e).__name__))
        return None


@scenario("C05", variants=[{"kind": k} for k in ("request", "response", "fail", "hbreq", "hbresp")],
          covers=["fits", "refused"])
def any_integers(S, kind):
    """Integer fields of any magnitude, header and content of any length."""
    from anthunder.protocol import SofaHeader
    C = kinds()[kind]
    rid = S.int("rid")
    k, v = S.textblob("k", 0, BIG), S.textblob("v", 0, BIG)
    content = S.blob("content", 0, 1 << 34)
    f = {"ptype": 1, "cmdcode": 1, "request_id": rid}
    req = kind in ("request", "hbreq")
    if req:
        f["timeout"] = S.int("timeout")
    hb = wire.header_bytes([(k, v)])

    def enc():
        return C(SofaHeader([(k, v)]), content, **f).to_stream()
    data = encode_outcome(S, enc, "integers")
    fits = rid >= I32[0] and rid <= I32[1] and len(hb) <= 65535 and len(content) <= 0xffffffff
    if req:
        fits = fits and f["timeout"] >= I32[0] and f["timeout"] <= I32[1]
    if fits:
        S.cover("fits")
        S.check(data is not None, "a message that fits is encoded")
        if data is None:
            return
        got = C.from_stream(data)
        S.check(got.request_id == rid, "request id")
        S.check(got.content == content, "content")
        if req:
            S.check(got.timeout == f["timeout"], "timeout")
        same_pairs(S, got.header, [(k, v)], "header")
    else:
        S.cover("refused")
        S.check(data is None, "a message that does not fit is refused")


@scenario("C05", covers=["tried"])
def ill_typed(S):
    from anthunder.protocol import SofaHeader
    kind = S.choice("kind", ["request", "response", "fail", "hbreq", "hbresp"])
    C = kinds()[kind]
    what = S.choice("what", ["content", "request_id", "timeout", "header", "missing id"])
    header, content, rid = SofaHeader(a="b"), S.blob("content", 0, 1000), S.int("rid", *I32)
    f = {"ptype": 1, "cmdcode": 1}
    n = S.int("n")
    t = S.textblob("t", 0, 50)
    r = S.real("r")
    if what == "content":
        content = S.choice("ill", [t, None, n, ["x"], {"a": 1}, bytearray(b"ab")])
    elif what == "request_id":
        rid = S.choice("ill", [t, None, r, b"1", [1]])
    elif what == "timeout":
        if kind not in ("request", "hbreq"):
            S.stop()
        S.assume(r != 0)
        f["timeout"] = S.choice("ill", ["5", r, b"1", [1]])
    elif what == "header":
        header = S.choice("ill", [t, None, n, {"a": "b"}, b"xx"])
    if what != "missing id":
        f["request_id"] = rid
    S.cover("tried")

    def enc():
        return C(header, content, **f).to_stream()
    if what == "header":
        try:
            data = enc()
        except Exception:
            data = None
        S.check(data is None, "no frame for a header that is no header map")
    else:
        data = encode_outcome(S, enc, "ill-typed " + what)
        S.check(data is None, "ill-typed %s is refused" % what)


@scenario("C05", variants=[{"kind": k} for k in ("request", "response", "fail", "hbresp")], covers=["fits", "refused"])
def constructed(S, kind):
    """The constructors the clients and servers use, with any id and timeout."""
    from anthunder.command.fail_response import FailResponse
    from anthunder.command.heartbeat import HeartbeatResponse
    from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
    from anthunder.protocol import constants as K
    header = SofaHeader(a="b")
    content = S.blob("content", 0, 1 << 34)
    rid = None
    st = K.RESPSTATUS.TIMEOUT
    if kind == "request":
        timeout = S.int("timeout")
        oneway = S.flag("one-way")
        p = K.PTYPE.ONEWAY if oneway else K.PTYPE.REQUEST

        def enc():
            return BoltRequest.new_request(header, content, ptype=p, timeout_ms=timeout).to_stream()
        fits = timeout >= I32[0] and timeout <= I32[1]
        C = BoltRequest
    else:
        rid = S.int("rid")
        fits = rid >= I32[0] and rid <= I32[1]
        C = {"response": BoltResponse, "fail": FailResponse, "hbresp": HeartbeatResponse}[kind]

        def enc():
            if kind == "response":
                return C.response_to(content, request_id=rid).to_stream()
            if kind == "fail":
                return C.response_to(rid, st).to_stream()
            return C.response_to(rid).to_stream()
    if kind in ("request", "response"):
        fits = fits and len(content) <= 0xffffffff
    data = encode_outcome(S, enc, "constructed")
    if not fits:
        S.cover("refused")
        S.check(data is None, "a message that does not fit is refused")
        return
    S.cover("fits")
    S.check(data is not None, "a message that fits is encoded")
    if data is None:
        return
    got = C.from_stream(data)
    if kind == "request":
        S.check(got.content == content, "content")
        S.check(got.timeout == timeout or (timeout == 0 and got.timeout == -1), "timeout")
        same_pairs(S, got.header, [("a", "b")], "header")
    else:
        S.check(got.request_id == rid, "request id")
        S.check(got.content == (content if kind == "response" else b""), "content")
        if kind == "fail":
            S.check(got.respstatus == st, "status")


@scenario("C05", variants=[{"shape": s} for s in ([1, 1], [2, 0], [0, 2])], thorough=[{"shape": s} for s in ([2, 1], [1, 2], [3, 0], [0, 3])],
          covers=["encoded", "refused"])
def odd_texts(S, shape):
    """Header entries of any characters, including those UTF-8 cannot encode."""
    from anthunder.protocol import BoltRequest, SofaHeader
    k, v = S.text("k", shape[0], surrogates=True), S.text("v", shape[1], surrogates=True)
    fits = True
    for s in (k, v):
        for c in s:
            if ord(c) >= 0xd800 and ord(c) <= 0xdfff:
                fits = False

    def enc():
        return BoltRequest(SofaHeader([(k, v)]), b"x", ptype=1, cmdcode=1, request_id=7, timeout=1).to_stream()
    data = encode_outcome(S, enc, "odd text")
    if fits:
        S.cover("encoded")
        S.check(data is not None, "encoded")
        if data is not None:
            same_pairs(S, BoltRequest.from_stream(data).header, [(k, v)], "header")
    else:
        S.cover("refused")
        S.check(data is None, "text that UTF-8 cannot encode is refused")


@scenario("C05", covers=["refused"])
def ill_typed_entries(S):
    """Header entries that are not strings."""
    from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
    n = S.int("n")
    v = S.choice("ill", [n, None, 1.5, b"x", ["x"], ("a",), {"a": "b"}, True])
    where = S.choice("where", ["value", "key", "second"])
    if where == "key":
        if isinstance(v, (list, dict)):
            S.stop()
        pairs = [(v, "x")]
    elif where == "value":
        pairs = [("a", v)]
    else:
        pairs = [("a", "b"), ("c", v)]
    C = S.choice("class", [BoltRequest, BoltResponse])
    S.cover("refused")
    data = encode_outcome(S, lambda: C(SofaHeader(pairs), b"x", ptype=1, cmdcode=1, request_id=7).to_stream(), "ill-typed entry")
    S.check(data is None, "an entry that is no string is refused")
