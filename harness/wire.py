"""Independent description of the BOLT v1 wire format, used as the oracle."""

REQ_CLASS = b"com.alipay.sofa.rpc.core.request.SofaRequest"
RESP_CLASS = b"com.alipay.sofa.rpc.core.response.SofaResponse"
I32 = (-(1 << 31), (1 << 31) - 1)
PROTO, VER2 = 1, 1
RESPONSE, REQUEST, ONEWAY = 0, 1, 2
HEARTBEAT, CMD_REQUEST, CMD_RESPONSE = 0, 1, 2
PTYPES = (0, 1, 2)
CMDS = (0, 1, 2)
CODECS = (1, 2, 11)
STATUS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18)
SUCCESS, SERVER_EXCEPTION, UNKNOWN, NO_PROCESSOR, TIMEOUT = 0, 2, 3, 6, 7
CLIENT_SEND_ERROR, CODEC_EXCEPTION, CONNECTION_CLOSED = 8, 9, 16
REQ_SIZE, RESP_SIZE = 22, 20


def num(v, n, signed=False):
    return v.to_bytes(n, "big", signed=signed)


def entry(text):
    b = text.encode("utf-8")
    return num(len(b), 4, True) + b


def header_bytes(pairs):
    out = b""
    for k, v in pairs:
        out = out + entry(k) + entry(v)
    return out


def request(ptype, cmdcode, request_id, codec, timeout, class_name, header, content):
    return (num(1, 1) + num(ptype, 1) + num(cmdcode, 2) + num(1, 1) + num(request_id, 4, True) + num(codec, 1)
            + num(timeout, 4, True) + num(len(class_name), 2) + num(len(header), 2) + num(len(content), 4)
            + class_name + header + content)


def response(ptype, cmdcode, request_id, codec, status, class_name, header, content):
    return (num(1, 1) + num(ptype, 1) + num(cmdcode, 2) + num(1, 1) + num(request_id, 4, True) + num(codec, 1)
            + num(status, 2) + num(len(class_name), 2) + num(len(header), 2) + num(len(content), 4)
            + class_name + header + content)


class Bad(Exception):
    pass


def parse_strings(b):
    """The strings a header block spells out, or Bad."""
    out = []
    pos = 0
    n = len(b)
    while pos < n:
        if pos + 4 > n:
            raise Bad("length cut off")
        ln = int.from_bytes(b[pos:pos + 4], "big", signed=True)
        pos += 4
        if ln == -1:
            out.append("")
            continue
        if ln < 0 or pos + ln > n:
            raise Bad("length")
        try:
            out.append(b[pos:pos + ln].decode("utf-8"))
        except UnicodeDecodeError:
            raise Bad("text")
        pos = pos + ln
    return out


def parse_header(b):
    ss = parse_strings(b)
    if len(ss) % 2:
        raise Bad("odd")
    d = {}
    for i in range(0, len(ss), 2):
        d[ss[i]] = ss[i + 1]
    return d


class Resp(object):
    """A response frame taken apart by the oracle."""

    def __init__(self, b):
        self.proto = b[0]
        self.ptype = b[1]
        self.cmdcode = int.from_bytes(b[2:4], "big")
        self.ver2 = b[4]
        self.request_id = int.from_bytes(b[5:9], "big", signed=True)
        self.codec = b[9]
        self.status = int.from_bytes(b[10:12], "big", signed=True)
        self.class_len = int.from_bytes(b[12:14], "big")
        self.header_len = int.from_bytes(b[14:16], "big")
        self.content_len = int.from_bytes(b[16:20], "big")
        p = 20
        self.class_name = b[p:p + self.class_len]
        p = p + self.class_len
        self.header = b[p:p + self.header_len]
        p = p + self.header_len
        self.content = b[p:p + self.content_len]
        self.size = p + self.content_len


class Req(object):
    def __init__(self, b):
        self.proto = b[0]
        self.ptype = b[1]
        self.cmdcode = int.from_bytes(b[2:4], "big")
        self.ver2 = b[4]
        self.request_id = int.from_bytes(b[5:9], "big", signed=True)
        self.codec = b[9]
        self.timeout = int.from_bytes(b[10:14], "big", signed=True)
        self.class_len = int.from_bytes(b[14:16], "big")
        self.header_len = int.from_bytes(b[16:18], "big")
        self.content_len = int.from_bytes(b[18:22], "big")
        p = 22
        self.class_name = b[p:p + self.class_len]
        p = p + self.class_len
        self.header = b[p:p + self.header_len]
        p = p + self.header_len
        self.content = b[p:p + self.content_len]
        self.size = p + self.content_len


def split(S, cls, stream, label, limit=1000):
    """Cut a byte stream into frames; everything must be accounted for."""
    out = []
    fixed = REQ_SIZE if cls is Req else RESP_SIZE
    while len(stream) > 0:
        if len(out) >= limit:
            S.fail(label + ": too many frames")
            break
        if not len(stream) >= fixed:
            S.fail(label + ": incomplete frame")
            break
        f = cls(stream)
        if not len(stream) >= f.size:
            S.fail(label + ": incomplete frame")
            break
        out.append(f)
        stream = stream[f.size:]
    return out
