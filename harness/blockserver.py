"""C13 (and the blocking half of C11, C25): the blocking server's connection handler."""
import errno
import socket
import socketserver

from harness import meshenv, services, stubs, wire
from harness.services import A, B
from harness.stubs import ENV, plain
from sx.scen import scenario


class Source(object):
    """A byte stream that arrives in pieces and then ends."""

    def __init__(self, S, data, pieces, reset=False):
        self.S, self.data, self.pieces, self.reset = S, data, pieces, reset
        self.pos = 0
        self.at_end = 0

    def left(self):
        return len(self.data) - self.pos

    def take(self, n, whole):
        S = self.S
        left = self.left()
        if left == 0 or n == 0:
            if n != 0:
                self.at_end += 1
                if self.at_end > 50:
                    S.fail("does not terminate")
                    S.stop()
                if self.reset:
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            return b""
        k = n if n < left else left
        if not whole and self.pieces > 0:
            self.pieces -= 1
            p = S.int("piece", 1)
            S.assume(p <= k)
            k = p
        if whole and k < n and self.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        b = self.data[self.pos:self.pos + k]
        self.pos = self.pos + k
        return b


class FakeFile(object):
    def __init__(self, source, buffered):
        self.source, self.buffered = source, buffered
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.source.left()
        return self.source.take(n, self.buffered)

    def read1(self, n=-1):
        if n < 0:
            n = self.source.left()
        return self.source.take(n, False)

    def readinto(self, buf):
        b = self.source.take(len(buf), self.buffered)
        buf[:len(b)] = b
        return len(b)

    def close(self):
        self.closed = True

    def flush(self):
        pass


class FakeRequest(object):
    """The accepted socket."""

    def __init__(self, source):
        self.source = source
        self.sent = b""
        self.writes = 0
        self.broken = False
        self.closed = False

    def makefile(self, mode="r", buffering=None, **kw):
        return FakeFile(self.source, buffering != 0)

    def recv(self, n, flags=0):
        return self.source.take(n, bool(flags & socket.MSG_WAITALL))

    def recv_into(self, buf, nbytes=0, flags=0):
        b = self.recv(nbytes or len(buf), flags)
        buf[:len(b)] = b
        return len(b)

    def sendall(self, data, flags=0):
        if self.broken:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.sent = self.sent + plain(data)
        self.writes += 1

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class FakeWriterFile(object):
    """As socketserver's unbuffered writer."""

    def __init__(self, sock):
        self.sock = sock
        self.closed = False

    def write(self, b):
        self.sock.sendall(b)
        return len(b)

    def writable(self):
        return True

    def fileno(self):
        return 7

    def flush(self):
        pass

    def close(self):
        self.closed = True


class ListeningSocket(object):
    def __init__(self, server):
        self.server = server

    def close(self):
        self.server.closed = True

    def shutdown(self, how):
        self.server.closed = True

    def fileno(self):
        return -1 if self.server.closed else 7

    def getsockname(self):
        return self.server.server_address


class FakeServer(object):
    """Keeps what the listener gave it and hands connections to the handler class."""

    def __init__(self, address, handler_class, bind_and_activate=True):
        self.server_address, self.RequestHandlerClass = address, handler_class
        self.stopped = self.closed = False
        self.socket = ListeningSocket(self)
        ENV.servers.append(self)

    def accept(self, request):
        """One connection, as socketserver runs it in its thread."""
        if self.closed:
            return ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        try:
            self.RequestHandlerClass(request, ("peer", 1), self)
        except Exception as e:
            return e
        return None

    def serve_forever(self, poll_interval=0.5):
        pass

    def shutdown(self):
        self.stopped = True

    def server_close(self):
        self.closed = True

    def close_request(self, request):
        request.close()

    def shutdown_request(self, request):
        request.close()

    def fileno(self):
        return self.socket.fileno()


def install(S):
    ENV.servers = []
    stubs.patch(socketserver, "ThreadingTCPServer", FakeServer)
    stubs.patch(socketserver, "_SocketWriter", FakeWriterFile)


def listener(S, world):
    meshenv.install_mesh(S, meshenv.refuse)
    install(S)
    from anthunder import SockListener
    lst = SockListener(("127.0.0.1", 12200), "app")
    lst.handler.register_interface(A, world.service(A))
    lst.handler.register_interface(B, world.service(B))
    lst.initialize() if False else None
    return lst, ENV.servers[0]


OUTCOMES = ["bytes", "raises", "OSError", "not bytes"]


def prepare(S, world, how):
    result = S.blob("result", 0, 1 << 32) if how == "bytes" else None
    if result is not None:
        S.assume(len(result) <= 0xffffffff)

    def outcome(obj, m, body):
        if how == "raises":
            raise services.Boom("x")
        if how == "OSError":
            raise OSError(errno.ENOENT, "no such file")
        return result
    world.outcome = outcome
    return result


@scenario("C13", variants=[{"pieces": 3, "end": e} for e in ("whole", "cut", "surplus")],
          thorough=[{"pieces": 6, "end": e} for e in ("whole", "cut", "surplus")], covers=["two-way", "one-way", "cut", "surplus"], hang=True,
          steps=20000)
def well_formed(S, pieces, end):
    """A well-formed request for a registered service that arrives whole, cut anywhere or with more bytes behind it."""
    world = services.World(S)
    lst, server = listener(S, world)
    rid = S.int("rid", *wire.I32)
    body = S.blob("body", 0, 1 << 32)
    S.assume(len(body) <= 0xffffffff)
    ptype = S.int("ptype", 1, 2)
    codec = S.int("codec")
    S.assume((codec == 1) | (codec == 2) | (codec == 11))
    pairs = services.named(S.choice("named", services.NAMED if end == "whole" else ["both"]), A,
                           S.choice("method", ["say", "shout"]) if end == "whole" else "say")
    data = services.frame(rid, pairs, body, ptype, timeout=S.int("timeout", *wire.I32), codec=codec)
    size = len(data)
    if end == "cut":
        cut = S.int("cut", 0)
        S.assume(cut < size)
        data = data[:cut]
    elif end == "surplus":
        data = data + S.blob("surplus", 1, 1 << 20)
    how = S.choice("outcome", OUTCOMES) if end == "whole" else "bytes"
    result = prepare(S, world, how)
    req = FakeRequest(Source(S, data, pieces, S.flag("reset")))
    if end == "whole":
        req.broken = S.flag("peer gone")
    server.accept(req)
    S.cover(end)
    if end == "cut":
        S.check(len(world.calls) == 0, "an incomplete request runs no service")
        S.check(req.writes == 0 or not ok_status(S, req.sent), "an incomplete request is not answered with success")
        return
    oneway = bool(ptype == wire.ONEWAY)
    S.cover("one-way" if oneway else "two-way")
    S.check(len(world.calls) == 1, "the service method runs once")
    if len(world.calls) == 1:
        obj, m, got = world.calls[0]
        S.check(obj.name == A and ("sofa_head_method_name", m) in pairs, "the addressed method")
        S.check(got == body, "exactly the request content")
    if oneway:
        S.check(len(req.sent) == 0, "a one-way request is not answered")
    elif req.broken:
        pass
    else:
        out = wire.split(S, wire.Resp, req.sent, "answer")
        if how == "bytes":
            S.check(len(out) == 1, "one response")
            if len(out) == 1:
                S.check(out[0].status == wire.SUCCESS, "SUCCESS")
                S.check(out[0].request_id == rid, "the request's id")
                S.check(out[0].content == result, "the returned bytes")
        else:
            S.check(len([f for f in out if f.status == wire.SUCCESS]) == 0, "no success is reported")
    S.observe("sent", req.sent)


def ok_status(S, sent):
    out = wire.split(S, wire.Resp, sent, "answer")
    return len([f for f in out if f.status == wire.SUCCESS]) > 0


@scenario("C13", covers=["missing", "unknown"], hang=True, steps=20000)
def not_found(S):
    """Missing and unknown names, services that cannot be created, malformed trace contexts."""
    world = services.World(S)
    lst, server = listener(S, world)
    rid = S.int("rid", *wire.I32)
    body = S.blob("body", 0, 1 << 20)
    prepare(S, world, "bytes")
    why = S.choice("why", ["unnamed", "unknown interface", "unknown method", "refused", "bad trace"])
    if why == "unnamed":
        pairs = services.unnamed(S.choice("unnamed", services.UNNAMED))
    elif why == "unknown interface":
        pairs = services.named(S.choice("named", services.NAMED), S.choice("which", ["com.x.A", "com.x.C:1.0", "Say", " "]))
    elif why == "unknown method":
        pairs = services.named(S.choice("named", services.NAMED), A, S.choice("which", ["sa", "Say", "none", "say "]))
    elif why == "refused":
        world.refuse = S.choice("refusal", [services.Boom("no"), ValueError("no"), AttributeError("no"), KeyError("no")])
        pairs = services.named("both", A)
    else:
        pairs = services.named("both", A) + [("rpc_trace_context.sofaTraceId", "x"), ("rpc_trace_context.sofaRpcId", "0.x")]
    oneway = S.flag("one-way")
    data = services.frame(rid, pairs, body, wire.ONEWAY if oneway else wire.REQUEST, timeout=S.int("timeout", *wire.I32))
    req = FakeRequest(Source(S, data, 1))
    server.accept(req)
    if why != "bad trace":
        S.check(len(world.calls) == 0, "no service runs")
    out = wire.split(S, wire.Resp, req.sent, "answer")
    S.check(len([f for f in out if f.status == wire.SUCCESS]) == 0 or len(world.calls) > 0, "no success is reported")
    if why == "unnamed":
        S.cover("missing")
        if not oneway:
            S.check(len(out) == 1, "one response")
            if len(out) == 1:
                S.check(out[0].status == wire.CLIENT_SEND_ERROR, "CLIENT_SEND_ERROR")
                S.check(out[0].request_id == rid, "the request's id")
                S.check(len(out[0].content) == 0, "no content")
    elif why.startswith("unknown"):
        S.cover("unknown")
    S.observe("sent", req.sent)


@scenario("C13", variants=[{"what": w} for w in ("fields", "class", "header", "lengths")], covers=["served", "not served"], hang=True,
          steps=20000)
def damaged(S, what):
    """Requests with arbitrary fixed-header fields, class names, damaged header maps, arbitrary length fields."""
    world = services.World(S)
    lst, server = listener(S, world)
    prepare(S, world, "bytes")
    f = {"proto": 1, "ptype": wire.REQUEST, "cmd": wire.CMD_REQUEST, "ver": 1, "codec": 11}
    cls = wire.REQ_CLASS
    hb = wire.header_bytes(services.named("target only", A))
    body = S.blob("body", 0, 1 << 20)
    tail = b""
    good = True
    if what == "fields":
        which = S.choice("which", ["proto", "ptype", "cmd", "ver", "codec"])
        for k in f:
            if which in (k, "all"):
                f[k] = S.int(k, 0, 65535 if k == "cmd" else 255)
        good = (f["proto"] == 1 and f["ver"] == 1 and f["cmd"] == wire.CMD_REQUEST
                and (f["ptype"] == 1 or f["ptype"] == 2) and (f["codec"] == 1 or f["codec"] == 2 or f["codec"] == 11))
        unsure = f["cmd"] != wire.CMD_RESPONSE and f["cmd"] != wire.HEARTBEAT
    elif what == "class":
        unsure = False
        how = S.choice("how", ["one byte", "empty", "response", "longer", "shorter", "any"])
        if how == "one byte":
            i = S.choice("at", [0, 20, len(cls) - 1])
            cls = cls[:i] + S.bytes("c", 1) + cls[i + 1:]
        elif how == "any":
            cls = S.blob("class", 0, 65535)
        else:
            cls = {"empty": b"", "response": wire.RESP_CLASS, "longer": cls + b"x", "shorter": cls[:-1]}[how]
        good = cls == wire.REQ_CLASS
    elif what == "header":
        unsure = False
        at = S.choice("at", [4, len(hb) - 1])
        if S.flag("length"):
            at = S.choice("entry", [0, len(hb) - len(wire.entry(A))])
            hb = hb[:at] + S.bytes("h", 4) + hb[at + 4:]
        else:
            hb = hb[:at] + S.bytes("h", 1) + hb[at + 1:]
        good = hb == wire.header_bytes(services.named("target only", A))
        unsure = True
    else:
        unsure = True
        cl, hl, bl = len(cls), len(hb), len(body)
        which = S.choice("which", ["class", "header", "content"])
        if which == "class":
            cl = S.choice("class_len", [0, len(cls) - 1, len(cls) + 1, len(cls) + 4, len(cls) + len(hb)])
            if S.flag("more"):
                cl = S.int("beyond", len(cls) + len(hb), 65535)
        elif which == "header":
            hl = S.choice("header_len", [0, 3, 4, len(hb) - 1, len(hb) + 1])
        else:
            bl = S.int("len", 0, 0xffffffff)
        good = cl == len(cls) and hl == len(hb) and bl <= len(body)
        unsure = not good
    rid = S.int("rid", *wire.I32)
    if what != "lengths":
        cl, hl, bl = len(cls), len(hb), len(body)
    data = (wire.num(f["proto"], 1) + wire.num(f["ptype"], 1) + wire.num(f["cmd"], 2) + wire.num(f["ver"], 1) + wire.num(rid, 4, True)
            + wire.num(f["codec"], 1) + wire.num(0, 4, True) + wire.num(cl, 2) + wire.num(hl, 2) + wire.num(bl, 4) + cls + hb + body)
    req = FakeRequest(Source(S, data, 0))
    server.accept(req)
    if good:
        S.cover("served")
        S.check(len(world.calls) == 1, "a well-formed request is served")
    else:
        S.cover("not served")
        if not unsure:
            S.check(len(world.calls) == 0, "no service runs")
        S.check(len(world.calls) <= 1, "no service runs twice")
        if len(world.calls) == 0 and f["cmd"] != wire.HEARTBEAT:
            out = wire.split(S, wire.Resp, req.sent, "answer")
            S.check(len([g for g in out if g.status == wire.SUCCESS]) == 0, "no success is reported")
    S.observe("sent", req.sent)
    S.observe("calls", len(world.calls))


@scenario("C11", variants=[{"pieces": 3}], thorough=[{"pieces": 6}], covers=["blocking heartbeat", "surplus", "half closed"], hang=True, steps=20000)
def blocking_heartbeat(S, pieces):
    """A heartbeat with any class name, header and content, cut anywhere, alone or with more bytes behind it."""
    world = services.World(S)
    lst, server = listener(S, world)
    prepare(S, world, "bytes")
    rid = S.int("rid", *wire.I32)
    codec = S.int("codec")
    S.assume((codec == 1) | (codec == 2) | (codec == 11))
    form = S.choice("form", ["empty", "any", "as a request"])
    cls = hdr = body = b""
    if form == "any":
        cls, hdr, body = S.blob("class", 0, 65535), S.blob("header", 0, 65535), S.blob("content", 0, 1 << 32)
        S.assume(len(body) <= 0xffffffff)
    elif form == "as a request":
        cls, hdr, body = wire.REQ_CLASS, wire.header_bytes(services.named("both", A)), S.blob("content", 0, 1 << 20)
    data = wire.request(S.int("ptype", 1, 2), wire.HEARTBEAT, rid, codec, S.int("timeout", *wire.I32), cls, hdr, body)
    if S.flag("surplus"):
        S.cover("surplus")
        data = data + S.blob("surplus", 1, 1 << 20)
    reset = S.flag("reset")
    if not reset:
        S.cover("half closed")
    req = FakeRequest(Source(S, data, pieces, reset))
    server.accept(req)
    S.cover("blocking heartbeat")
    out = wire.split(S, wire.Resp, req.sent, "answer")
    S.check(len(out) == 1, "one response")
    if len(out) == 1:
        f = out[0]
        S.check(f.cmdcode == wire.HEARTBEAT, "a heartbeat response")
        S.check(f.request_id == rid, "the request's id")
        S.check(f.status == wire.SUCCESS, "SUCCESS")
        S.check(f.class_len == 0 and f.header_len == 0 and f.content_len == 0, "empty")
    S.check(len(world.calls) == 0 and len(world.created) == 0, "a heartbeat runs no service")
    S.observe("sent", req.sent)


HOWS = ["positional", "named", "both", "again"]


@scenario("C10", variants=[{"n": 2, "pieces": 0, "how": h} for h in HOWS] + [{"n": 1, "pieces": 1, "how": "both"}], thorough=[{"n": 3, "pieces": 3, "how": h} for h in HOWS], covers=["traced", "untraced"], hang=True, steps=40000,
          quick_s=100)
def one_after_the_other(S, n, pieces, how):
    """Requests on connections of their own, one after the other, to services registered with and without extra arguments."""
    world = services.World(S)
    meshenv.install_mesh(S, meshenv.refuse)
    install(S)
    from anthunder import SockListener
    lst = SockListener(("127.0.0.1", 12200), "app")
    extra = object()
    args = ("arg", extra) if how in ("positional", "both", "again") else ()
    kwargs = {"key": extra} if how in ("named", "both") else {}
    if how == "again":
        lst.handler.register_interface(A, world.service("old"), "old")
    lst.handler.register_interface(A, world.service(A), *args, **kwargs)
    lst.handler.register_interface(B, world.service(B))
    server = ENV.servers[0]
    results = []

    def outcome(obj, m, body):
        results.append(S.blob("result", 0, 1 << 20))
        return results[-1]
    world.outcome = outcome
    for i in range(n):
        rid = S.int("rid", *wire.I32)
        inf, m = S.choice("interface", [A, B]), S.choice("method", ["say", "shout"]) if i else "shout"
        body = S.blob("body", 0, 1 << 20)
        traced = S.flag("traced") if i == 0 else not traced
        S.cover("traced" if traced else "untraced")
        entries = []
        if traced:
            trace, rpc = S.textblob("trace", 1, 100), ["0.1.10", "0.2", "7"][i]
            entries = [(services.PRE + "sofaTraceId", trace), (services.PRE + "sofaRpcId", rpc), (services.PRE + "user", "u%d" % i)]
        oneway = S.flag("one-way") if i == 0 else False
        data = services.frame(rid, services.named(S.choice("named", ["target only", "service only"]) if i == 0 and how == "positional" else "both", inf, m) + entries, body,
                              wire.ONEWAY if oneway else wire.REQUEST, timeout=S.int("timeout", *wire.I32))
        req = FakeRequest(Source(S, data, pieces if i == 0 else 0))
        server.accept(req)
        S.check(len(world.created) == i + 1, "one service object per request")
        S.check(len(world.calls) == i + 1, "its method runs once")
        if len(world.calls) != i + 1:
            S.stop()
        obj, got_m, got = world.calls[i]
        S.check(obj is world.created[i], "a service object of its own")
        S.check(obj.name == inf, "the addressed interface")
        S.check(got_m == m, "the addressed method")
        S.check(got == body, "exactly the request's content")
        S.check(obj.args == (args if inf == A else ()) and obj.kwargs == (kwargs if inf == A else {}), "the arguments given at registration")
        if traced:
            S.check(str(obj.ctx.baggage["sofaTraceId"]) == trace, "the request's trace id")
            S.check(str(obj.ctx.baggage["sofaRpcId"]) == rpc, "the request's rpc id")
            S.check(obj.ctx.baggage["user"] == "u%d" % i, "the request's baggage")
        if not oneway:
            out = wire.split(S, wire.Resp, req.sent, "answer")
            S.check(len(out) == 1, "one response")
            if len(out) == 1:
                S.check(out[0].request_id == rid, "the request's id")
                S.check(out[0].status == wire.SUCCESS and out[0].content == results[i], "the content its own service returned")
        S.observe("sent", req.sent)
