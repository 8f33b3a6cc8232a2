"""C20-C22: the blocking client."""
import errno
import gc
import selectors

from harness import meshenv, net, stubs, wire
from harness.stubs import ENV
from sx.scen import scenario

NAME = "com.x.A:1.0"
EPS = 0.001


class Wire(net.Peer):
    """The network and the server behind one call."""

    def __init__(self, S):
        self.S = S
        self.t0 = self.now = S.real("t0", 10 ** 9, 2 * 10 ** 9)
        self.reply = None           # request frame -> bytes
        self.sent = []              # [socket, bytes]
        self.data = None
        self.answered = False
        self.avail = self.pos = 0
        self.cuts = 0               # how many times the response may be cut into pieces
        self.delays = False
        self.last = "open"          # what happens after the response: open, eof, reset
        self.next_at = None
        self.partial = 0            # how many times a send may be cut
        self.slow_send = None
        self.dead = 0               # the first so many sockets are unusable
        self.send_error = None
        self.tried = []
        self.spins = 0
        self.sock = None
        self.selects_late = 0
        self.deadline = None
        self.eof_seen = 0

    # -- connecting
    def connecting(self, sock, address):
        if len(ENV.sockets) <= self.dead:
            sock.dead = True

    def watched(self, sock, events):
        if events & selectors.EVENT_WRITE:
            s = sock if isinstance(sock, net.FakeSocket) else getattr(sock, "sock", sock)
            if s not in self.tried:
                self.tried.append(s)

    # -- sending
    def send(self, sock, data):
        S = self.S
        n = len(data)
        if self.send_error is not None:
            raise self.send_error
        if self.slow_send is not None and self.slow_send != "never" and self.now < self.slow_send:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if self.partial > 0:
            self.partial -= 1
            k = S.int("accepted", 1)
            S.assume(k <= n)
            n = k
        for e in self.sent:
            if e[0] is sock:
                e[1] = e[1] + data[:n]
                break
        else:
            self.sent.append([sock, data[:n]])
        return n

    def writable(self, sock):
        if self.slow_send is None:
            return True
        if self.slow_send == "never":
            return False
        return self.now >= self.slow_send

    # -- receiving
    def start(self, sock):
        """The response is decided when the client first looks for it."""
        if not self.answered and self.reply is not None and len(self.sent) > 0 and self.sent[-1][0] is sock:
            self.answered = True
            new = self.reply(self.sent[-1][1])
            if self.sock is sock:
                new = self.data + new
            else:
                self.avail = self.pos = 0
                self.sock = sock
            self.data = new
            self.plan()

    def again(self, reply):
        """Another call follows."""
        self.reply = reply
        self.sent = []
        self.answered = False

    def plan(self):
        """When the next piece arrives."""
        if self.data is None or self.avail >= len(self.data):
            return
        d = self.S.real("delay", 0, 10 ** 7) if self.delays else 0
        self.next_at = self.now + d
        if self.deadline is not None and self.delays:
            # the clock is a float: what happens within its rounding of the deadline is left open
            self.S.assume((self.next_at < self.deadline - EPS) | (self.next_at > self.deadline + EPS))

    def arrive(self):
        S = self.S
        left = len(self.data) - self.avail
        k = left
        if self.cuts > 0:
            self.cuts -= 1
            k = S.int("piece", 1)
            S.assume(k <= left)
        self.avail = self.avail + k
        self.next_at = None
        self.plan()

    def over(self):
        return self.data is not None and self.avail >= len(self.data)

    def readable(self, sock):
        if self.data is None or sock is not self.sock:
            return False
        if self.avail > self.pos:
            return True
        return self.over() and self.last != "open"

    def select(self, sel, timeout):
        S = self.S
        self.spins += 1
        if self.spins > 60:
            S.fail("never keeps polling")
            S.stop()
        reading = False
        for k in sel.keys:
            if k.events & selectors.EVENT_READ:
                reading = True
                self.start(net.sock_of(k.fd))
        if reading and self.deadline is not None and self.now > self.deadline + EPS:
            self.selects_late += 1
        end = None if timeout is None else self.now + (timeout if timeout > 0 else 0)
        while True:
            r = self.ready(sel)
            if r:
                return r
            nxt = self.next_at if reading else None
            for k in sel.keys:
                if k.events & selectors.EVENT_WRITE and self.slow_send is not None and self.slow_send != "never":
                    nxt = self.slow_send
            if nxt is None or (end is not None and nxt > end):
                if end is None:
                    S.fail("never waits forever")
                    S.stop()
                self.now = end
                return []
            if nxt > self.now:
                self.now = nxt
            if reading and self.next_at is not None:
                self.arrive()

    def recv(self, sock, n):
        S = self.S
        if self.data is None or sock is not self.sock:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        have = self.avail - self.pos
        if have <= 0:
            if not self.over() or self.last == "open":
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if self.last == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            self.eof_seen += 1
            if self.eof_seen > 20:
                S.fail("never keeps polling")
                S.stop()
            return b""
        k = n if n < have else have
        b = self.data[self.pos:self.pos + k]
        self.pos = self.pos + k
        return b


def client(S, w, start=None):
    ENV.time = lambda: w.now
    if start is None:
        start = S.int("id start", 0, 2 ** 31 - 1)
    ENV.randint = lambda a, b: start
    meshenv.install_mesh(S, meshenv.refuse)
    net.install_sockets(S, w)
    from anthunder import SERVICE_MAP, Client
    from mytracer.helpers import tracer
    SERVICE_MAP[NAME] = ("127.0.0.1", 12200)
    c = Client("app")
    return c, tracer.start_span("op").context


def invoke(S, c, ctx, content, timeout_ms):
    try:
        return c.invoke_sync(NAME, "say", content, spanctx=ctx, timeout_ms=timeout_ms), None
    except Exception as e:
        if ENV.debug:
            import traceback
            traceback.print_exc()
        return None, e


def any_status(S, name):
    st = S.int(name)
    c = False
    for v in wire.STATUS:
        c = (st == v) | c
    S.assume(c)
    return st


def respond(S, kind, rid, content):
    """A response frame: kind decides what is arbitrary about it."""
    f = {"ptype": wire.RESPONSE, "cmd": wire.CMD_RESPONSE, "codec": 11, "status": 0, "cls": wire.RESP_CLASS, "hb": b""}
    if kind == "fields":
        f["status"] = any_status(S, "status")
        rid = S.int("other id", *wire.I32)
        f["codec"] = S.choice("codec", [11, 1])
    elif kind == "header":
        f["hb"] = wire.header_bytes([(S.textblob("hk", 0, 1000), S.textblob("hv", 0, 1000))])
    elif kind == "bad header":
        f["hb"] = S.choice("bad", [b"\x00\x00\x00\x01a", b"\x00\x00\x00\x05abcd", b"\x00", b"\xff\xff\xff\xfe", b"\x00\x00\x00\x01\xff\x00\x00\x00\x00"])
    elif kind == "bad field":
        which = S.choice("which", ["codec", "status", "ptype", "cmd", "proto"])
        if which == "status":
            f["status"] = S.int("status", 19, 32767)
        elif which == "proto":
            f["proto"] = S.choice("value", [0, 2, 255])
        else:
            f[which] = S.choice("value", [3, 12, 127])
    return f, rid, (wire.num(f.get("proto", 1), 1) + wire.num(f["ptype"], 1) + wire.num(f["cmd"], 2) + wire.num(1, 1)
                    + wire.num(rid, 4, True) + wire.num(f["codec"], 1) + wire.num(f["status"], 2) + wire.num(len(f["cls"]), 2)
                    + wire.num(len(f["hb"]), 2) + wire.num(len(content), 4) + f["cls"] + f["hb"] + content)


KINDS = ["plain", "fields", "header", "bad header", "bad field"]


@scenario("C20", variants=[{"kind": k, "cuts": 3 if k in ("plain", "header") else 1, "last": l} for k in KINDS for l in ("open", "eof")
                                 if l == "open" or k in ("plain", "header")],
          thorough=[{"kind": k, "cuts": 5 if k in ("plain", "header") else 2, "last": l} for k in KINDS for l in ("open", "eof")],
          covers=["content", "ServerError", "protocol error"], hang=True)
def response(S, kind, cuts, last):
    """One call, any response, cut into pieces of any size, surplus bytes or the end of the stream after it."""
    w = Wire(S)
    w.cuts = cuts
    w.last = last
    content = S.blob("content", 0, 1 << 32)
    S.assume(len(content) <= 0xffffffff)
    if kind not in ("plain", "header"):
        S.assume(len(content) <= 1000)
    box = {}

    def reply(sent):
        r = wire.Req(sent)
        box["rid"] = r.request_id
        box["f"], box["got"], data = respond(S, kind, r.request_id, content)
        if kind == "plain" and S.flag("surplus"):
            data = data + S.blob("surplus", 1, 1000)
        return data
    w.reply = reply
    c, ctx = client(S, w)
    from anthunder.exceptions import PyboltError, ServerError
    from anthunder.protocol.exceptions import ProtocolError
    ret, exc = invoke(S, c, ctx, b"question", 5000)
    if "f" not in box:
        S.fail("a response is waited for")
        return
    f = box["f"]
    if kind.startswith("bad"):
        S.check(isinstance(exc, ProtocolError), "undecodable response: protocol error")
        S.cover("protocol error")
    elif box["got"] == box["rid"] and f["status"] == wire.SUCCESS:
        S.check(exc is None, "its own complete SUCCESS response is returned")
        if exc is None:
            S.check(isinstance(ret, bytes), "bytes")
            S.check(ret == content, "exactly the content of the response")
        S.cover("content")
    else:
        S.check(isinstance(exc, ServerError), "another status or id: ServerError")
        S.cover("ServerError")
    S.observe("ret", ret)


@scenario("C20", variants=[{"cuts": 1}], thorough=[{"cuts": 3}], covers=["after success", "after timeout", "after error"], hang=True)
def next_call(S, cuts):
    """A second call after one that succeeded, timed out or failed, with bytes of the first response possibly left over."""
    w = Wire(S)
    w.cuts = cuts
    w.delays = True
    first = S.choice("first", ["success", "surplus", "status", "other id"])
    one = S.blob("one", 0, 1000)

    def reply1(sent):
        rid = wire.Req(sent).request_id
        st = 0
        if first == "status":
            st = 7
        if first == "other id":
            other = S.int("other id", *wire.I32)
            S.assume(other != rid)
            rid = other
        data = frame(rid, one, st)
        if first == "surplus":
            data = data + S.blob("surplus", 1, 100)
        return data
    w.reply = reply1
    c, ctx = client(S, w)
    w.deadline = w.t0 + 2
    ret, exc = invoke(S, c, ctx, b"q", 1000)
    if exc is None:
        S.check(first in ("success", "surplus"), "only its own SUCCESS response is returned")
        S.check(ret == one, "exactly the content of the response")
        S.cover("after success")
    elif isinstance(exc, TimeoutError):
        S.cover("after timeout")
    else:
        S.cover("after error")
    w.deadline = None
    if w.next_at is not None:
        w.delays = False
    if S.flag("in between"):
        w.now = w.now + 10 ** 7
        while w.next_at is not None:
            w.arrive()
    two = S.blob("two", 0, 1000)
    w.delays = False
    w.cuts = 0
    w.again(lambda sent: frame(wire.Req(sent).request_id, two))
    ret, exc = invoke(S, c, ctx, b"q", 5000)
    if first == "surplus":
        return          # what is read of the surplus is up to the timing
    S.check(exc is None, "the second call gets its own response")
    if exc is None:
        S.check(ret == two, "the second call's content")


def frame(rid, content, status=0):
    return wire.response(wire.RESPONSE, wire.CMD_RESPONSE, rid, 11, status, wire.RESP_CLASS, b"", content)


ENDS = [(h, l) for h in ("complete", "cut", "nothing") for l in ("open", "eof", "reset")]


@scenario("C21", variants=[{"cuts": 2, "time": "int", "how": h, "last": l} for h, l in ENDS]
          + [{"cuts": 1, "time": "real", "how": h, "last": l} for h, l in ENDS if l != "reset"],
          thorough=[{"cuts": 4, "time": t, "how": h, "last": l} for t in ("int", "real") for h, l in ENDS],
          covers=["timeout", "cut off", "in time"], hang=True)
def endings(S, cuts, time, how, last):
    """The response arrives in pieces at any times, may be cut anywhere by the end of the stream or a reset, or never be completed."""
    w = Wire(S)
    w.cuts = cuts
    w.delays = True
    content = S.blob("content", 0, 1000)
    w.last = last
    box = {}

    def reply(sent):
        data = respond(S, "plain", wire.Req(sent).request_id, content)[2]
        n = len(data)
        if how == "cut":
            n = S.int("cut", 1)
            S.assume(n < len(data))
        elif how == "nothing":
            n = 0
        box["complete"] = how == "complete"
        return data[:n]
    w.reply = reply
    c, ctx = client(S, w)
    if time == "int":
        timeout = S.int("timeout_ms", 1, 10 ** 9)
    else:
        timeout = S.real("timeout_ms", 0, 10 ** 6)
        S.assume(timeout > 0)
    w.deadline = w.t0 + timeout / 1000 + 1
    ret, exc = invoke(S, c, ctx, b"q", timeout)
    S.check(w.selects_late == 0, "no polling after the deadline")
    if exc is None:
        S.check(how == "complete" and w.over(), "no return without a complete response")
        S.check(w.now <= w.deadline + EPS, "a response completed after the deadline is a timeout")
        S.cover("in time")
    elif isinstance(exc, TimeoutError) and getattr(exc, "errno", None) is None:
        S.check(w.now >= w.deadline - EPS, "no timeout before the deadline")
        S.cover("timeout")
    else:
        S.check(w.over() and w.last != "open", "an error without timeout only at the end of the stream")
        S.check(how != "complete", "a complete response is returned")
        S.check(w.now <= w.deadline + EPS, "the end of the stream after the deadline is a timeout")
        S.cover("cut off")


@scenario("C21", covers=["timeout", "sent"], hang=True)
def slow_send(S):
    """The socket accepts the request late or never."""
    w = Wire(S)
    w.slow_send = "never" if S.flag("never") else w.t0 + S.real("accepts after", 0, 10 ** 6)
    w.partial = 1
    w.reply = lambda sent: respond(S, "plain", wire.Req(sent).request_id, b"x")[2]
    c, ctx = client(S, w)
    timeout = S.int("timeout_ms", 1, 10 ** 7)
    w.deadline = w.t0 + timeout / 1000 + 1
    ret, exc = invoke(S, c, ctx, b"q", timeout)
    S.check(w.now <= w.deadline + EPS, "ends by the deadline")
    if exc is None:
        S.cover("sent")
    else:
        S.cover("timeout")
        S.check(isinstance(exc, TimeoutError), "TimeoutError")
        S.check(w.now >= w.deadline - EPS, "no timeout before the deadline")


# ------------------------------------------------------------------------------------------------------------- C22

@scenario("C22", variants=[{"partial": 2}], thorough=[{"partial": 4}], covers=["one-way", "two-way"], hang=True)
def request_frame(S, partial):
    """Every kind of call, the socket accepting any number of bytes at a time."""
    w = Wire(S)
    w.partial = partial
    w.reply = lambda sent: respond(S, "plain", wire.Req(sent).request_id, b"x")[2]
    content = S.blob("content", 0, 1 << 20)
    c, ctx = client(S, w)
    oneway = S.flag("one-way")
    t = 0
    if oneway:
        try:
            c.invoke_oneway(NAME, "say", content, spanctx=ctx)
            exc = None
        except Exception as e:
            exc = e
    else:
        t = S.int("timeout_ms", 1, 2 ** 31 - 1) if S.flag("whole ms") else S.real("timeout_ms", 0, 10 ** 6)
        S.assume(t > 0)
        ret, exc = invoke(S, c, ctx, content, t)
    S.check(exc is None, "the call succeeds")
    S.check(len(w.sent) == 1, "one connection is written to")
    if len(w.sent) != 1:
        return
    check_frame(S, w.sent[0][1], oneway, content, t)
    S.cover("one-way" if oneway else "two-way")


def check_frame(S, data, oneway, content, t, name=NAME):
    out = wire.split(S, wire.Req, data, "request")
    S.check(len(out) == 1, "one complete frame")
    if len(out) != 1:
        return
    r = out[0]
    S.check(r.cmdcode == wire.CMD_REQUEST, "a request")
    S.check(r.class_name == wire.REQ_CLASS, "class name")
    S.check(r.content == content, "the content given")
    if oneway:
        S.check(r.ptype == wire.ONEWAY, "type one-way")
    else:
        S.check(r.ptype == wire.REQUEST, "type request")
        S.check(r.timeout >= t - 1, "the call's timeout")
        S.check(r.timeout <= t + 1, "the call's timeout")
    try:
        h = wire.parse_header(r.header)
    except wire.Bad:
        h = {}
    S.check(h.get("sofa_head_target_service") == name or h.get("service") == name, "names the interface")
    S.check(h.get("sofa_head_method_name") == "say", "names the method")


THEN = ["fine", "refused", "broken pipe", "dies"]


@scenario("C22", variants=[{"most": 12, "broken": b} for b in THEN], thorough=[{"most": 20, "broken": b} for b in THEN], covers=["retried", "failed"], hang=True, quick_s=100)
def unusable(S, most, broken):
    """The first connections are unusable, or sending fails after some bytes."""
    w = Wire(S)
    w.dead = S.choice("dead", most + 1)
    w.partial = 1
    w.reply = lambda sent: respond(S, "plain", wire.Req(sent).request_id, b"answer")[2]
    if broken == "refused":
        w.send_error = ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    elif broken == "broken pipe":
        first = w.send
        state = [0]

        def send(sock, data):
            state[0] += 1
            if state[0] == 2:
                w.send_error = BrokenPipeError(errno.EPIPE, "Broken pipe")
            return first(sock, data)
        w.send = send
    elif broken == "dies":
        first = w.send

        def send(sock, data):
            n = first(sock, data)
            if n < len(data):
                sock.dead = True
            return n
        w.send = send
    content = S.blob("content", 0, 1000)
    c, ctx = client(S, w)
    oneway = S.flag("one-way")
    if oneway:
        try:
            c.invoke_oneway(NAME, "say", content, spanctx=ctx)
            exc = None
        except Exception as e:
            exc = e
    else:
        ret, exc = invoke(S, c, ctx, content, 5000)
    tried = len(w.tried)
    S.check(tried <= 3, "at most two retries")
    dead = [s for s in w.tried if s.dead]
    if exc is None:
        S.check(len(w.sent) > 0, "sent")
        if len(w.sent) > 0:
            # every attempt encodes the same request: what is shorter than the last one is no complete frame
            frame = w.sent[-1][1]
            check_frame(S, frame, oneway, content, 5000)
            for sock, data in w.sent[:-1]:
                S.check(len(data) < len(frame), "one complete frame on one connection")
        if not oneway:
            S.check(ret == b"answer", "the answer")
        if len(dead) > 0:
            S.cover("retried")
    else:
        S.cover("failed")
        S.check(w.send_error is not None or len(dead) == 3, "fails only when sending failed or three connections were unusable")
    S.observe("tried", tried)


@scenario("C22", variants=[{"n": 40}], thorough=[{"n": 150}], covers=["retried", "failed"], hang=True)
def unusable_after_many(S, n):
    """Many calls of one kind, then one whose first connections are unusable."""
    w = Wire(S)
    w.t0 = w.now = 1500000000
    c, ctx = client(S, w, 1000)
    oneway = S.flag("one-way before")

    def reply(sent):
        return respond(S, "plain", wire.Req(sent).request_id, b"answer")[2]
    for i in range(n):
        w.again(reply)
        w.spins = w.eof_seen = 0
        if oneway:
            c.invoke_oneway(NAME, "say", b"q", spanctx=ctx)
        else:
            ret, exc = invoke(S, c, ctx, b"q", 5000)
            S.check(exc is None and ret == b"answer", "a call whose server answers succeeds")
    w.again(reply)
    w.spins = w.eof_seen = 0
    w.tried = []
    bad = S.choice("unusable", [0, 1, 2, 3, 8, 20])
    for s in ENV.sockets:
        s.dead = s.dead or (not s.closed and bad > 0)
    old = len(ENV.sockets)
    w.dead = old + bad
    content = S.blob("content", 0, 1000)
    ret, exc = invoke(S, c, ctx, content, 5000)
    dead = [s for s in w.tried if s.dead]
    S.check(len(w.tried) <= 3, "at most two retries")
    if exc is None:
        S.check(ret == b"answer", "the answer")
        S.check(len(w.sent) == 1, "sent once")
        if len(w.sent) == 1:
            check_frame(S, w.sent[0][1], False, content, 5000)
        if len(dead) > 0:
            S.cover("retried")
    else:
        S.cover("failed")
        S.check(len(dead) == 3, "fails only when three connections were unusable")
    S.observe("tried", len(w.tried))


# ------------------------------------------------------------------------------------------------------------- C37

WAYS = ["answered", "one-way", "status", "other id", "bad header", "bad field", "never answered", "cut off", "reset", "send breaks",
        "never accepted", "refused", "not encodable", "mixed"]


@scenario("C37", variants=[{"way": k, "n": 45, "cuts": 0, "first": f} for k in WAYS for f in (WAYS[:-1] if k == "mixed" else [k])], thorough=[{"way": k, "n": 130, "cuts": 1, "first": f} for k in WAYS for f in (WAYS[:-1] if k == "mixed" else [k])],
          covers=["afterwards"], hang=True)
def ever_after(S, way, n, cuts, first):
    """Many calls that all end in one way, or in two ways by turns, then one whose server answers."""
    w = Wire(S)
    w.t0 = w.now = 1500000000
    ways = [way]
    if way == "mixed":
        ways = [first, S.choice("two", WAYS[:-1])]
    st = 7
    if way == "status":
        st = any_status(S, "status")
        S.assume(st != 0)
    other = S.int("other id", *wire.I32)
    bad = b"\x00\x00\x00\x05abcd"
    cut = S.int("cut", 0, 19) if way in ("cut off", "reset") else 7
    timeout = S.int("timeout_ms", 1, 10 ** 7)
    c, ctx = client(S, w, 1000)
    most = 0
    real_send = w.send

    def broken(sock, data):
        raise BrokenPipeError(errno.EPIPE, "Broken pipe")
    for i in range(n):
        k = ways[i % len(ways)]
        w.send = broken if k == "send breaks" else real_send
        w.slow_send = "never" if k == "never accepted" else None
        w.dead = 10 ** 9 if k == "refused" else 0
        w.last = {"cut off": "eof", "reset": "reset"}.get(k, "open")
        w.cuts = cuts if i == 0 else 0
        w.spins = w.eof_seen = 0

        def reply(sent):
            rid = wire.Req(sent).request_id
            if k == "other id":
                S.assume(other != rid)
                return frame(other, b"foreign")
            if k == "status":
                return frame(rid, b"", st)
            if k == "bad header":
                return wire.response(wire.RESPONSE, wire.CMD_RESPONSE, rid, 11, 0, wire.RESP_CLASS, bad, b"x")
            if k == "bad field":
                return wire.response(wire.RESPONSE, wire.CMD_RESPONSE, rid, 77, 0, wire.RESP_CLASS, b"", b"x")
            if k == "never answered":
                return b""
            if k in ("cut off", "reset"):
                return frame(rid, b"x")[:cut]
            return frame(rid, b"x")
        w.again(reply)
        if k == "one-way":
            ret, exc = None, None
            try:
                c.invoke_oneway(NAME, "say", b"q", spanctx=ctx)
            except Exception as e:
                exc = e
        else:
            ret, exc = invoke(S, c, ctx, 5 if k == "not encodable" else b"q", timeout)
        if k in ("answered", "one-way"):
            S.check(exc is None, "a call whose server answers succeeds")
        else:
            S.check(exc is not None, "a call without an answer of its own fails")
        exc = None
        open_now = len([s for s in ENV.sockets if not s.closed])
        if open_now > 20:
            gc.collect()
            open_now = len([s for s in ENV.sockets if not s.closed])
        if open_now > most:
            most = open_now
    S.check(most <= 20, "no more sockets stay open than a pool may have")
    w.send = real_send
    w.slow_send = None
    w.dead = 0
    w.last = "open"
    w.spins = w.eof_seen = 0
    w.again(lambda sent: frame(wire.Req(sent).request_id, b"at last"))
    ret, exc = invoke(S, c, ctx, b"q", 5000)
    S.check(exc is None, "a later call whose server answers succeeds")
    if exc is None:
        S.check(ret == b"at last", "its own content")
        S.cover("afterwards")
    S.observe("ret", ret)
