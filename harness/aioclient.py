"""C14-C19: the asyncio client on a virtual event loop."""
import errno

from harness import aio, meshenv, wire
from harness.aio import EPS, Conn
from harness.stubs import ENV
from sx.scen import scenario

NAME, OTHER = "com.x.A:1.0", "com.x.B:1.0"
MESH = ("127.0.0.1", 12220)
FAR = ("192.0.2.7", 12200)


class Remote(Conn):
    """The server's end of one connection: takes requests apart as they come in."""

    def __init__(self, world, doomed=False):
        super().__init__(world.hub)
        self.world = world
        self.doomed = doomed        # breaks as soon as it is up
        self.rest = b""
        self.frames = []
        world.remotes.append(self)

    def opened(self, t):
        super().opened(t)
        if self.doomed:
            t.fail(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))

    def wrote(self, t, data):
        self.rest = self.rest + data
        while len(self.rest) >= wire.REQ_SIZE:
            f = wire.Req(self.rest)
            if not len(self.rest) >= f.size:
                break
            self.rest = self.rest[f.size:]
            f.at = self.hub.loops[-1].now
            f.remote = self
            self.frames.append(f)
            self.world.frames.append(f)
            self.world.received(f)

    def alive(self):
        return self.t is not None and not self.t.lost and not self.t.closing


class Event(object):
    """Something that happens once."""

    def __init__(self, hub, fn, ready=None):
        self.fn, self.cond = fn, ready
        self.hub = hub
        self.fired = False
        self.at = None
        hub.add(self)

    def ready(self):
        return not self.fired and (self.cond is None or self.cond())

    def fire(self):
        self.fired = True
        self.at = self.hub.loops[-1].now
        self.fn()


class Reply(Event):
    """Bytes from the server, possibly in pieces."""

    def __init__(self, remote, data, pieces=0, ready=None):
        self.remote, self.data, self.pieces = remote, data, pieces
        self.begun = False
        super().__init__(remote.hub, None, ready)

    def ready(self):
        return super().ready() and self.remote.alive() and (self.begun or not self.remote.busy_with(self))

    def fire(self):
        S = self.hub.S
        self.begun = True
        if self.pieces > 0:
            self.pieces -= 1
            k = S.int("piece", 1)
            S.assume(k <= len(self.data))
            if k < len(self.data):
                d, self.data = self.data[:k], self.data[k:]
                self.remote.writing = self
                self.remote.t.feed(d)
                return
        self.remote.writing = None
        self.fired = True
        self.at = self.hub.loops[-1].now
        self.remote.world.delivered.append(self)
        self.remote.t.feed(self.data)


def _busy(self, reply):
    w = getattr(self, "writing", None)
    return w is not None and w is not reply


Remote.busy_with = _busy


class World(object):
    """The network, the servers behind it and a client."""

    def __init__(self, S, clocked=False, mesh=None, start=None):
        meshenv.install_mesh(S, mesh or meshenv.refuse)
        ENV.time = lambda: 1500000000.0
        if start is not None:
            ENV.randint = lambda a, b: start
        self.S = S
        self.hub = hub = aio.install(S)
        hub.clocked = clocked
        self.remotes, self.frames, self.delivered = [], [], []
        self.received = lambda f: None
        self.dialled = lambda d: Remote(self)
        hub.on_dial = lambda d: self.dialled(d)
        from anthunder import AioClient
        self.client = AioClient("app")
        from mytracer import SpanContext
        self.ctx = SpanContext()
        self.calls = []

    def run(self):
        threads = [t for t in self.hub.threads if t.target is not None]
        self.S.check(len(threads) == 1, "one loop thread")
        threads[0].run()

    def frame_of(self, content):
        """The frames that carry this content."""
        return [f for f in self.frames if f.content == content]


class Call(object):
    """One asynchronous call, made at a time of its own."""

    def __init__(self, world, content, name=NAME, after=None, callback=None, timeout_ms=None, method="say"):
        self.world, self.content, self.name, self.method = world, content, name, method
        self.callback, self.timeout_ms = callback, timeout_ms
        self.future = None
        self.rid = None
        self.error = None
        world.calls.append(self)
        self.event = Event(world.hub, self.start, after)

    def start(self):
        w = self.world
        self.future = w.client.invoke_async(self.name, self.method, self.content, spanctx=w.ctx, callback=self.callback,
                                            timeout_ms=self.timeout_ms)

    def ended(self):
        return self.future is not None and self.future.done()

    def outcome(self):
        """("content", bytes), ("error", exception) or None while it waits."""
        if not self.ended():
            return None
        if self.future.cancelled():
            return ("cancelled", None)
        e = self.future.exception()
        if e is not None:
            return ("error", e)
        r = self.future.result()
        return ("content", None if r is None else r.content)


def answer(rid, content, status=wire.SUCCESS, cmdcode=wire.CMD_RESPONSE, header=b"", ptype=wire.RESPONSE, codec=11, cls=wire.RESP_CLASS):
    return wire.response(ptype, cmdcode, rid, codec, status, cls, header, content)


def leftovers(client, ids):
    """Places in the client that still know one of the ids."""
    out = []

    def look(name, v, deep):
        if isinstance(v, (dict, set, list, tuple)) and deep < 4:
            for x in list(v):
                look(name, x, deep + 1)
                if isinstance(v, dict):
                    if isinstance(v[x], (dict, set, list, tuple)):
                        look(name, v[x], deep + 1)
        elif deep > 0 and isinstance(v, int) and not isinstance(v, bool):
            for i in ids:
                if v == i:
                    out.append(name)
    for k, v in sorted(vars(client).items()):
        look(k, v, 0)
    return out


def expected(S, call, replies):
    """Compare a call with the responses to it, in the order they arrived."""
    mine = [r for r in replies if r.rid is not None and r.rid == call.rid]
    got = call.outcome()
    if len(mine) == 0:
        S.check(got is None, "no outcome without a response")
        return None
    S.check(got is not None, "a call whose response arrived ends")
    if got is None:
        return None
    first = mine[0]
    if first.status == wire.SUCCESS:
        S.check(got[0] == "content", "the call returns")
        if got[0] == "content":
            S.check(got[1] == first.content, "the content of its own response")
    return mine


# ------------------------------------------------------------------------------------------------------------- C14

@scenario("C14", variants=[{"n": 2, "extra": x, "early": e, "full": 0} for x in ("none", "duplicate", "unknown") for e in (0, 1)]
          + [{"n": 3, "extra": "none", "early": 0, "full": 0}, {"n": 1, "extra": "duplicate", "early": 1, "full": 1}],
          covers=["returned", "in order", "out of order"], hang=True, steps=60000)
def own_response(S, n, extra, early, full):
    """Calls in flight on one connection, each answered once, the responses in any order, with duplicates and unknown ids among them."""
    w = World(S, start=S.int("start", 0, 0x7fffffff))
    hub = w.hub
    hub.early, hub.full = early, full
    bodies = ["q%d" % i for i in range(n)]
    replies = []

    def reply(remote, rid, status=wire.SUCCESS):
        content = S.blob("content", 0, 1 << 32)
        S.assume(len(content) <= 0xffffffff)
        r = Reply(remote, answer(rid, content, status))
        r.rid, r.content, r.status = rid, content, status
        replies.append(r)

    def received(f):
        c = [c for c in w.calls if f.content == c.content][0]
        S.check(c.rid is None, "each request is sent once")
        c.rid = f.request_id
        reply(f.remote, f.request_id)
        if extra == "duplicate" and c is w.calls[0]:
            reply(f.remote, f.request_id)
        if extra == "unknown" and c is w.calls[0]:
            u = S.int("unknown", *wire.I32)
            for i in range(n):
                S.assume(u != (w.calls[0].rid + i) % 0x80000000)
            reply(f.remote, u)
    w.received = received
    for i in range(n):
        Call(w, bodies[i].encode(), after=(lambda i=i: i == 0 or w.calls[i - 1].event.fired))
    w.run()
    order = []
    for c in w.calls:
        S.check(c.rid is not None, "the request is sent")
        mine = [r for r in w.delivered if r.rid == c.rid] if c.rid is not None else []
        got = c.outcome()
        S.check(len(mine) > 0 and got is not None, "a call whose response arrived returns")
        if len(mine) == 0 or got is None:
            continue
        S.check(got[0] == "content", "the call returns")
        if got[0] == "content":
            S.cover("returned")
            S.check(got[1] == mine[0].content, "the content of its own response")
        order.append(w.delivered.index(mine[0]))
    S.cover("in order" if order == sorted(order) else "out of order")
    if n == 1:
        S.cover("out of order")
    for r in w.remotes:
        S.observe("sent", r.t.sent)


@scenario("C14", variants=[{"pieces": 2}], thorough=[{"pieces": 4}], covers=["returned"], hang=True, steps=60000)
def in_pieces(S, pieces):
    """The responses to two calls in one stream that is cut anywhere."""
    w = World(S)
    got, contents = [], []

    def received(f):
        got.append(f)
        if len(got) == 2:
            a, b = (0, 1) if S.flag("in order") else (1, 0)
            contents.extend([S.blob("content", 0, 1 << 20), S.blob("content", 0, 1 << 20)])
            k = S.textblob("key", 0, 100)
            Reply(f.remote, answer(got[a].request_id, contents[a]) + answer(got[b].request_id, contents[b], header=wire.header_bytes([(k, "v")])),
                  pieces)
    w.received = received
    for i in range(2):
        Call(w, b"q%d" % i, after=(lambda i=i: i == 0 or w.calls[0].event.fired))
    w.run()
    S.check(len(got) == 2, "each request is sent once")
    for c in w.calls:
        k = [i for i in range(len(got)) if got[i].content == c.content]
        out = c.outcome()
        S.check(out is not None and out[0] == "content", "a call whose response arrived returns")
        if len(k) == 1 and out is not None and out[0] == "content":
            S.cover("returned")
            S.check(out[1] == contents[k[0]], "the content of its own response")


@scenario("C14", variants=[{"n": 2, "early": 0}, {"n": 1, "early": 1}], thorough=[{"n": 3, "early": 0}, {"n": 2, "early": 1}],
          covers=["returned", "failed"], hang=True, steps=60000)
def answered_then_closed(S, n, early):
    """The server closes the connection right behind one of its responses."""
    w = World(S)
    w.hub.early = early
    last = S.choice("last", n + 1)      # n: never

    def received(f):
        r = Reply(f.remote, answer(f.request_id, f.content))
        r.rid, r.content = f.request_id, f.content
        feed = r.fire

        def fire():
            feed()
            if last < n and w.delivered.index(r) == last:
                f.remote.t.eof()
        r.fire = fire
    w.received = received
    for i in range(n):
        Call(w, b"q%d" % i, after=(lambda i=i: i == 0 or w.calls[i - 1].event.fired))
    w.run()
    for c in w.calls:
        out = c.outcome()
        S.check(out is not None, "the call ends")
        if out is None:
            continue
        if any(r.content == c.content for r in w.delivered):
            S.check(out[0] == "content", "a call whose response arrived returns")
            S.check(out[0] != "content" or out[1] == c.content, "the content of its own response")
            S.cover("returned")
        else:
            S.check(out[0] == "error", "no response, no content")
        S.cover("failed" if out[0] == "error" or n == 1 else "returned")


class Sync(object):
    """One blocking call in a thread of its own."""

    def __init__(self, world, content, timeout_ms, name=NAME, after=None):
        self.world, self.content = world, content
        self.begun = self.over = None
        world.calls.append(self)

        def run():
            self.begun = world.hub.loops[-1].now
            try:
                return world.client.invoke_sync(name, "say", content, spanctx=world.ctx, timeout_ms=timeout_ms)
            finally:
                self.over = world.hub.loops[-1].now
        self.user = aio.User(world.hub, run, after)
        self.rid = None

    def ended(self):
        return self.user.done

    def outcome(self):
        if not self.user.done:
            return None
        if self.user.error is not None:
            return ("error", self.user.error)
        return ("content", self.user.value)


@scenario("C14", variants=[{"n": 1, "early": 1}], thorough=[{"n": 2, "early": 0}], covers=["returned", "late"], hang=True, steps=60000)
def sync_calls(S, n, early):
    """Blocking calls with timeouts whose responses arrive before or after them, or never."""
    w = World(S, clocked=True)
    w.hub.early = early
    by_id = {}

    def received(f):
        c = [c for c in w.calls if f.content == c.content][0]
        c.rid = f.request_id
        if S.flag("answered"):
            c.reply = Reply(f.remote, answer(f.request_id, S.blob("content", 0, 1 << 20)))
    w.received = received
    limits = [S.int("timeout", 1, wire.I32[1]) for _ in range(n)]
    for i in range(n):
        c = Sync(w, b"q%d" % i, limits[i], after=(lambda i=i: i == 0 or w.calls[i - 1].user.started))
        c.reply = None
    w.run()
    for i, c in enumerate(w.calls):
        out = c.outcome()
        S.check(out is not None, "a call with a timeout ends")
        if out is None:
            continue
        deadline = c.begun + limits[i] / 1000
        r = c.reply
        arrived = r is not None and r.fired and r.at <= deadline - EPS
        if arrived:
            S.cover("returned")
            S.check(out[0] == "content", "a call whose response arrived in time returns")
            if out[0] == "content":
                S.check(answer(c.rid, out[1]) == r.data, "the content of its own response")
        elif r is None or not r.fired or r.at >= deadline:
            S.cover("late")
            S.check(out[0] == "error" and isinstance(out[1], TimeoutError), "a call without a response times out")


# ------------------------------------------------------------------------------------------------------------- C15

NAMES = {1: "ERROR", 2: "SERVER_EXCEPTION", 3: "UNKNOWN", 4: "SERVER_THREADPOOL_BUSY", 5: "ERROR_COMM", 6: "NO_PROCESSOR",
         7: "TIMEOUT", 8: "CLIENT_SEND_ERROR", 9: "CODEC_EXCEPTION", 16: "CONNECTION_CLOSED", 17: "SERVER_SERIAL_EXCEPTION",
         18: "SERVER_DESERIAL_EXCEPTION"}


def broken(S, rid):
    """A response that must not complete any call with content."""
    how = S.choice("how", ["request command", "heartbeat", "status", "codec", "command", "type", "protocol", "version", "header cut short", "header odd",
                           "header text"])
    f = {}
    content = S.blob("content", 0, 1 << 20)
    if how == "request command":
        f["cmdcode"] = wire.CMD_REQUEST
    elif how == "heartbeat":
        f["cmdcode"] = wire.HEARTBEAT
        if S.flag("no class"):
            f["cls"] = b""
    elif how == "status":
        v = S.int("status", -(1 << 15), (1 << 15) - 1)
        for s in wire.STATUS:
            S.assume(v != s)
        f["status"] = v % 65536
    elif how == "codec":
        v = S.int("codec", 0, 255)
        S.assume((v != 1) & (v != 2) & (v != 11))
        f["codec"] = v
    elif how == "command":
        f["cmdcode"] = S.int("cmd", 3, 65535)
    elif how == "type":
        f["ptype"] = S.int("ptype", 3, 255)
    elif how in ("protocol", "version"):
        d = answer(rid, content)
        v = S.int("byte", 0, 255)
        S.assume(v != 1)
        at = 0 if how == "protocol" else 4
        return d[:at] + wire.num(v, 1) + d[at + 1:]
    elif how == "header cut short":
        f["header"] = wire.entry("key")[:-1]
    elif how == "header odd":
        f["header"] = wire.entry("key")
    else:
        f["header"] = wire.entry("k") + wire.num(1, 4, True) + wire.num(S.int("c", 128, 255), 1)
    return answer(rid, content, **f)


@scenario("C15", variants=[{"what": k, "kind": c} for k in ("error", "broken") for c in ("future", "callback", "sync")],
          covers=["failed", "other returned"], hang=True, steps=60000)
def error_response(S, what, kind):
    """One call is answered with an error or with something undecodable, another one on the same connection with SUCCESS."""
    w = World(S)
    seen = []
    good = S.blob("good", 0, 1 << 20)
    state = {}

    def received(f):
        if f.content == b"other":
            Reply(f.remote, answer(f.request_id, good))
            return
        state["rid"] = f.request_id
        if what == "error":
            st = S.choice("error", [s for s in wire.STATUS if s != wire.SUCCESS])
            state["status"] = st
            d = answer(f.request_id, S.blob("content", 0, 1 << 20), st)
        else:
            d = broken(S, f.request_id)
        state["reply"] = Reply(f.remote, d)
    w.received = received
    if kind == "sync":
        c = Sync(w, b"mine", S.int("timeout", 1, 1 << 20))
        start = lambda: c.user.started
    else:
        c = Call(w, b"mine", callback=(lambda content: seen.append(content)) if kind == "callback" else None)
        start = lambda: c.event.fired
    other = Call(w, b"other", after=start)
    w.run()
    out = c.outcome()
    S.check(out is None or out[0] == "error", "no content is returned")
    S.check(seen == [], "the callback is not invoked")
    if what == "error" and "reply" in state and state["reply"].fired and not (kind == "sync" and isinstance(out[1], TimeoutError)):
        S.check(out is not None, "the call fails")
        if out is not None and out[0] == "error":
            from anthunder.exceptions import ServerError
            S.check(isinstance(out[1], ServerError), "ServerError")
            S.check(wire_name(state["status"]) in str(out[1]), "naming the status")
    S.cover("failed")
    out = other.outcome()
    S.check(out is not None and out[0] == "content", "the other call returns")
    if out is not None and out[0] == "content":
        S.cover("other returned")
        S.check(out[1] == good, "the content of its own response")
    S.check(w.remotes[0].alive() and len(w.remotes) == 1, "the connection is kept")


def wire_name(status):
    from anthunder.protocol.constants import RESPSTATUS
    return RESPSTATUS(status).name


@scenario("C15", covers=["called back"], hang=True, steps=60000)
def callbacks(S):
    """A callback gets the content of a SUCCESS response, once."""
    w = World(S)
    seen = []
    content = S.blob("content", 0, 1 << 20)
    status = S.choice("status", [wire.SUCCESS, wire.UNKNOWN])

    def received(f):
        Reply(f.remote, answer(f.request_id, content, status))
        Reply(f.remote, answer(f.request_id, content, status))
    w.received = received
    Call(w, b"q", callback=seen.append, timeout_ms=S.choice("timeout", [None, 1000, 0.5]))
    w.run()
    if status == wire.SUCCESS:
        S.cover("called back")
        S.check(len(seen) == 1, "the callback is invoked once")
        for s in seen:
            S.check(s == content, "with the content of the response")
    else:
        S.check(seen == [], "the callback is not invoked")


# ------------------------------------------------------------------------------------------------------------- C16

def addressed(S, f, name, method):
    h = wire.parse_header(f.header)
    return h.get("service") == name and h.get("sofa_head_target_service") == name and h.get("sofa_head_method_name") == method


class OneWay(object):
    def __init__(self, world, content, after=None, name=NAME, method="say"):
        self.world, self.content, self.name, self.method = world, content, name, method
        self.result = self

        def run():
            return world.client.invoke_oneway(name, method, content, spanctx=world.ctx)
        self.user = aio.User(world.hub, run, after)


def a_timeout(S):
    """Milliseconds, whole or not."""
    if S.flag("whole ms"):
        return S.int("timeout", 1, wire.I32[1])
    t = S.real("timeout ms", 0, 10 ** 6)
    S.assume(t > 0)
    return t


@scenario("C16", variants=[{"kind": k, "early": e} for k in ("one-way", "async", "sync") for e in (0, 1)] +
          [{"kind": k, "early": 0, "other": o} for k in ("one-way", "async", "sync") for o in ("before", "none")], covers=["sent"], hang=True, steps=60000)
def one_frame(S, kind, early, other="after"):
    """One call of each kind: before another one, after it, or the only one; what is sent for it."""
    w = World(S, start=S.int("start", 0, 0x7fffffff))
    w.hub.early = early
    w.hub.full = early
    content = S.blob("content", 0, 1 << 32)
    S.assume(len(content) <= 0xffffffff)
    S.assume(content != b"other")
    name = S.choice("name", [NAME, "com.y.B:2.0:x"] if early == 0 else [NAME])
    method = S.choice("method", ["say", "shout"] if early == 0 else ["say"])
    timeout = None
    first = None
    if other == "before":
        beside = Call(w, b"other")
        first = lambda: beside.event.fired
    if kind == "one-way":
        c = OneWay(w, content, name=name, method=method, after=first)
        started = lambda: c.user.started
    elif kind == "async":
        timeout = a_timeout(S) if S.flag("timeout") else None
        c = Call(w, content, name=name, timeout_ms=timeout, method=method, after=first)
        started = lambda: c.event.fired
    else:
        timeout = a_timeout(S)
        c = aio.User(w.hub, lambda: w.client.invoke_sync(name, method, content, spanctx=w.ctx, timeout_ms=timeout), after=first)
        started = lambda: c.started
    if other == "after":
        Call(w, b"other", after=started)
    w.run()
    mine = [f for f in w.frames if f.content == content]
    S.check(len(mine) == 1 or (kind == "sync" and len(mine) == 0 and c.error is not None), "one frame is sent")
    S.check(len(w.frames) == len(mine) + (0 if other == "none" else 1), "nothing else is sent")
    for r in w.remotes:
        S.check(len(r.rest) == 0, "whole frames")
    for f in mine:
        S.cover("sent")
        S.check(f.ptype == (wire.ONEWAY if kind == "one-way" else wire.REQUEST), "its type")
        S.check(f.cmdcode == wire.CMD_REQUEST, "a business request")
        S.check(f.class_name == wire.REQ_CLASS, "the class name")
        S.check(addressed(S, f, name, method), "the given interface and method")
        if timeout is not None:
            S.check(f.timeout >= timeout, "its timeout")
            S.check(f.timeout < timeout + 1, "its timeout")
    if kind == "one-way":
        S.check(c.user.done and c.user.error is None and not c.user.blocked, "it returns without waiting")
    for r in w.remotes:
        if r.t is not None:
            S.observe("sent", r.t.sent)


@scenario("C16", variants=[{"kind": k} for k in ("one-way", "async", "callback", "sync")], covers=["refused", "lost", "not encoded"], hang=True, steps=60000)
def never_sent(S, kind):
    """Calls that cannot be sent: nobody listens, every connection breaks at once, the request cannot be encoded."""
    w = World(S)
    why = S.choice("why", ["refused", "lost", "not encoded"])
    seen = []
    content = b"q"
    if why == "refused":
        w.dialled = lambda d: S.choice("refusal", [ConnectionRefusedError(errno.ECONNREFUSED, "refused"), OSError(errno.ENETUNREACH, "unreachable"),
                                                   TimeoutError(errno.ETIMEDOUT, "timed out")])
    elif why == "lost":
        w.dialled = lambda d: Remote(w, doomed=True)
    else:
        content = S.choice("content", ["text", 5, None])
    if kind == "one-way":
        c = OneWay(w, content)
    elif kind == "sync":
        c = Sync(w, content, 1000)
    else:
        c = Call(w, content, callback=seen.append if kind == "callback" else None)
    w.run()
    S.cover(why)
    S.check(len(w.frames) == 0, "nothing is sent")
    S.check(seen == [], "the callback is not invoked")
    if kind == "one-way":
        S.check(c.user.done and not c.user.blocked, "it returns without waiting")
    else:
        out = c.outcome()
        S.check(out is not None, "the call ends")
        S.check(out is None or out[0] == "error", "a call that was not sent is not reported as answered")


# ------------------------------------------------------------------------------------------------------------- C17

@scenario("C17", variants=[{"n": 3, "early": 1, "refuse": 0, "replies": 0}, {"n": 3, "early": 0, "refuse": 1, "replies": 0},
                          {"n": 2, "early": 1, "refuse": 1, "replies": 0}, {"n": 2, "early": 0, "refuse": 1, "replies": 1}],
          thorough=[{"n": 4, "early": 1, "refuse": 0, "replies": 0}, {"n": 4, "early": 0, "refuse": 2, "replies": 0},
                    {"n": 3, "early": 1, "refuse": 1, "replies": 0}, {"n": 2, "early": 1, "refuse": 1, "replies": 1}], covers=["shared"], hang=True, steps=60000)
def shared(S, n, early, refuse, replies):
    """Calls to one address made while it is dialled, and one to another address; the first attempts to dial may be refused."""
    from anthunder import SERVICE_MAP
    w = World(S)
    w.hub.early = early
    S.defer(SERVICE_MAP.clear)
    SERVICE_MAP["com.z.Far"] = FAR
    state = {"refused": 0}

    def dialled(d):
        if d.host == MESH[0] and state["refused"] < refuse and S.flag("refused"):
            state["refused"] += 1
            return ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        return Remote(w)
    w.dialled = dialled

    def received(f):
        if replies:
            Reply(f.remote, answer(f.request_id, f.content))
    w.received = received
    for i in range(n):
        Call(w, b"q%d" % i, after=(lambda i=i: i == 0 or w.calls[i - 1].event.fired))
    Call(w, b"far", name="com.z.Far", after=lambda: w.calls[0].event.fired and len(w.hub.dials) > 0)
    w.run()
    S.cover("shared")
    near = [d for d in w.hub.dials if (d.host, d.port) == MESH]
    far = [d for d in w.hub.dials if (d.host, d.port) == FAR]
    S.check(len(near) == 1 + state["refused"], "the address is dialled once")
    S.check(len(far) == 1 and len(near) + len(far) == len(w.hub.dials), "every address is dialled once")
    failed = 0
    for c in w.calls:
        out = c.outcome()
        if replies:
            S.check(out is not None, "each call ends")
        if out is not None and out[0] == "error":
            failed += 1
            continue
        S.check(len(w.frame_of(c.content)) == 1, "each other call is sent once")
        if out is not None:
            S.check(out[0] == "content" and out[1] == c.content, "the content of its own response")
    S.check(failed <= state["refused"], "only a call whose dialling failed fails")
    for f in w.frames:
        S.check((f.remote is w.frames[0].remote) == ((f.content == b"far") == (w.frames[0].content == b"far")), "calls to one address share the connection")


@scenario("C17", variants=[{"end": e, "early": x} for e in ("eof", "lost") for x in (0, 1)], covers=["redialled", "gave up"], hang=True, steps=60000)
def redial(S, end, early):
    """The connection is lost; calls made later go out on new ones, of which some break at once."""
    w = World(S)
    w.hub.early = early
    bad = S.choice("bad", 3)

    def dialled(d):
        return Remote(w, doomed=1 < len(w.hub.dials) <= 1 + bad)
    w.dialled = dialled

    def received(f):
        Reply(f.remote, answer(f.request_id, f.content))
    w.received = received
    first = Call(w, b"first")

    def lose():
        r = w.remotes[0]
        if end == "eof":
            r.t.eof()
        else:
            r.t.fail(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
    loss = Event(w.hub, lose, lambda: first.ended() and w.remotes[0].alive())
    Call(w, b"second", after=lambda: loss.fired)
    Call(w, b"third", after=lambda: w.calls[1].event.fired)
    w.run()
    for c in w.calls[1:]:
        out = c.outcome()
        S.check(out is not None, "a later call ends")
        if bad <= 1:
            S.cover("redialled")
            S.check(out is not None and out[0] == "content" and out[1] == c.content, "a later call is sent on a live connection and answered")
            S.check(len(w.frame_of(c.content)) == 1, "its request is sent once, in full")
        else:
            S.cover("gave up")
            S.check(out is None or out[0] == "error" or out[1] == c.content, "the content of its own response")


@scenario("C17", variants=[{"early": 0}, {"early": 1}], covers=["sent"], hang=True, steps=60000)
def beside_a_stuck_dial(S, early):
    """One address never answers the dial; calls to others go on."""
    from anthunder import SERVICE_MAP
    w = World(S)
    w.hub.early = early
    S.defer(SERVICE_MAP.clear)
    other = S.choice("other", [FAR, (MESH[0], MESH[1] + 1), (FAR[0], MESH[1])])
    SERVICE_MAP["com.z.Far"] = other
    w.dialled = lambda d: None if (d.host, d.port) == MESH else Remote(w)

    def received(f):
        Reply(f.remote, answer(f.request_id, f.content))
    w.received = received
    Call(w, b"q0")
    Call(w, b"far", name="com.z.Far", after=lambda: w.calls[0].event.fired)
    Call(w, b"q1", after=lambda: w.calls[0].event.fired)
    w.run()
    out = w.calls[1].outcome()
    S.check(len(w.frame_of(b"far")) == 1, "a call to another address is sent")
    S.check(out is not None and out[0] == "content" and out[1] == b"far", "and returns")
    S.check(len([d for d in w.hub.dials if (d.host, d.port) == MESH]) == 1, "calls to one address dial it once")
    S.cover("sent")


@scenario("C17", variants=[{"early": 0}, {"early": 1}], covers=["not encoded"], hang=True, steps=60000)
def not_encoded(S, early):
    """A call that cannot be encoded, between two others on the same connection."""
    w = World(S)
    w.hub.early = early

    def received(f):
        Reply(f.remote, answer(f.request_id, f.content))
    w.received = received
    Call(w, b"q0")
    bad = Call(w, S.choice("content", ["text", 5, None]), after=lambda: w.calls[0].event.fired)
    Call(w, b"q2", after=lambda: w.calls[1].event.fired)
    w.run()
    S.cover("not encoded")
    out = bad.outcome()
    S.check(out is not None and out[0] == "error", "the call fails")
    S.check(len(w.hub.dials) == 1 and w.remotes[0].alive(), "the connection is kept")
    for c in (w.calls[0], w.calls[2]):
        out = c.outcome()
        S.check(out is not None and out[0] == "content" and out[1] == c.content, "the other calls return")
        S.check(len(w.frame_of(c.content)) == 1, "and are sent once")


# ------------------------------------------------------------------------------------------------------------- C18

def nothing_left(S, w):
    """Calls that have ended are forgotten."""
    S.check(len(leftovers(w.client, [f.request_id for f in w.frames if any(c.ended() for c in w.calls if c.content == f.content)])) == 0,
            "no bookkeeping for its request id")


@scenario("C18", variants=[{"n": 2, "end": e, "early": 0, "full": 0} for e in ("eof", "lost")] + [{"n": 1, "end": e, "early": 1, "full": 1} for e in ("eof", "lost")],
          thorough=[{"n": 3, "end": e, "early": 0, "full": 0} for e in ("eof", "lost")] + [{"n": 2, "end": e, "early": 1, "full": 1} for e in ("eof", "lost")],
          covers=["answered", "failed"], hang=True, steps=60000)
def lost(S, n, end, early, full):
    """The connection is lost at any time while calls wait on it, before and after they are answered."""
    w = World(S)
    w.hub.early, w.hub.full = early, full

    def received(f):
        Reply(f.remote, answer(f.request_id, f.content))
    w.received = received

    def lose():
        r = w.remotes[0]
        if end == "eof":
            r.t.eof()
        else:
            r.t.fail(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
    loss = Event(w.hub, lose, lambda: len(w.remotes) > 0 and w.remotes[0].alive())
    for i in range(n):
        Call(w, b"q%d" % i, after=(lambda i=i: i == 0 or w.calls[i - 1].event.fired))
    w.run()
    for c in w.calls:
        out = c.outcome()
        S.check(out is not None, "no call waits on a dead connection")
        if out is None:
            continue
        S.cover("answered" if out[0] == "content" else "failed")
        S.check(out[0] == "error" or out[1] == c.content, "the content of its own response")
    nothing_left(S, w)


@scenario("C18", variants=[{"how": h} for h in ("answered", "error", "timeout", "cancelled", "refused", "broken", "not encoded", "one-way")] +
          [{"how": h, "early": 1, "full": f} for h, f in (("crossing", 0), ("one-way", 1), ("crossing timeout", 0))],
          thorough=[{"how": h} for h in ("answered", "error", "timeout", "cancelled", "refused", "broken", "not encoded", "one-way")] +
          [{"how": h, "early": 2, "full": 1} for h in ("crossing", "one-way", "crossing timeout", "broken", "timeout")],
          covers=["ended"], hang=True, steps=60000)
def forgotten(S, how, early=0, full=0):
    """A call that ends in each possible way beside another one; responses to it may come later, or while it ends."""
    crossing = early > 0
    if how == "crossing":
        how = "cancelled"
    elif how == "crossing timeout":
        how = "timeout"
    w = World(S, clocked=how == "timeout")
    w.hub.early, w.hub.full = early, full
    ids = []
    tried = {"n": 0}
    if how in ("refused", "broken"):
        def dialled(d):
            tried["n"] += 1
            if tried["n"] > 3:
                return Remote(w)
            return Remote(w, doomed=True) if how == "broken" else ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        w.dialled = dialled

    def received(f):
        if f.content == b"other":
            Reply(f.remote, answer(f.request_id, b"other"))
            return
        ids.append(f.request_id)
        if how == "error":
            Reply(f.remote, answer(f.request_id, b"", wire.SERVER_EXCEPTION))
        elif how in ("timeout", "cancelled", "one-way"):
            Reply(f.remote, answer(f.request_id, b"late", S.choice("status", [wire.SUCCESS, wire.UNKNOWN])), ready=None if crossing else lambda: c.ended())
        else:
            Reply(f.remote, answer(f.request_id, b"x"))
            Reply(f.remote, answer(f.request_id, b"x"))
    w.received = received
    if how == "timeout":
        c = Sync(w, b"mine", S.int("timeout", 1, 100000))
        started = lambda: c.user.started
    elif how == "one-way":
        c = OneWay(w, b"mine")
        c.ended = lambda: c.user.done
        started = c.ended
    else:
        c = Call(w, "text" if how == "not encoded" else b"mine")
        started = lambda: c.event.fired
    if how == "cancelled":
        Event(w.hub, lambda: c.future.cancel(), lambda: c.event.fired)
    other = Call(w, b"other", after=started)
    w.run()
    S.cover("ended")
    S.check(c.ended(), "the call ends")
    S.check(other.ended(), "the other call ends")
    if c.ended() and other.ended():
        start = 1000
        S.check(len(leftovers(w.client, range(start, start + 8))) == 0, "no bookkeeping for its request id")
    out = other.outcome()
    if how not in ("refused", "broken"):
        S.check(out is not None and out[0] == "content" and out[1] == b"other", "the other call returns")


# ------------------------------------------------------------------------------------------------------------- C19

INTERVAL = 30


ALL = ["answered", "refused status", "unanswered", "lost"]


def in_the_way(d, a, b):
    """The dialling kept a heartbeat from being sent between a and b."""
    if not d.at < b:
        return False
    if d.future.cancelled() or d.answered is None:
        return a <= d.at or not d.future.cancelled()
    if d.stuck:
        return a <= d.at
    return b <= d.answered or (d.failed and a <= d.answered)


@scenario("C19", variants=[{"rounds": 2, "dials": ["up", "refused", "stuck"], "answers": ALL}, {"rounds": 3, "dials": ["up", "refused"], "answers": ["unanswered"]},
                           {"rounds": 3, "dials": ["up"], "answers": ["answered", "lost"]}],
          thorough=[{"rounds": 3, "dials": ["up", "refused", "stuck"], "answers": ALL}, {"rounds": 4, "dials": ["up", "refused"], "answers": ["unanswered", "answered"]}],
          hang=True, steps=100000)
def goes_on(S, rounds, dials, answers):
    """Heartbeats answered well, badly or not at all, connections lost, dialling refused: the next one is sent all the same."""
    w = World(S, mesh=meshenv.accept)
    hub = w.hub
    hub.horizon = INTERVAL * rounds + 1
    log = []

    def dialled(d):
        d.failed = False
        k = S.choice("dial", dials)
        if k != "up":
            S.cover("not dialled")
            d.failed = True
            return ConnectionRefusedError(errno.ECONNREFUSED, "refused") if k == "refused" else None
        return Remote(w)
    w.dialled = dialled

    def received(f):
        log.append(("frame", hub.loops[-1].now))
        S.check(f.cmdcode == wire.HEARTBEAT and f.class_len == 0 and f.content_len == 0, "a heartbeat")
        k = S.choice("answer", answers)
        S.cover(k)
        r = f.remote
        if k == "answered":
            Reply(r, answer(f.request_id, b"", cmdcode=wire.HEARTBEAT, cls=b""))
        elif k == "refused status":
            Reply(r, answer(f.request_id, b"", wire.UNKNOWN, cmdcode=wire.HEARTBEAT, cls=b""))
        elif k == "lost":
            Event(hub, lambda: r.t.fail(ConnectionResetError(errno.ECONNRESET, "reset")), r.alive)
    w.received = received
    w.run()
    for k in range(1, rounds + 1):
        a, b = INTERVAL * k, INTERVAL * (k + 1)
        sent = [x for x in log if a <= x[1] < b]
        S.check(len(sent) <= 1, "at most one is sent in an interval")
        S.check(len(sent) == 1 or any(in_the_way(d, a, b) for d in hub.dials), "one is sent in every interval unless dialling fails or hangs")
    for d in hub.dials:
        S.check((d.host, d.port) == MESH, "to the mesh address")


@scenario("C19", variants=[{"what": k} for k in ("heartbeat", "business", "other id", "lost", "refused")], covers=["told"], hang=True, steps=60000)
def told(S, what):
    """What a heartbeat call reports."""
    import asyncio
    w = World(S)
    state = {"good": None}
    if what == "refused":
        w.dialled = lambda d: ConnectionRefusedError(errno.ECONNREFUSED, "refused")

    def received(f):
        rid = f.request_id
        if what == "lost":
            Event(w.hub, lambda: f.remote.t.fail(ConnectionResetError(errno.ECONNRESET, "reset")))
        elif what == "other id":
            u = S.int("unknown", *wire.I32)
            S.assume(u != rid)
            state["good"] = False
            Reply(f.remote, answer(u, b"", cmdcode=wire.HEARTBEAT, cls=b""))
        else:
            st = S.choice("status", wire.STATUS)
            cmd = wire.HEARTBEAT if what == "heartbeat" else wire.CMD_RESPONSE
            state["good"] = what == "heartbeat" and st == wire.SUCCESS
            Reply(f.remote, answer(rid, b"", st, cmdcode=cmd, cls=b"" if what == "heartbeat" else wire.RESP_CLASS))
    w.received = received
    box = {}

    def begin():
        box["f"] = asyncio.run_coroutine_threadsafe(w.client.invoke_heartbeat(FAR), w.hub.loops[-1])
    Event(w.hub, begin)
    w.run()
    f = box["f"]
    S.cover("told")
    ok = f.done() and not f.cancelled() and f.exception() is None and f.result() is True
    bad = not f.done() or f.cancelled() or f.exception() is not None or not f.result()
    if state["good"]:
        S.check(ok, "a heartbeat answered with SUCCESS is reported successful")
    else:
        S.check(bad, "no other heartbeat is reported successful")
    S.check(f.done() or what == "other id", "the call ends")


# ------------------------------------------------------------------------------------------------------------- C24

MAPS = {"pair": ("192.0.2.9", 13000), "other port": ("192.0.2.9", 13001), "host": "192.0.2.10", "other host": "192.0.2.11"}
CHANGES = sorted(MAPS) + ["subscribe", "unsubscribe", "refused subscribe", "refused unsubscribe"]


@scenario("C24", variants=[{"n": 2, "mesh": True}, {"n": 1, "mesh": False}], thorough=[{"n": 3, "mesh": True}, {"n": 2, "mesh": False}],
          covers=["mesh address", "mapped", "same connection"], hang=True, steps=60000, quick_s=100)
def addresses_of_async_calls(S, n, mesh):
    """Mappings, subscriptions and unsubscriptions, calls of the asyncio client after each."""
    good = []

    def http(url, json):
        if good[-1:] == [False]:
            return meshenv.Answer(200, {"success": False, "errorMessage": "x"})
        return meshenv.accept(url, json)
    w = World(S, mesh=http if mesh else meshenv.refuse)
    w.hub.horizon = 1
    from anthunder import SERVICE_MAP
    model = {}
    want = []
    calls = []

    def change(i):
        op = S.choice("op%d" % i, CHANGES)
        if op in MAPS:
            try:
                SERVICE_MAP[NAME] = MAPS[op]
            except KeyError:
                S.check(NAME in model, "a first mapping is accepted")
            model.setdefault(NAME, MAPS[op] if isinstance(MAPS[op], tuple) else (MAPS[op], 12200))
            return
        good.append(not op.startswith("refused"))
        op = op.split()[-1]
        getattr(w.client, op)(NAME)
        if mesh and good[-1]:
            if op == "subscribe":
                model.setdefault(NAME, MESH)
            else:
                model.pop(NAME, None)

    def done(k):
        return lambda: len(w.frames) == k and not [d for d in w.hub.dials if not d.future.done()]
    for i in range(n):
        e = Event(w.hub, lambda i=i: change(i), done(len(calls)))
        for name in (NAME, OTHER) if i == n - 1 else (NAME,):
            b = b"%d" % len(calls)
            c = OneWay(w, b, after=lambda e=e, k=len(calls): e.fired and done(k)(), name=name)
            calls.append(c)
            want.append((e, name, b))
    seen = {}

    def received(f):
        seen[f.content if isinstance(f.content, bytes) else bytes(f.content)] = (f.remote.dial, dict(model))
    w.received = received

    def dialled(d):
        r = Remote(w)
        r.dial = (d.host, d.port)
        return r
    w.dialled = dialled
    w.run()
    for e, name, b in want:
        S.check(b in seen, "the call is sent")
        if b in seen:
            used, known = seen[b]
            S.cover("mapped" if name in known else "mesh address")
            S.check(used == known.get(name, MESH), "to the address of its interface")
    if len(w.hub.dials) < len(want):
        S.cover("same connection")
    S.observe("dialled", [(d.host, d.port) for d in w.hub.dials])
