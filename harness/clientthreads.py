"""C20, C22: one blocking client used by several threads."""
import selectors

from harness import meshenv, net, wire
from harness.blockclient import check_frame
from harness.stubs import ENV
from sx import sched as threads
from sx.scen import scenario

NAMES = ["com.x.A:1.0", "com.x.B:1.0"]


class Shop(net.Peer):
    """A server that answers each complete request on the connection it came on."""

    def __init__(self, S):
        self.S = S
        self.sent = {}      # socket number -> bytes
        self.back = {}      # socket number -> bytes not yet read
        self.known = []     # (content, response content)
        self.partial = 0
        self.cuts = 0

    def connecting(self, sock, address):
        sock.port = address[1]
        threads.point()

    def send(self, sock, data):
        S = self.S
        threads.point()
        n = len(data)
        if self.partial > 0:
            self.partial -= 1
            n = S.choice("accepted", [1, 30, len(data)])
        got = self.sent.get(sock.number, b"") + data[:n]
        self.sent[sock.number] = got
        if len(got) >= wire.REQ_SIZE:
            r = wire.Req(got)
            if r.size == len(got) and r.ptype == wire.REQUEST:
                self.back[sock.number] = self.back.get(sock.number, b"") + self.answer(r)
        return n

    def answer(self, r):
        for c, b in self.known:
            if bool(r.content == c):
                return wire.response(wire.RESPONSE, wire.CMD_RESPONSE, r.request_id, 11, 0, wire.RESP_CLASS, b"", b)
        self.S.fail("a content arrives that no call sent")
        self.S.stop()

    def readable(self, sock):
        return len(self.back.get(sock.number, b"")) > 0

    def select(self, sel, timeout):
        threads.point()
        return self.ready(sel)

    def recv(self, sock, n):
        S = self.S
        threads.point()
        b = self.back.get(sock.number, b"")
        if len(b) == 0:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        k = n if n < len(b) else len(b)
        if self.cuts > 0:
            self.cuts -= 1
            p = S.int("piece", 1)
            S.assume(p <= k)
            k = p
        self.back[sock.number] = b[k:]
        return b[:k]


def calls(S, kinds, other, switches, partial, cuts):
    threads.install(S)
    shop = Shop(S)
    ENV.time = lambda: 1500000000.0
    start = S.int("id start", 0, 2 ** 31 - 1)
    ENV.randint = lambda a, b: start
    meshenv.install_mesh(S, meshenv.refuse)
    net.install_sockets(S, shop)
    from anthunder import SERVICE_MAP, Client
    import anthunder.client.base as base
    import anthunder.client.client as mod
    from mytracer.helpers import tracer
    SERVICE_MAP[NAMES[0]] = ("127.0.0.1", 12200)
    SERVICE_MAP[NAMES[1]] = ("127.0.0.1", 12201)
    c = Client("app")
    threads.watch(mod, base)
    shop.partial, shop.cuts = partial, cuts
    sched = threads.Sched(S, switches)
    sched.locks = False     # each call has a pool of its own; threads meet at sockets
    log = []
    for i, kind in enumerate(kinds):
        content = b"%d" % i + S.blob("content%d" % i, 0, 1 << 20)
        result = S.blob("result%d" % i, 0, 1 << 20)
        shop.known.append((content, result))

        def run(i=i, kind=kind, content=content, result=result):
            ctx = tracer.start_span("op").context
            name = NAMES[1 if i and other else 0]
            try:
                if kind == "one-way":
                    c.invoke_oneway(name, "say", content, spanctx=ctx)
                    log.append((i, None, None))
                else:
                    log.append((i, c.invoke_sync(name, "say", content, spanctx=ctx, timeout_ms=1000), None))
            except Exception as e:
                S.reraise()
                log.append((i, None, e))
        sched.spawn(run)
    S.check(sched.run(), "no thread waits for ever")
    S.check(len(log) == len(kinds), "every call ends")
    S.cover("ended")
    return shop, sorted(log, key=lambda e: e[0])


@scenario("C20", variants=[{"n": 2, "other": o, "switches": 1, "cuts": c} for o in (False, True) for c in (0, 1)], thorough=[{"n": n, "other": o, "switches": k, "cuts": 1} for o in (False, True) for n, k in ((2, 3), (3, 1))],
          covers=["ended"], quick_s=100)
def calls_of_threads(S, n, other, switches, cuts):
    """Threads calling through one client at once."""
    shop, log = calls(S, ["two-way"] * n, other, switches, 0, cuts)
    for i, ret, exc in log:
        S.check(exc is None, "the call succeeds")
        if exc is None:
            S.check(ret == shop.known[i][1], "exactly the content of its own response")
    S.observe("ret", [ret for _, ret, _ in log])


@scenario("C22", variants=[{"kinds": ["two-way", "one-way"], "other": o, "switches": 1, "partial": p} for o in (False, True) for p in (0, 1)],
          thorough=[{"kinds": k, "other": o, "switches": 5 - len(k), "partial": 2} for o in (False, True)
                    for k in (["two-way", "one-way"], ["one-way", "one-way"], ["two-way", "one-way", "two-way"])],
          covers=["ended"], quick_s=100)
def frames_of_threads(S, kinds, other, switches, partial):
    """Threads calling through one client at once, their requests accepted piecemeal."""
    shop, log = calls(S, kinds, other, switches, partial, 0)
    for i, ret, exc in log:
        S.check(exc is None, "the call succeeds")
    done = []
    for s in ENV.sockets:
        b = shop.sent.get(s.number, b"")
        for r in wire.split(S, wire.Req, b, "request"):
            mine = [i for i in range(len(kinds)) if bool(r.content == shop.known[i][0])]
            S.check(len(mine) == 1 and mine[0] not in done, "one frame per call")
            if len(mine) == 1:
                i = mine[0]
                done.append(i)
                S.check(s.port == (12201 if i and other else 12200), "on a connection to its address")
                check_frame(S, wire.request(r.ptype, r.cmdcode, r.request_id, r.codec, r.timeout, r.class_name, r.header, r.content),
                            kinds[i] == "one-way", shop.known[i][0], 1000, NAMES[1 if i and other else 0])
    S.check(len(done) == len(kinds), "one frame per call")
    S.observe("sent", [shop.sent.get(s.number, b"") for s in ENV.sockets])


@scenario("C24", variants=[{"kinds": ["call", "call"], "switches": 2}, {"kinds": ["call", "subscribe"], "switches": 2},
                           {"kinds": ["call", "unsubscribe"], "switches": 2}],
          thorough=[{"kinds": ["call", "call", "call"], "switches": 2}, {"kinds": ["call", "call", "subscribe"], "switches": 2},
                    {"kinds": ["call", "unsubscribe", "subscribe"], "switches": 2}, {"kinds": ["call", "call"], "switches": 4}],
          covers=["ended"], quick_s=100)
def addresses_of_threads(S, kinds, switches):
    """Threads calling one mapped interface, beside a thread that subscribes it or unsubscribes another."""
    threads.install(S)
    shop = Shop(S)
    shop.answer = lambda r: b""
    ENV.time = lambda: 1500000000.0
    meshenv.install_mesh(S, lambda url, json: threads.point() or meshenv.accept(url, json))
    net.install_sockets(S, shop)
    from anthunder import SERVICE_MAP, Client
    import anthunder.client.base as base
    import anthunder.helpers.immutable_dict as immutable_dict
    from mytracer.helpers import tracer
    host = S.textblob("host", 1, 100)
    if S.flag("port given"):
        port = S.int("port", 0, 65535)
        SERVICE_MAP[NAMES[0]] = (host, port)
    else:
        port = 12200
        SERVICE_MAP[NAMES[0]] = host
    SERVICE_MAP[NAMES[1]] = "other"
    c = Client("app")
    threads.watch(base, immutable_dict, lines=True)
    sched = threads.Sched(S, switches)
    sched.locks = False
    ended = []

    def run(kind):
        def call():
            if kind == "call":
                c.invoke_oneway(NAMES[0], "say", b"", spanctx=tracer.start_span("op").context)
            elif kind == "subscribe":
                c.subscribe(NAMES[0])
            else:
                c.unsubscribe(NAMES[1])
            ended.append(kind)
        return call
    for kind in kinds:
        sched.spawn(run(kind))
    S.check(sched.run(), "no thread waits for ever")
    S.check(len(ended) == len(kinds), "every operation ends")
    S.cover("ended")
    S.check(len(ENV.sockets) >= kinds.count("call"), "connections are opened")
    for s in ENV.sockets:
        S.check(s.address[0] == host, "the host mapped for the interface")
        S.check(s.address[1] == port, "the port mapped for the interface")
    S.check(NAMES[0] in SERVICE_MAP, "the mapping stays")
    S.check((NAMES[1] in SERVICE_MAP) == ("unsubscribe" not in kinds), "a successful unsubscription removes the mapping")
    S.observe("addresses", [s.address for s in ENV.sockets])
