"""C36: listeners from start to shutdown; C13: connections of the blocking server served at the same time."""
import errno
import socket
import socketserver

from harness import aio, blockserver, meshenv, services, wire
from harness import aioserver
from harness.services import A, B
from harness.stubs import ENV, patch
from sx import sched as threads
from sx.scen import scenario


# ------------------------------------------------------------------------------------------------------------- blocking

class Listening(object):
    """A listening socket."""

    def __init__(self, *a, **kw):
        self.closed = False
        self.queue = []
        self.address = None
        self.backlog = None
        ENV.listening.append(self)

    def setsockopt(self, *a):
        pass

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def bind(self, address):
        if any(o.address == address and not o.closed for o in ENV.listening):
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.address = address

    def getsockname(self):
        return self.address

    def listen(self, backlog=None):
        self.backlog = backlog

    def fileno(self):
        return -1 if self.closed else 50

    def accept(self):
        threads.point()
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not self.queue:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        c = self.queue.pop(0)
        c.accepted = True
        return c, ("peer", 1)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True
        threads.point()


class Selector(object):
    """Waits for connections. While nothing else happens, its time limit passes at most three times."""

    def __init__(self):
        self.watched = []
        self.expired = 0
        self.turns = 0

    def register(self, f, events, data=None):
        self.watched.append(f)

    def unregister(self, f):
        self.watched.remove(f)

    def select(self, timeout=None):
        sched = threads.SCHED[0]
        socks = [getattr(f, "socket", f) for f in self.watched]
        threads.point()
        if sched.turns != self.turns:
            self.turns, self.expired = sched.turns, 0
        if not sched.wait(lambda: any(s.queue for s in socks), timeout is not None and self.expired < 3):
            self.expired += 1
            return []
        return [(f, 1) for f, s in zip(self.watched, socks) if s.queue]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Slow(blockserver.Source):
    """A byte stream whose reader may be interrupted, and that may not arrive before the end."""

    def __init__(self, S, data, pieces=0, held=None):
        super().__init__(S, data, pieces)
        self.held = held

    def take(self, n, whole):
        threads.point()
        if self.held is not None:
            threads.SCHED[0].wait(self.held)
        return super().take(n, whole)


class Request(blockserver.FakeRequest):
    accepted = False

    def sendall(self, data, flags=0):
        threads.point()
        super().sendall(data, flags)


def quiet(self, request, client_address):
    pass


class Site(object):
    """A blocking listener whose thread runs, and the requests made to it."""

    def __init__(self, S, switches):
        self.S = S
        self.sched = threads.install_threads(S, switches)
        meshenv.install_mesh(S, meshenv.refuse)
        ENV.listening = []
        patch(socket, "socket", Listening)
        patch(socketserver, "_ServerSelector", Selector)
        patch(socketserver, "_SocketWriter", blockserver.FakeWriterFile)
        patch(socketserver.BaseServer, "handle_error", quiet)
        from anthunder import SockListener
        import anthunder.listener.sock_listener as mod
        self.world = services.World(S)
        self.listener = SockListener(("127.0.0.1", 12200), "app")
        self.listener.handler.register_interface(A, self.world.service(A))
        self.listener.handler.register_interface(B, self.world.service(B))
        threads.watch(mod)
        self.released = False
        self.results = {}
        self.world.outcome = self.outcome
        self.connections = []

    def outcome(self, obj, m, body):
        threads.point()
        for b, result in self.results.values():
            if b is body or bool(b == body):
                if result == "never":
                    threads.SCHED[0].wait(lambda: self.released)
                    return b""
                if isinstance(result, Exception):
                    raise result
                return result
        self.S.fail("a service gets a content that was not sent")

    def connect(self, kind, i):
        """A connection of some kind, ready to be made."""
        S = self.S
        rid = S.int("rid%d" % i, *wire.I32)
        body = b"%d" % i + S.blob("body%d" % i, 0, 1 << 20)
        result = S.blob("result%d" % i, 0, 1 << 20)
        pairs = services.named("target only", A if i % 2 == 0 else B, "say" if i < 2 else "shout")
        data = services.frame(rid, pairs, body)
        held = None
        if kind == "hangs":
            result = "never"
        elif kind == "silent":
            held = lambda: self.released
            data = b""
        elif kind == "fails":
            result = OSError(errno.ENOENT, "no such file")
        elif kind == "garbage":
            data = b"\xff" * 22
        self.results[i] = (body, result)
        r = Request(Slow(S, data, 0, held))
        r.kind, r.rid, r.result, r.body, r.number = kind, rid, result, body, i
        self.connections.append(r)
        return r

    def offer(self, r):
        """The peer connects; False if it is refused."""
        l = ENV.listening[0]
        if l.closed or l.backlog is None:
            return False
        l.queue.append(r)
        return True

    def answered(self, r):
        S = self.S
        out = wire.split(S, wire.Resp, r.sent, "answer")
        S.check(len(out) == 1, "one response")
        if len(out) == 1:
            S.check(out[0].status == wire.SUCCESS, "SUCCESS")
            S.check(out[0].request_id == r.rid, "the request's id")
            S.check(out[0].content == r.result, "the bytes its own service returned")
        mine = [c for c in self.world.calls if c[2] is r.body or bool(c[2] == r.body)]
        S.check(len(mine) == 1, "its service runs once")
        if len(mine) == 1:
            S.check(mine[0][0].name == (A if r.number % 2 == 0 else B), "the addressed interface")
            S.check(mine[0][1] == ("say" if r.number < 2 else "shout"), "the addressed method")

    def close(self):
        """Lets what hangs end, and ends the listener."""
        self.released = True
        self.listener.shutdown()


ODD = ["hangs", "silent", "fails", "garbage"]


@scenario("C10", variants=[{"n": 2, "switches": 1}], thorough=[{"n": 2, "switches": 2}, {"n": 3, "switches": 1}], covers=["ended"], quick_s=100)
@scenario("C13", variants=[{"n": 2, "switches": 1}, {"n": 3, "switches": 0}], thorough=[{"n": 2, "switches": 2}, {"n": 3, "switches": 1}],
          covers=["ended"], quick_s=100)
def blocking_connections(S, n, switches):
    """Connections made at once, each with one request."""
    site = Site(S, 0)
    rs = [site.connect("good", i) for i in range(n)]
    site.listener.run_threading()

    def client():
        for r in rs:
            S.check(site.offer(r), "a running listener accepts connections")
        threads.SCHED[0].switches = switches
        threads.SCHED[0].wait(lambda: all(r.closed for r in rs))
        threads.SCHED[0].switches = 0
        site.close()
    site.sched.spawn(client)
    S.check(site.sched.run(), "nobody waits for ever")
    S.cover("ended")
    for r in rs:
        site.answered(r)
    S.check(len(site.world.calls) == n, "nothing else runs")
    S.observe("sent", [r.sent for r in rs])


@scenario("C36", variants=[{"n": 2, "switches": 0}], thorough=[{"n": 2, "switches": 2}, {"n": 3, "switches": 0}, {"n": 3, "switches": 1}],
          covers=["ended"], quick_s=100)
def beside_odd_ones(S, n, switches):
    """One connection with a request beside others that send nothing, nonsense, or whose services hang or fail."""
    site = Site(S, switches)
    good = S.choice("good", n) if n < 3 or switches else 2
    rs = [site.connect("good" if i == good else S.choice("kind%d" % i, ODD), i) for i in range(n)]
    site.listener.run_threading()

    def client():
        for r in rs:
            S.check(site.offer(r), "a running listener accepts connections")
        threads.SCHED[0].wait(lambda: len(rs[good].sent) > 0 and rs[good].closed)
        site.close()
    site.sched.spawn(client)
    S.check(site.sched.run(), "the request beside the others is answered")
    S.cover("ended")
    site.answered(rs[good])
    S.check(len(ENV.listening) == 1 and ENV.listening[0].closed, "the listening socket is closed")
    S.observe("sent", rs[good].sent)


@scenario("C36", variants=[{"n": 1, "switches": 1}, {"n": 2, "switches": 0}], thorough=[{"n": 1, "switches": 3}, {"n": 2, "switches": 1}],
          covers=["ended", "served", "refused"], quick_s=100)
def blocking_shutdown(S, n, switches):
    """A listener is shut down while peers connect and requests are served."""
    site = Site(S, switches)
    rs = [site.connect("good", i) for i in range(n)]
    first = S.flag("first served")
    done = []
    site.listener.run_threading()

    def client():
        for r in rs:
            r.offered = site.offer(r)
            threads.point()

    def ending():
        if first:
            threads.SCHED[0].wait(lambda: rs[0].accepted)
        # run_forever has begun
        threads.SCHED[0].wait(lambda: site.listener.server._BaseServer__is_shut_down.is_set() is False)
        site.listener.shutdown()
        done.append(1)
        l = ENV.listening[0]
        S.check(l.closed, "the listening socket is closed")
        late = site.connect("good", n)
        S.check(not site.offer(late), "no connection is accepted any more")
        S.cover("refused")
    site.sched.spawn(client)
    site.sched.spawn(ending)
    S.check(site.sched.run(), "shutdown ends, and so does run_forever")
    S.check(len(done) == 1, "shutdown ends")
    S.cover("ended")
    for r in rs:
        if r.accepted:
            S.cover("served")
            site.answered(r)
    S.observe("sent", [r.sent for r in rs])


# ------------------------------------------------------------------------------------------------------------- asyncio

KINDS = ["silent", "hangs", "fails", "garbage", "half", "lost", "eof"]


class World(services.World):
    """Services that answer by content."""

    def __init__(self, S):
        super().__init__(S)
        self.known = []
        self.outcome = self.decide

    def decide(self, obj, m, body):
        for b, result in self.known:
            if b is body or bool(b == body):
                if isinstance(result, Exception):
                    raise result
                return result
        self.S.fail("a service gets a content that was not sent")


def client(S, hub, world, kind, i):
    """A connection of some kind to the asyncio server."""
    rid = S.int("rid%d" % i, *wire.I32)
    body = b"%d" % i + S.blob("body%d" % i, 0, 1 << 20)
    result = S.blob("result%d" % i, 0, 1 << 20)
    data = services.frame(rid, services.named("target only", A if i % 2 == 0 else B), body)
    items = [data]
    if kind == "silent":
        items = []
    elif kind == "hangs":
        result = aioserver.NEVER
    elif kind == "fails":
        result = services.Boom("x")
    elif kind == "garbage":
        items = [b"\xff" * 22]
    elif kind == "half":
        items = [data[:wire.REQ_SIZE + 5]]
    elif kind in ("lost", "eof"):
        items = [data[:wire.REQ_SIZE + 5], kind]
    world.known.append((body, result))
    p = aioserver.Peer(hub, items)
    p.rid, p.result = rid, result
    return p


@scenario("C36", variants=[{"n": 2}], thorough=[{"n": 3}], covers=["answered"], hang=True, steps=60000)
def asyncio_beside_odd_ones(S, n):
    """One connection of the asyncio server with a request beside others of any kind."""
    hub = aioserver.setup(S)
    world = World(S)
    lst = aioserver.listener(S, world, hub)
    good = S.choice("good", n)
    peers = [client(S, hub, world, "good" if i == good else S.choice("kind%d" % i, KINDS), i) for i in range(n)]
    aioserver.run(hub, lst)
    S.cover("answered")
    p = peers[good]
    aioserver.one_answer(S, aioserver.answers(S, p), p.rid, wire.SUCCESS, p.result)
    S.observe("sent", p.t.sent)


class Shutdown(object):
    """Another thread shuts the listener down once."""

    def __init__(self, S, hub, lst, peers, started):
        self.started = started      # not before a request has arrived: the loop runs
        self.S, self.hub, self.lst, self.peers = S, hub, lst, peers
        self.calls = 0
        self.serving = []

    def ready(self):
        return self.calls == 0 and len(self.hub.servers) > 0 and (not self.started or len(self.peers[0].arrived) > 0)

    def fire(self):
        self.calls += 1
        self.serving = [p for p in self.peers if len(p.arrived) > 0]
        self.lst.shutdown()
        for s in self.hub.servers:
            self.S.check(not s.is_serving(), "the listening socket is closed")


@scenario("C36", variants=[{"n": 2, "early": 0}, {"n": 1, "early": 1}], thorough=[{"n": 3, "early": 0}, {"n": 2, "early": 1}],
          covers=["served"], hang=True, steps=60000)
def asyncio_shutdown(S, n, early):
    """The asyncio listener is shut down at any time relative to connections, requests and their services."""
    hub = aioserver.setup(S)
    world = World(S)
    lst = aioserver.listener(S, world, hub)
    peers = [client(S, hub, world, "good", i) for i in range(n)]
    for s in hub.sources:
        if isinstance(s, aioserver.Accept):
            s.open = lambda: hub.servers[0].is_serving()
    down = hub.add(Shutdown(S, hub, lst, peers, early > 0))
    hub.early = early
    aioserver.run(hub, lst)
    S.check(down.calls == 1, "shut down")
    for p in down.serving:
        S.cover("served")
        aioserver.one_answer(S, aioserver.answers(S, p), p.rid, wire.SUCCESS, p.result)
    S.observe("sent", [p.t.sent if p.t is not None else b"" for p in peers])
