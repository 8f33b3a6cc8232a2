"""C28 and the threads of C29, C30: pools, managers and containers used by several threads."""
import gc

from harness import net
from sx import sched as threads
from harness.pool import live
from harness.stubs import ENV
from sx.scen import scenario


class Peer(net.Peer):
    """Connections that open and close; opening and closing take time."""

    def __init__(self, limit):
        super().__init__()
        self.limit = limit
        self.dropped = []
        self.over = False

    def creating(self):
        threads.point()

    def connecting(self, sock, address):
        if len(live()) > self.limit:
            self.over = True
        threads.point()

    def closing(self, sock):
        pass

    def readable(self, sock):
        return sock in self.dropped


class Shared(object):
    """A pool and who holds which of its connections."""

    def __init__(self, S, mx, mf, mn, initial, block=False):
        self.S = S
        threads.install(S)
        self.peer = ENV.peer = Peer(mx)
        net.install_sockets(S, self.peer)
        from mysockpool import connection_pool
        from mysockpool.connection import SocketConnection
        from mysockpool.exceptions import EmptyPoolError
        self.empty = EmptyPoolError
        threads.watch(connection_pool)
        self.pool = connection_pool.ConnectionPool(SocketConnection.PoolKeyCls("127.0.0.1", 12200), initial_connections=initial,
                                                   max_connections=mx, max_free_connections=mf, min_free_connections=mn, block=block)
        self.held = []
        self.failed = []

    def get(self, who):
        S = self.S
        try:
            c = self.pool.get_conn()
        except self.empty:
            self.failed.append(who)
            S.cover("empty")
            return None
        for o in self.held:
            S.check(o is not c and o.sock is not c.sock, "no connection is handed to two threads at once")
        S.check(not c.sock.closed, "an open connection is handed out")
        self.held.append(c)
        S.cover("checked out")
        return c

    def put(self, c):
        self.held.remove(c)
        self.pool.put_conn(c)

    def program(self, who, ops):
        def run():
            mine = []
            for op in ops:
                if op == "get":
                    c = self.get(who)
                    if c is not None:
                        mine.append(c)
                elif mine:
                    self.put(mine.pop())
        return run


PROGRAMS = {"get put": ["get", "put"], "get": ["get"], "get get": ["get", "get"], "put": ["put"], "get put get": ["get", "put", "get"],
            "get get put put": ["get", "get", "put", "put"]}


def concurrent(S, progs, switches, shape, drop, block):
    if shape is None:
        mx, mf, mn, initial = S.int("max", 1, 2), S.int("max free", 0, 2), 0, S.choice("initial", 2)
    else:
        mx, mf, mn, initial = shape
    p = Shared(S, mx, mf, mn, initial, block)
    if drop:
        for s in list(ENV.sockets):
            if S.flag("dropped"):
                p.peer.dropped.append(s)
    sched = threads.Sched(S, switches)
    for i, k in enumerate(progs):
        sched.spawn(p.program(i, PROGRAMS[k]))
    ended = sched.run()
    S.check(ended, "no thread waits for ever")
    S.cover("ended")
    S.check(not p.peer.over and len(live()) <= mx, "open connections within the limit at every moment")
    S.check(p.pool.num_connections == len(live()), "reported count equals open connections")
    S.observe("open", len(live()))
    S.observe("failed", len(p.failed))
    p.held = []


def cases(more):
    """Which threads, how many interruptions, and the pool: its limits [max, max free, min free, initial], None for any up to 2."""
    two, three = ["get put", "get put"], ["get put"] * 3
    return [{"progs": p, "switches": n + (more if n + more <= 3 else 0), "shape": s, "drop": d, "block": b} for p, n, s, d, b in (
        (two, 2, None, False, False), (two, 2, [1, 1, 0, 1], True, False), (two, 2, [2, 1, 0, 1], True, False), (two, 2, [4, 2, 1, 1], False, False),
        (["get get put put", "get put"], 2, [2, 1, 0, 1], False, False), (["get put get", "get put"], 2, [1, 1, 0, 1], True, False),
        (three, 1, None, False, False), (three, 1, [2, 1, 0, 1], True, False), (two, 2, [1, 1, 0, 1], False, True), (three, 1, [2, 2, 0, 2], False, True))]


@scenario("C28", variants=cases(0), thorough=cases(1), covers=["checked out", "ended"], quick_s=120, thorough_s=1500)
def pool_threads(S, progs, switches, shape, drop, block):
    """Threads that check out and return connections, interrupted anywhere."""
    concurrent(S, progs, switches, shape, drop, block)
