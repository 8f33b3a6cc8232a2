"""C26, C27, C29, C30, C31: pooled connections (one thread)."""
import errno
import gc

from harness import net
from harness.stubs import ENV
from sx.scen import scenario


class PoolPeer(net.Peer):
    def __init__(self):
        self.dropped = []
        self.fail_next = False
        self.refuse = False
        self.limit = None
        self.over = False

    def creating(self):
        if self.fail_next:
            self.fail_next = False
            raise OSError(errno.EMFILE, "Too many open files")
        if self.limit is not None and len(live()) + 1 > self.limit:
            self.over = True

    def readable(self, sock):
        return sock in self.dropped


def live():
    return [s for s in ENV.sockets if not s.closed]


LEAK = "count after a checkout whose replenishment found the pool at its limit"
NOSLOT = "free connection lost by a checkout whose replenishment failed"


class History(object):
    """Drives one pool and checks it after every step."""

    def __init__(self, S, aspect, mx, mf, mn, initial, block=False):
        self.aspect = aspect
        from mysockpool.connection import SocketConnection
        from mysockpool.connection_pool import ConnectionPool
        from mysockpool.exceptions import ClosedPoolError, EmptyPoolError
        self.S, self.mx, self.mf, self.mn = S, mx, mf, mn
        self.closed_error, self.empty_error = ClosedPoolError, EmptyPoolError
        self.key = SocketConnection.PoolKeyCls("127.0.0.1", 12200)
        self.peer = ENV.peer
        self.pool = ConnectionPool(self.key, initial_connections=initial, max_connections=mx, max_free_connections=mf,
                                   min_free_connections=mn, block=block)
        self.block = block
        self.out = []
        self.closed = False
        self.shut = []          # connections their users closed
        self.returned_shut = False
        self.peer.limit = mx
        self.ck("C26", len(live()) == initial, "initial connections")
        self.account("initially")

    def ck(self, aspect, cond, label):
        if aspect == self.aspect:
            self.S.check(cond, label)

    def free(self):
        mine = [c.sock for c in self.out]
        return [s for s in live() if s not in mine]

    def account(self, when, leaked=0):
        S = self.S
        self.ck("C26", len(live()) <= self.mx, "open connections within the limit")
        self.ck("C26", not self.peer.over, "open connections within the limit at every moment")
        if not self.closed:
            self.ck("C26", self.pool.num_connections == len(live()) + leaked, "reported count equals open connections")

    def get(self):
        S = self.S
        free = self.free()
        n = len(free)
        live0 = len(live())
        room = live0 < self.mx
        dropped = [s for s in free if s in self.peer.dropped]
        failing = self.peer.fail_next
        short = n >= 1 and n - 1 < self.mn       # the pool replenishes its free list
        conn, how = None, None
        try:
            conn = self.pool.get_conn(timeout=0) if self.block else self.pool.get_conn()
        except self.closed_error:
            how = "closed"
        except self.empty_error:
            how = "empty"
        except OSError:
            how = "open failed"
        if how == "closed":
            self.ck("C27", self.closed, "ClosedPoolError only from a closed pool")
            S.cover("closed refused")
            return
        if how == "empty":
            S.cover("empty")
            self.ck("C27", not self.closed, "closed pool says so")
            if self.shut:
                # as the listed finding below, with slots taken by what their users closed
                S.stop()
            if self.block and n == 0:
                pass
            elif n == 0:
                self.ck("C26", not room, "EmptyPoolError only at the limit")
            elif short and not room:
                # listed finding: the replenishing connection does not fit, the free one is lost and its slot stays taken
                self.lost(live0, LEAK)
            else:
                self.ck("C26", not room, "EmptyPoolError although a connection is free")
            self.account("after a failed checkout")
            return
        if how == "open failed":
            self.ck("C26", failing, "only a failing open makes a checkout fail")
            if short:
                self.lost(live0, NOSLOT)
            self.account("after a failed open")
            S.cover("open failed")
            return
        self.ck("C27", not self.closed, "checkout from a closed pool")
        self.ck("C27", isinstance(conn, type(self.pool).ConnectionCls), "a connection is returned")
        for c in self.out:
            self.ck("C27", conn is not c and conn.sock is not c.sock, "exclusive")
        self.ck("C27", not conn.sock.closed, "live: not closed")
        self.ck("C27", conn.sock not in self.peer.dropped, "live: not dropped")
        self.out.append(conn)
        S.cover("checked out")
        self.account("after a checkout")

    def lost(self, live0, label):
        S = self.S
        gc.collect()        # the lost connection hangs on the exception
        if not (len(live()) == live0 - 1 and self.pool.num_connections == live0):
            return
        if self.aspect == "C26":
            S.fail(label)
        S.stop()

    def put(self, i):
        S = self.S
        conn = self.out.pop(i)
        mine = [c.sock for c in self.out]
        free = [s for s in live() if s not in mine and s is not conn.sock]
        self.pool.put_conn(conn)
        if conn in self.shut:
            self.returned_shut = True
            return
        if self.returned_shut:
            # how many of them the free list still holds is left open
            self.ck("C27", conn.sock.closed or not self.closed, "returned to a closed pool: closed")
            return
        if self.closed:
            self.ck("C27", conn.sock.closed, "returned to a closed pool: closed")
            S.cover("returned closed")
        elif self.mf > 0 and len(free) >= self.mf:
            self.ck("C27", conn.sock.closed, "returned to a full free list: closed")
            S.cover("discarded")
        else:
            self.ck("C27", not conn.sock.closed, "returned connection stays open")
            S.cover("returned")
        self.account("after a return")

    def drop(self, s):
        self.peer.dropped.append(s)

    def close(self):
        S = self.S
        self.pool.close()
        self.closed = True
        self.ck("C27", len(self.free()) == 0, "closing closes every free connection")
        for c in self.out:
            self.ck("C27", not c.sock.closed or c in self.shut, "closing leaves checked-out connections alone")
        S.cover("closed")


def history(S, aspect, n, ops, mx, mf, mn, initial, block=False):
    peer = PoolPeer()
    net.install_sockets(S, peer)
    if mx is None:
        mx = S.int("max", 0, 3)
        mf = S.int("max_free", 0, 3)
        mn = S.int("min_free", 0, 2)
        initial = S.choice("initial", 3)
        S.assume(initial <= mx)
        S.assume(not (mf > 0 and initial > mf))
    h = History(S, aspect, mx, mf, mn, initial, block)
    for i in range(n):
        acts = [("get", 0)]
        acts += [("put", j) for j in range(len(h.out))]
        if "drop" in ops:
            acts += [("drop", s) for s in h.free() if s not in peer.dropped]
        if "fail" in ops and not peer.fail_next:
            acts.append(("fail", 0))
        if "shut" in ops:
            acts += [("shut", j) for j, c in enumerate(h.out) if c not in h.shut]
        if "close" in ops:
            acts.append(("close", 0))
        if i == n - 1:
            acts = [a for a in acts if a[0] in ("get", "put", "close")]
        op, arg = S.choice("op%d" % i, acts)
        if op == "get":
            h.get()
        elif op == "put":
            h.put(arg)
        elif op == "drop":
            h.drop(arg)
        elif op == "shut":
            h.out[arg].close()
            h.shut.append(h.out[arg])
        elif op == "close":
            h.close()
        else:
            peer.fail_next = True
    S.observe("open", len(live()))
    S.observe("count", h.pool.num_connections)
    h.out = []


@scenario("C26", variants=[{"n": 5, "ops": ["drop", "fail"]}, {"n": 7, "ops": []}],
          thorough=[{"n": 7, "ops": ["drop", "fail"]}, {"n": 9, "ops": []}],
          covers=["checked out", "returned", "discarded", "empty"], known=(LEAK, NOSLOT), quick_s=120, thorough_s=1800)
def pool_accounting(S, n, ops):
    """Histories over pools with any limits up to 3."""
    history(S, "C26", n, ops, None, None, None, None)


@scenario("C26", variants=[{"n": 7, "ops": ["drop"]}], thorough=[{"n": 9, "ops": ["drop", "fail"]}], covers=["checked out"],
          known=(LEAK, NOSLOT), quick_s=120, thorough_s=1800)
def default_pool(S, n, ops):
    """The default limits, scaled to reach the maximum: 1 initial, 1 minimum free."""
    history(S, "C26", n, ops, S.choice("max", [2, 20]), 5, 1, 1)


@scenario("C26", variants=[{"n": 6}], thorough=[{"n": 8}], covers=["checked out"], known=(LEAK, NOSLOT))
def blocking_pool(S, n):
    """Pools created with block=True, checkouts that do not wait."""
    history(S, "C26", n, [], S.int("max", 1, 3), S.int("max_free", 1, 3), S.int("min_free", 0, 2), 1, block=True)


@scenario("C27", variants=[{"n": 5}], thorough=[{"n": 7}], covers=["checked out"])
def blocking_pool_lifecycle(S, n):
    history(S, "C27", n, ["close"], S.int("max", 1, 3), S.int("max_free", 1, 3), S.int("min_free", 0, 2), 1, block=True)


@scenario("C27", variants=[{"n": 5, "ops": ["drop", "close"]}, {"n": 6, "ops": ["close"]}, {"n": 6, "ops": ["drop"]}, {"n": 5, "ops": ["shut"]}],
          thorough=[{"n": 6, "ops": ["drop", "close"]}, {"n": 7, "ops": ["shut"]}, {"n": 6, "ops": ["shut", "close"]}, {"n": 8, "ops": ["close"]}, {"n": 8, "ops": ["drop"]}],
          covers=["checked out", "returned", "discarded"], quick_s=120, thorough_s=1800)
def pool_lifecycle(S, n, ops):
    history(S, "C27", n, ops, S.int("max", 1, 3), S.int("max_free", 0, 3), S.int("min_free", 0, 1), 1)


# ------------------------------------------------------------------------------------------------------------- C29

class Value(object):
    """A stored value like many: equal to others, not hashable, every other one false."""

    def __init__(self, n, key=None):
        self.n = n
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Value)

    __hash__ = None

    def __bool__(self):
        return self.n % 2 == 0


def number(v):
    return -1 if v is None else v.n


@scenario("C29", variants=[{"n": 4, "keys": "symbolic"}] + [{"n": 5, "keys": "few", "cap": c} for c in (1, 2, 3)] + [{"n": 4, "keys": "few", "cap": 1, "none": True}],
          thorough=[{"n": 6, "keys": "symbolic"}] + [{"n": 7, "keys": "few", "cap": c} for c in range(4)] + [{"n": 6, "keys": "few", "cap": c, "none": True} for c in (1, 2)],
          covers=["evicted", "overwritten", "deleted", "missing"],
          quick_s=200, thorough_s=1800)
def lru(S, n, keys, cap=None, none=False):
    """Histories over arbitrary integer keys (or four fixed ones, first used in order), any capacity from 0 to 3."""
    from mysockpool.recently_used_container import RecentlyUsedContainer
    if cap is None:
        cap = S.int("maxsize", 0, 3)
    used = 0
    disposed = []
    spare = [None] if none else []
    doing = [None]      # the key being stored

    def dispose(v):
        disposed.append(v)
        if keys == "few" and v is not None and v.key != doing[0]:
            S.check(v.key not in c.keys(), "no value still stored is disposed")
    c = RecentlyUsedContainer(cap, dispose_func=dispose)
    model = []          # [key, value], least recently used first
    gone = []

    def find(k):
        for i in range(len(model)):
            if model[i][0] == k:
                return i
        return -1
    for i in range(n):
        op = S.choice("op%d" % i, ["set", "get", "del"] + (["clear"] if none else []) if keys == "few" else
                      ["set", "get", "del", "in", "clear", "get default", "pop", "setdefault"]
                      if i == n - 1 else ["set", "get", "del", "clear"] if i < n - 2 else ["set", "get", "del", "get default"])
        k = None
        if op != "clear":
            if keys == "symbolic":
                k = S.int("key%d" % i)
            else:
                k = S.choice("key%d" % i, min(used + 1, 4))
                used = max(used, k + 1)
        at = find(k) if op != "clear" else -1
        doing[0] = k if op == "set" else None
        if op == "set":
            v = spare.pop() if spare else Value(i, k)
            c[k] = v
            if at >= 0:
                gone.append(model.pop(at)[1])
                S.cover("overwritten")
            model.append([k, v])
            if len(model) > cap:
                gone.append(model.pop(0)[1])
                S.cover("evicted")
        elif op == "get":
            try:
                v = c[k]
                S.check(at >= 0, "only present keys are found")
                if at >= 0:
                    S.check(v is model[at][1], "value last stored")
                    model.append(model.pop(at))
            except KeyError:
                S.cover("missing")
                S.check(at < 0, "present keys are found")
        elif op == "get default":
            v = c.get(k)
            if at >= 0:
                S.check(v is model[at][1], "value last stored")
                model.append(model.pop(at))
            else:
                S.check(v is None, "only present keys are found")
        elif op == "in":
            S.check((k in c) == (at >= 0), "membership")
            if at >= 0:
                model.append(model.pop(at))
        elif op in ("del", "pop"):
            try:
                if op == "pop":
                    v = c.pop(k)
                    S.check(at >= 0, "only present keys are found")
                    if at >= 0:
                        S.check(v is model[at][1], "value last stored")
                else:
                    del c[k]
                S.cover("deleted")
                S.check(at >= 0, "only present keys can be deleted")
                if at >= 0:
                    gone.append(model.pop(at)[1])
            except KeyError:
                S.check(at < 0, "present keys can be deleted")
        elif op == "setdefault":
            v = Value(i)
            r = c.setdefault(k, v)
            if at >= 0:
                S.check(r is model[at][1], "value last stored")
                model.append(model.pop(at))
            else:
                S.check(r is v, "default is stored")
                model.append([k, v])
                if len(model) > cap:
                    gone.append(model.pop(0)[1])
        else:
            c.clear()
            gone += [m[1] for m in model]
            del model[:]
        S.check(len(c) == len(model), "number of keys")
        S.check(len(c) <= cap, "at most maxsize keys")
        S.check(len(disposed) == len(gone), "each value that left is disposed once")
        for v in gone:
            S.check(len([d for d in disposed if d is v]) == 1, "each value that left is disposed once")
        for m in model:
            S.check(len([d for d in disposed if d is m[1]]) == 0, "no stored value is disposed")
    ks = c.keys()
    S.check(len(ks) == len(model), "keys")
    for m in model:
        S.check(m[0] in ks, "keys")
    S.observe("disposed", [number(v) for v in disposed])
    S.observe("left", [number(m[1]) for m in model])


@scenario("C29", variants=[{"n": 5}], covers=["ok"])
def lru_without_dispose(S, n):
    from mysockpool.recently_used_container import RecentlyUsedContainer
    cap = S.int("maxsize", 1, 3)
    c = RecentlyUsedContainer(cap)
    model = []
    for i in range(n):
        k = S.int("key%d" % i)
        found = [m for m in model if m[0] == k]
        if S.flag("get%d" % i):
            v = c.get(k)
            S.check((v is None) == (not found), "presence")
            if found:
                S.check(v is found[0][1], "value")
                model.remove(found[0])
                model.append(found[0])
        else:
            v = Value(i)
            c[k] = v
            if found:
                model.remove(found[0])
            model.append([k, v])
            if len(model) > cap:
                model.pop(0)
        S.check(len(c) == len(model), "number of keys")
    S.cover("ok")


# ------------------------------------------------------------------------------------------------------------- C30

@scenario("C30", variants=[{"n": 4}], thorough=[{"n": 6}], covers=["same", "evicted", "cleared"], quick_s=200, thorough_s=1800)
def manager(S, n):
    """Histories of lookups and clears over keys with arbitrary ports."""
    peer = PoolPeer()
    net.install_sockets(S, peer)
    from mysockpool import PoolManager
    from mysockpool.exceptions import ClosedPoolError
    cap = S.int("max_pools", 1, 3)
    man = PoolManager(cap, initial_connections=S.choice("initial", 2))
    Key = PoolManager.PoolCls.ConnectionCls.PoolKeyCls
    model = []
    closed = []

    def is_open(pool):
        try:
            pool.put_conn(pool.get_conn())
            return True
        except ClosedPoolError:
            return False
    for i in range(n):
        if S.choice("op%d" % i, ["ask", "clear"] if i else ["ask"]) == "ask":
            port = S.int("port%d" % i, 1, 65535)
            host = S.choice("host%d" % i, ["a", "b"]) if i < 2 else "a"
            key = Key(host, port)
            found = [m for m in model if m[0] == host and m[1] == port]
            pool = man.connection_pool_from_pool_key(key)
            S.check(pool.pool_key.host == host and pool.pool_key.port == port, "pool of the key asked for")
            if found:
                S.check(pool is found[0][2], "same pool again")
                S.cover("same")
                model.remove(found[0])
                model.append(found[0])
            else:
                for m in model:
                    S.check(pool is not m[2], "another key has another pool")
                for p in closed:
                    S.check(pool is not p, "a new pool")
                model.append((host, port, pool))
                if len(model) > cap:
                    closed.append(model.pop(0)[2])
                    S.cover("evicted")
        else:
            man.clear()
            closed += [m[2] for m in model]
            model = []
            S.cover("cleared")
        for m in model:
            S.check(is_open(m[2]), "known pools are open")
        for p in closed:
            S.check(not is_open(p), "evicted and cleared pools are closed")
    mine = sum(m[2].num_connections for m in model)
    S.check(len(live()) == mine, "no connection of a closed pool stays open")
    if S.flag("leave"):
        with man as m:
            S.check(m is man, "context manager")
        for m in model:
            S.check(not is_open(m[2]), "closed on exit")


@scenario("C30", variants=[{"n": 2}], thorough=[{"n": 3}], covers=["normal", "raised", "failed"])
def scope(S, n):
    peer = PoolPeer()
    net.install_sockets(S, peer)
    from mysockpool import PoolManager
    from mysockpool.exceptions import EmptyPoolError
    man = PoolManager(2, max_connections=S.int("max", 0, 2), initial_connections=0, min_free_connections=0,
                      max_free_connections=S.int("max_free", 1, 2))
    Key = PoolManager.PoolCls.ConnectionCls.PoolKeyCls
    key = Key("h", S.int("port", 1, 65535))
    pool = man.connection_pool_from_pool_key(key)
    puts = []
    real_put = pool.put_conn

    def put(conn):
        puts.append(conn)
        real_put(conn)
    pool.put_conn = put

    class Boom(Exception):
        pass
    for i in range(n):
        boom = {"Boom": Boom("x"), "NameError": NameError("y"), "AttributeError": AttributeError("z"), "no": None,
                "BaseException": KeyboardInterrupt()}[S.choice("raise%d" % i, ["no", "Boom", "NameError", "AttributeError",
                                                                              "BaseException"])]
        peer.fail_next = S.flag("fail%d" % i)
        drop = S.choice("drop%d" % i, ["no", "before", "inside"])
        if drop == "before":
            peer.dropped = live()
        del puts[:]
        got = None
        seen = None
        before = pool.num_connections
        try:
            with man.connection_scope(key) as conn:
                got = conn
                peer.fail_next = False
                S.check(len(puts) == 0, "not returned while in use")
                S.check(not conn.sock.closed, "usable in the body")
                if drop == "inside":
                    peer.dropped = live()
                if boom is not None:
                    raise boom
        except BaseException as e:
            if type(e).__name__ not in ("Boom", "NameError", "AttributeError", "KeyboardInterrupt", "OSError", "EmptyPoolError"):
                raise
            seen = e
        if got is None:
            S.cover("failed")
            S.check(seen is not None, "a failed checkout is reported")
            S.check(seen is None or isinstance(seen, (EmptyPoolError, OSError)), "the checkout's own error is reported")
            S.check(len(puts) == 0, "nothing is returned when nothing was checked out")
        else:
            S.check(seen is boom, "the body's exception reaches the caller unchanged")
            S.check(len(puts) == 1 and puts[0] is got, "returned exactly once")
            S.cover("raised" if boom is not None else "normal")
        peer.fail_next = False
        S.check(pool.num_connections == len(live()), "every connection is accounted for")
        got = conn = None


# ------------------------------------------------------------------------------------------------------------- C31

class StreamPeer(PoolPeer):
    """Delivers a byte stream in pieces of any size."""

    def __init__(self, S, data, eof, pieces):
        PoolPeer.__init__(self)
        self.S, self.data, self.eof, self.pieces = S, data, eof, pieces
        self.given = b""
        self.waits = 0
        self.silences = 2

    def left(self):
        return len(self.data) - len(self.given)

    def readable(self, sock):
        return self.left() > 0 or self.eof

    def select(self, sel, timeout):
        r = self.ready(sel)
        if timeout is not None and self.silences > 0:
            # nothing may arrive for that long
            self.silences -= 1
            if self.S.flag("silence"):
                return []
        if not r and timeout is None:
            self.waits += 1
            self.S.fail("waits forever")
            self.S.stop()
        return r

    def recv(self, sock, n):
        S = self.S
        left = self.left()
        if left == 0:
            if self.eof:
                return b""
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if n == 0:
            return b""
        take = n if n < left else left
        if self.pieces > 0:
            self.pieces -= 1
            k = S.int("piece", 1)
            S.assume(k <= take)
            take = k
        p = len(self.given)
        b = self.data[p:p + take]
        self.given = self.given + b
        return b


@scenario("C31", variants=[{"pieces": 3, "most": 1 << 32}, {"pieces": 3, "most": 4096}], thorough=[{"pieces": 5, "most": 1 << 32}],
          covers=["complete", "cut"], hang=True, steps=5000)
def recvexactly(S, pieces, most):
    data = S.blob("data", 0, 1 << 32)
    peer = StreamPeer(S, data, True, pieces)
    net.install_sockets(S, peer)
    from mysockpool.connection import SocketConnection
    conn = SocketConnection(SocketConnection.PoolKeyCls("h", 1))
    n = S.int("n", 0, most)
    try:
        got = conn.recvexactly(n)
    except Exception as e:
        got = None
    if n <= len(data):
        S.check(got is not None, "complete data is returned")
        S.cover("complete")
        if got is not None:
            S.check(isinstance(got, bytes), "bytes")
            S.check(len(got) == n, "number of bytes")
            S.check(got == data[:n], "the next bytes of the stream")
            S.check(len(peer.given) == n, "nothing consumed beyond them")
            m = S.int("m", 0, most)
            try:
                more = conn.recvexactly(m)
            except Exception:
                more = None
            if n + m <= len(data):
                S.check(more is not None and more == data[n:n + m], "the bytes after them")
                S.check(len(peer.given) == n + m, "nothing consumed beyond them")
            else:
                S.check(more is None, "end of stream is an error")
    else:
        S.cover("cut")
        S.check(got is None, "end of stream is an error")
    S.observe("given", len(peer.given))
