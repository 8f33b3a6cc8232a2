"""A virtual asyncio: an event loop on virtual time whose I/O events, timers, executor jobs, dial results and user threads
arrive in an order the scenario leaves open. The streams, tasks, futures and locks on top of it are CPython's own."""
import asyncio
import concurrent.futures
import concurrent.futures.thread
import errno
import threading

from harness import stubs
from harness.stubs import plain
from sx import cleanup

EPS = 1 / 4096
REAL_RESULT = concurrent.futures.Future.result
READER = asyncio.StreamReader
REAL_THREAD = threading.Thread
LIMIT = 1 << 16


class Hub(object):
    """What happens outside the code under test, and the order in which it happens."""

    def __init__(self, S):
        self.S = S
        self.loops = []
        self.sources = []       # things that can happen; each has ready() and fire()
        self.early = 0          # how many events may happen while the loop still has work queued
        self.clocked = False    # whether time passes only as timers need it
        self.threads = []       # threads the code under test started
        self.servers = []
        self.jobs = []
        self.dials = []
        self.on_dial = None     # function(dial) -> Conn, an exception, or None to leave it open
        self.transports = []
        self.lazy = 0           # how many jobs may start later than submitted, with a worker free
        self.full = 0           # how many writes may fill the peer's window
        self.users = []
        self.horizon = None     # what happens later than this is of no interest
        self.current = None
        self.max_events = 200
        self.order = None       # long runs: of several things that can happen the "oldest" or the "newest" does, before any timer, and takes no time

    def add(self, source):
        self.sources.append(source)
        return source

    def run(self, loop):
        """Run a loop that the code under test set up until nothing is left to happen."""
        asyncio.set_event_loop(loop)
        loop.run_forever()


class Loop(asyncio.BaseEventLoop):
    def __init__(self, hub):
        super().__init__()
        self.hub = hub
        self.now = hub.S.real("start", 0, 1000) if hub.clocked else 0
        self.timers = []
        self.unnoticed = []     # callbacks added by other threads without waking the loop
        self.errors = []
        self.over = False       # the scenario has ended
        hub.loops.append(self)

    # ---- clock and timers
    def time(self):
        return self.now

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        t = asyncio.TimerHandle(when, callback, args, self, context)
        t._scheduled = True
        self.timers.append(t)
        return t

    def call_soon(self, callback, *args, context=None):
        if self.over:
            return asyncio.Handle(callback, args, self, context)
        if self.hub.current is not None:
            # from another thread: the loop is not woken and runs it when it next wakes up
            h = asyncio.Handle(callback, args, self, context)
            self.unnoticed.append(h)
            return h
        return super().call_soon(callback, *args, context=context)

    def notice(self):
        self._ready.extend(self.unnoticed)
        del self.unnoticed[:]

    def _timer_handle_cancelled(self, handle):
        pass

    def _write_to_self(self):
        self.notice()

    def _process_events(self, events):
        pass

    def call_exception_handler(self, context):
        self.errors.append(context)

    # ---- one turn
    def _run_once(self):
        S, hub = self.hub.S, self.hub
        S.reraise()
        self.timers = [t for t in self.timers if not t._cancelled]
        sources = [s for s in hub.sources if s.ready()]
        if len(self._ready) == 0:
            if not self.step(sources):
                self._stopping = True
                return
        elif hub.early > 0 and sources and S.flag("early"):
            hub.early -= 1
            self.event(sources)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
            h = None
            S.reraise()

    def event(self, sources):
        S = self.hub.S
        self.hub.max_events -= 1
        if self.hub.max_events < 0:
            S.fail("events without end")
            S.stop()
        s = self.pick(sources) if self.hub.order else S.choice("event", sources)
        self.pass_time()
        if not isinstance(s, User):
            self.notice()
        s.fire()
        S.reraise()

    def pick(self, sources):
        return sources[0 if self.hub.order == "oldest" else -1]

    def pass_time(self):
        S = self.hub.S
        if self.timers and not self.hub.order:
            dt = S.real("dt", 0)
            self.now = self.now + dt
            for t in self.timers:
                S.assume(self.now + EPS <= t._when)

    def step(self, sources):
        """Nothing queued: something arrives, or the next timer fires."""
        S = self.hub.S
        if not self.timers:
            if not sources:
                return False
            self.event(sources)
            return True
        timers = self.timers
        if self.hub.horizon is not None:
            timers = [t for t in timers if t._when <= self.hub.horizon]
            if not timers and not sources:
                return False
        if sources and self.hub.order:
            self.event(sources)
            return True
        if self.hub.order:
            t = timers[0]
            for o in timers[1:]:
                if o._when < t._when:
                    t = o
        else:
            k = S.choice("next", len(sources) + len(timers))
            if k < len(sources):
                s = sources[k]
                self.event([s])
                return True
            t = timers[k - len(sources)]
            for o in self.timers:
                if o is not t:
                    S.assume(t._when <= o._when)
        self.timers.remove(t)
        if self.now < t._when:
            self.now = t._when
        t._scheduled = False
        self.notice()
        self._ready.append(t)
        return True

    # ---- sockets
    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        s = Server(self, protocol_factory, host, port)
        self.hub.servers.append(s)
        return s

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        d = Dial(self, host, port)
        self.hub.dials.append(d)
        self.hub.add(d)
        conn = await d.future
        protocol = protocol_factory()
        t = Transport(self, protocol, conn)
        protocol.connection_made(t)
        return t, protocol


class Server(object):
    def __init__(self, loop, factory, host, port):
        self.loop, self.factory, self.host, self.port = loop, factory, host, port
        self.closed = False
        self.sockets = []

    def accept(self, conn):
        protocol = self.factory()
        t = Transport(self.loop, protocol, conn)
        protocol.connection_made(t)
        return t

    def close(self):
        self.closed = True

    def is_serving(self):
        return not self.closed

    async def wait_closed(self):
        pass

    async def start_serving(self):
        pass

    async def serve_forever(self):
        pass


class Dial(object):
    """An attempt to connect, under way."""

    def __init__(self, loop, host, port):
        self.host, self.port = host, port
        self.future = loop.create_future()
        self.loop = loop
        self.at = loop.now
        self.stuck = False      # never answered
        self.answered = None    # when

    def ready(self):
        return not self.future.done() and not self.stuck

    def fire(self):
        out = self.loop.hub.on_dial(self)
        self.answered = self.loop.now
        if out is None:
            self.stuck = True
        elif isinstance(out, BaseException):
            self.future.set_exception(out)
        else:
            self.future.set_result(out)


class Transport(asyncio.Transport):
    """The local end of a connection."""

    def __init__(self, loop, protocol, conn):
        super().__init__()
        self._loop, self.protocol, self.conn = loop, protocol, conn
        self.hub = loop.hub
        self.sent = b""
        self.writes = []
        self.closing = False
        self.lost = False       # nothing written after this gets out
        self.over = False       # connection_lost was delivered
        self.ended = False      # write_eof
        self.blocked = False
        self.attempts = 0       # writes asked for, delivered or not
        self.hub.transports.append(self)
        conn.opened(self)

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("192.0.2.1", 4000 + len(self.hub.transports))
        return default

    def is_closing(self):
        return self.closing

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, p):
        self.protocol = p

    def is_reading(self):
        return not self.closing

    def pause_reading(self):
        raise NotImplementedError

    def resume_reading(self):
        pass

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def can_write_eof(self):
        return True

    def write(self, data):
        if not is_bytes(data):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if self.ended:
            raise RuntimeError("Cannot call write() after write_eof()")
        self.attempts += 1
        data = plain(data)
        if len(data) == 0:
            return
        if self.lost:
            return
        self.sent = self.sent + data
        self.writes.append(data)
        self.conn.wrote(self, data)
        S = self.hub.S
        if self.hub.full > 0 and not self.blocked and S.flag("full"):
            self.hub.full -= 1
            self.blocked = True
            self.hub.add(Drained(self))
            self.protocol.pause_writing()

    def writelines(self, parts):
        self.write(b"".join(parts))

    def write_eof(self):
        self.ended = True

    def close(self):
        if self.closing:
            return
        self.closing = True
        if not self.blocked:
            self.lost = True
            self._loop.call_soon(self._connection_lost, None)

    def abort(self):
        self.fail(None)

    def fail(self, exc):
        """The connection breaks."""
        if self.lost:
            return
        self.closing = True
        self.lost = True
        self.blocked = False
        self._loop.call_soon(self._connection_lost, exc)

    def _connection_lost(self, exc):
        self.over = True
        self.protocol.connection_lost(exc)
        self.conn.closed(self)

    # ---- what arrives
    def feed(self, data):
        if not self.closing:
            self.protocol.data_received(data)

    def eof(self):
        if not self.closing:
            keep = self.protocol.eof_received()
            if not keep:
                self.close()


class Drained(object):
    """The peer reads again."""

    def __init__(self, t):
        self.t = t

    def ready(self):
        return self.t.blocked

    def fire(self):
        self.t.blocked = False
        self.t.protocol.resume_writing()
        if self.t.closing and not self.t.lost:
            self.t.lost = True
            self.t._loop.call_soon(self.t._connection_lost, None)


class Conn(object):
    """The far end of a connection: what it sends, in order, is an event source. Items are bytes, "eof", "lost" or "stay"."""

    def __init__(self, hub, items=(), pieces=0, name="piece"):
        self.hub = hub
        self.items = list(items)
        self.pieces = pieces
        self.name = name
        self.t = None
        self.on_write = None
        self.when = None        # extra condition for the next item
        self.arrived = []       # (bytes, time) of what was delivered
        hub.add(self)

    def opened(self, t):
        self.t = t

    def wrote(self, t, data):
        if self.on_write is not None:
            self.on_write(data)

    def closed(self, t):
        pass

    def ready(self):
        return self.t is not None and len(self.items) > 0 and not self.t.lost and not self.t.closing \
            and (self.when is None or self.when(self))

    def push(self, item):
        self.items.append(item)

    def fire(self):
        S = self.hub.S
        it = self.items[0]
        if isinstance(it, str):
            self.items.pop(0)
            if it == "eof":
                self.t.eof()
            elif it == "lost":
                self.t.fail(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
            return
        n = len(it)
        if n == 0:
            self.items.pop(0)
            return
        if self.pieces > 0:
            self.pieces -= 1
            k = S.int(self.name, 1)
            S.assume(k <= n)
            if k < n:
                self.items[0] = it[k:]
                self.deliver(it[:k])
                return
        self.items.pop(0)
        self.deliver(it)

    def deliver(self, data):
        self.arrived.append((len(data), self.t._loop.now))
        self.t.feed(data)


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, memoryview))


class RopeReader(READER):
    """StreamReader on symbolic contents."""

    def __init__(self, limit=LIMIT, loop=None):
        super().__init__(limit=limit, loop=loop)
        self._buffer = b""

    def feed_data(self, data):
        assert not self._eof, "feed_data after feed_eof"
        if len(data) == 0:
            return
        self._buffer = self._buffer + data
        self._wakeup_waiter()

    def at_eof(self):
        return self._eof and len(self._buffer) == 0

    def _maybe_resume_transport(self):
        pass

    async def readexactly(self, n):
        if n < 0:
            raise ValueError("readexactly size can not be less than zero")
        if self._exception is not None:
            raise self._exception
        while len(self._buffer) < n:
            if self._eof:
                part = self._buffer
                self._buffer = b""
                raise Incomplete(part, n)
            await self._wait_for_data("readexactly")
        data = self._buffer[:n]
        self._buffer = self._buffer[n:]
        return data

    async def read(self, n=-1):
        if self._exception is not None:
            raise self._exception
        if n == 0:
            return b""
        if n < 0:
            out = b""
            while True:
                b = await self.read(self._limit)
                if len(b) == 0:
                    return out
                out = out + b
        if len(self._buffer) == 0 and not self._eof:
            await self._wait_for_data("read")
        data = self._buffer[:n]
        self._buffer = self._buffer[n:]
        return data

    async def readuntil(self, separator=b"\n"):
        raise NotImplementedError

    async def readline(self):
        raise NotImplementedError


class Incomplete(asyncio.IncompleteReadError):
    def __init__(self, partial, expected):
        EOFError.__init__(self, "bytes read on a total of expected bytes")
        self.partial, self.expected = partial, expected


# ------------------------------------------------------------------------------------------------- executor

class Never(object):
    """A job that does not finish while the scenario lasts."""


NEVER = Never()


class Job(object):
    """A submitted call. It runs when a worker is free, or (Hub.lazy) when that worker gets round to it; its completion is an
    event of its own."""

    def __init__(self, ex, fn, args, kwargs):
        self.ex, self.fn, self.args, self.kwargs = ex, fn, args, kwargs
        self.future = concurrent.futures.Future()
        self.started = self.finished = self.taken = False
        self.outcome = None
        self.time = 0

    def start(self):
        S = self.ex.hub.S
        self.started = True
        if not self.future.set_running_or_notify_cancel():
            self.finished = True
            return
        try:
            self.outcome = ("result", self.fn(*self.args, **self.kwargs))
        except BaseException as e:
            S.reraise()
            self.outcome = ("exception", e)
        S.reraise()

    def ready(self):
        if self.taken and not self.started:
            return True
        return self.started and not self.finished and not (self.outcome[0] == "result" and self.outcome[1] is NEVER)

    def fire(self):
        if not self.started:
            self.start()
            return
        self.finished = True
        self.time = self.ex.hub.loops[-1].now
        if self.outcome[0] == "result":
            self.future.set_result(self.outcome[1])
        else:
            self.future.set_exception(self.outcome[1])
        self.ex.pump()


class Executor(concurrent.futures.Executor):
    hub = None

    def __init__(self, max_workers=None, *a, **kw):
        self.max_workers = max_workers or 32
        self.queue = []
        self.hub = Executor.hub

    def submit(self, fn, /, *args, **kwargs):
        j = Job(self, fn, args, kwargs)
        self.hub.jobs.append(j)
        self.hub.add(j)
        self.queue.append(j)
        self.pump()
        return j.future

    def pump(self):
        for j in list(self.queue):
            busy = [x for x in self.hub.jobs if x.ex is self and x.taken and not x.finished]
            if len(busy) >= self.max_workers:
                return
            self.queue.remove(j)
            j.taken = True
            if self.hub.lazy > 0 and self.hub.S.flag("late start"):
                self.hub.lazy -= 1
            else:
                j.start()

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass


# ------------------------------------------------------------------------------------------------- threads

class Thread(object):
    """A thread the code under test wants: recorded, run by the scenario."""
    hub = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon, self.name = daemon, name or "thread"
        self.started = False
        self.ident = 1

    def start(self):
        self.started = True
        Thread.hub.threads.append(self)

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def is_alive(self):
        return self.started

    def join(self, timeout=None):
        pass

    def setDaemon(self, d):
        self.daemon = d


class Abandon(BaseException):
    pass


class User(object):
    """A caller's thread: an OS thread that runs only while the loop waits for it, from one blocking point to the next.
    Starting it and letting it go on after it blocked are events."""

    def __init__(self, hub, fn, after=None):
        self.hub, self.fn, self.after = hub, fn, after
        self.mine, self.theirs = threading.Semaphore(0), threading.Semaphore(0)
        self.started = self.done = self.dead = False
        self.value = self.error = None
        self.future = None          # what it waits for
        self.timer = None
        self.timed_out = False
        self.blocked = False        # it had to wait at some point
        self.thread = None
        hub.users.append(self)
        hub.add(self)

    # ---- as a source
    def ready(self):
        if self.done:
            return False
        if not self.started:
            return self.after is None or self.after()
        return self.future is not None and self.future.done()

    def fire(self):
        self.resume()

    # ---- switching
    def resume(self):
        before, self.hub.current = self.hub.current, self
        if not self.started:
            self.started = True
            self.thread = REAL_THREAD(target=self._body, daemon=True)
            self.thread.start()
        else:
            self.mine.release()
        self.theirs.acquire()
        self.hub.current = before
        self.hub.S.reraise()

    def _body(self):
        try:
            self.value = self.fn()
        except Abandon:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.future = None
        self.theirs.release()

    def wait(self, fut, timeout):
        """In the user's thread: block until the future is done or the time is up."""
        loop = self.hub.loops[-1]
        self.future = fut
        self.blocked = True
        self.timed_out = False
        if timeout is not None:
            self.timer = loop.call_at(loop.now + timeout, self._late)
        self.theirs.release()
        self.mine.acquire()
        if self.dead:
            raise Abandon()
        if self.timer is not None:
            self.timer.cancel()
            self.timer = None
        self.future = None
        if self.timed_out:
            raise concurrent.futures.TimeoutError()
        return REAL_RESULT(fut)

    def _late(self):
        self.timer = None
        if not self.future.done() and not self.done:
            self.timed_out = True
            self.resume()


def install(S):
    """Before the packages under test are imported."""
    hub = Hub(S)
    Executor.hub = hub
    Thread.hub = hub

    def new_loop():
        return Loop(hub)

    def result(fut, timeout=None):
        if fut.done():
            return REAL_RESULT(fut)
        u = hub.current
        if u is None:
            S.fail("the event loop thread blocks on a future")
            S.stop()
        return u.wait(fut, timeout)
    stubs.patch(asyncio, "new_event_loop", new_loop)
    stubs.patch(asyncio.events, "new_event_loop", new_loop)
    stubs.patch(concurrent.futures, "ThreadPoolExecutor", Executor)
    stubs.patch(concurrent.futures.thread, "ThreadPoolExecutor", Executor)
    stubs.patch(concurrent.futures.Future, "result", result)
    stubs.patch(threading, "Thread", Thread)
    if S.symbolic:
        stubs.patch(asyncio, "StreamReader", RopeReader)
        stubs.patch(asyncio.streams, "StreamReader", RopeReader)
    S.defer(lambda: cleanup.finish(S, hub))
    return hub
