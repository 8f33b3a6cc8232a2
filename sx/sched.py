"""Threads whose interleaving the scenario decides. Real threads run one at a time; a thread may be switched away from where it
acquires or releases a lock, reads or writes an attribute of an object shared with others, or uses a socket. Whether it is, and
to whom, are symbolic choices of the session. Locks are models that know who waits."""
import _thread
import ast
import concurrent.futures.thread  # holds real locks
import dis
import inspect
import queue
import sys
import threading


_raw = _thread.allocate_lock


class Abort(BaseException):
    """Unwinds the threads of a run that is over."""


SCHED = [None]


class Worker(object):
    def __init__(self, sched, number, fn):
        self.sched, self.number, self.fn = sched, number, fn
        self.go = _raw()
        self.go.acquire()
        self.done = False
        self.cond = None        # what it waits for
        self.limited = False    # whether its wait has a time limit
        self.expired = False
        self.ident = None

    def ready(self):
        return not self.done and (self.cond is None or self.cond())

    def body(self):
        s = self.sched
        self.go.acquire()
        self.ident = _thread.get_ident()
        try:
            if not s.aborted:
                self.fn()
        except Abort:
            pass
        except BaseException as e:
            if s.error is None:
                s.error = e
            s.aborted = True
        self.done = True
        s.leave(self)


class Sched(object):
    def __init__(self, S, switches):
        self.S = S
        self.switches = switches        # how often a running thread may be interrupted
        self.workers = []
        self.cur = None
        self.main = _raw()
        self.main.acquire()
        self.error = None
        self.aborted = False
        self.deadlock = False
        self.over = False
        self.points = 0
        self.locks = True       # whether it may be interrupted at locks
        self.turns = 0          # how often the running thread changed
        self.started = False

    def spawn(self, fn):
        w = Worker(self, len(self.workers), fn)
        self.workers.append(w)
        if self.started:
            self.start(w)
        return w

    def start(self, w):
        old = threading.stack_size(64 << 20)
        try:
            _thread.start_new_thread(w.body, ())
        finally:
            threading.stack_size(old)

    def run(self):
        """Runs all threads to their ends. False if they wait for each other for ever."""
        SCHED[0] = self
        self.started = True
        for w in self.workers:
            self.start(w)
        try:
            self.give(self.pick(self.workers))
            self.main.acquire()
        finally:
            self.stop()
            SCHED[0] = None
        if self.error is not None:
            raise self.error
        self.S.reraise()
        return not self.deadlock

    def stop(self):
        self.aborted = True
        for w in self.workers:
            while not w.done:
                self.cur = w
                w.go.release()
                self.main.acquire()
        self.over = True

    def pick(self, ws):
        return ws[self.S.choice("thread", len(ws))] if len(ws) > 1 else ws[0]

    def give(self, w):
        self.cur = w
        self.turns += 1
        w.go.release()

    def mine(self):
        """The worker that is running, if it is the caller."""
        w = self.cur
        return w if w is not None and w.ident == _thread.get_ident() and not self.over else None

    def point(self):
        """The running thread may be interrupted here."""
        w = self.mine()
        if w is None:
            return
        if self.aborted:
            raise Abort()
        self.points += 1
        if self.switches <= 0:
            return
        others = [o for o in self.workers if o is not w and o.ready()]
        if others and self.S.flag("switch"):
            self.switches -= 1
            self.pass_on(w, self.pick(others))

    def at_lock(self):
        if self.locks or self.aborted:
            self.point()

    def pass_on(self, w, o):
        self.give(o)
        w.go.acquire()
        if self.aborted:
            raise Abort()

    def wait(self, cond, limited=False):
        """Blocks the running thread until cond(); False if the time limit of the wait came first."""
        w = self.mine()
        if self.aborted:
            raise Abort()
        if cond():
            return True
        if w is None:
            raise RuntimeError("waits outside of a thread")
        w.cond, w.limited, w.expired = cond, limited, False
        try:
            self.next_after(w)
        finally:
            w.cond = None
        return not w.expired

    def next_after(self, w):
        others = [o for o in self.workers if o.ready()]
        if not others:
            late = [o for o in self.workers if not o.done and o.limited and o.cond is not None]
            if not late:
                self.deadlock = True
                self.aborted = True
                raise Abort()
            o = self.pick(late)
            o.expired = True
            o.cond = None
        else:
            o = self.pick(others)
        if o is not w:
            self.pass_on(w, o)

    def leave(self, w):
        """The thread has ended."""
        left = [o for o in self.workers if not o.done]
        try:
            if not left or self.aborted:
                self.main.release()
                return
            ready = [o for o in left if o.ready()]
            if not ready:
                late = [o for o in left if o.limited]
                if not late:
                    self.deadlock = True
                    self.aborted = True
                    self.main.release()
                    return
                ready = [self.pick(late)]
                ready[0].expired = True
                ready[0].cond = None
            self.give(self.pick(ready))
        except BaseException as e:
            if self.error is None:
                self.error = e
            self.aborted = True
            self.main.release()


def point():
    s = SCHED[0]
    if s is not None:
        s.point()


class Lock(object):
    """threading.Lock"""

    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED[0]
        if s is None or s.mine() is None:
            if self.held:
                if blocking and s is None:
                    raise RuntimeError("a lock is never released")
                return False
            self.held = True
            return True
        s.at_lock()
        if self.held:
            if not blocking or timeout == 0:
                return False
            if not s.wait(lambda: not self.held, timeout is not None and timeout > 0):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        if sys.exc_info()[0] is not Abort and SCHED[0] is not None:
            SCHED[0].at_lock()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(object):
    """threading.RLock"""

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = SCHED[0]
        if s is not None and s.mine() is not None:
            s.at_lock()
        if self.owner == me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking or timeout == 0 or s is None or s.mine() is None:
                return False
            if not s.wait(lambda: self.owner is None, timeout is not None and timeout > 0):
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if sys.exc_info()[0] is not Abort and SCHED[0] is not None:
                SCHED[0].at_lock()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        state = (self.count, self.owner)
        self.count, self.owner = 0, None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count, self.owner = state


class Thread(object):
    """threading.Thread; runs with the threads of SPAWN[0]."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
        self.name = name or "thread"
        self.worker = None

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def start(self):
        if self.worker is not None:
            raise RuntimeError("threads can only be started once")
        self.worker = SPAWN[0].spawn(self.run)
        point()

    def is_alive(self):
        return self.worker is not None and not self.worker.done

    def join(self, timeout=None):
        SCHED[0].wait(lambda: self.worker.done, timeout is not None)


SPAWN = [None]


def install_threads(S, switches):
    """Also has threads that the code under test starts take part in the run that is returned."""
    from harness import stubs
    install(S)
    SPAWN[0] = Sched(S, switches)
    stubs.patch(threading, "Thread", Thread)
    return SPAWN[0]


def install(S):
    """Before the packages under test are imported."""
    from harness import stubs
    SCHED[0] = None
    stubs.patch(threading, "Lock", Lock)
    stubs.patch(threading, "RLock", RLock)
    stubs.patch(threading, "_allocate_lock", Lock)
    stubs.patch(threading, "_RLock", RLock)
    stubs.patch(queue, "time", lambda: 0.0)
    if getattr(queue, "SimpleQueue", None) is not None and hasattr(queue, "_PySimpleQueue"):
        stubs.patch(queue, "SimpleQueue", queue._PySimpleQueue)


# ------------------------------------------------------------------------------------------------- points in the code

SHARED = {}
OPS = ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_GLOBAL", "STORE_GLOBAL", "LOAD_DEREF", "STORE_DEREF", "LOAD_NAME", "STORE_NAME")


def assigned(path):
    """The attributes, globals and variables of enclosing functions that the functions of a source file assign."""
    hit = SHARED.get(path)
    if hit is None:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        hit = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                hit.add(n.attr)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                hit.update(n.names)
        for n in ast.walk(tree):
            # acquiring a lock is a point anyway
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Attribute) and \
                    (getattr(n.value.func, "attr", None) or getattr(n.value.func, "id", "")) in ("Lock", "RLock", "Condition"):
                hit.discard(n.targets[0].attr)
        SHARED[path] = hit
    return hit


TOOL = 3
POINTS = {}     # code -> offsets
LINES = {}      # code -> lines


def _at(code, offset):
    if offset not in POINTS.get(code, ()):
        return sys.monitoring.DISABLE
    point()


def _line(code, line):
    if line not in LINES.get(code, ()):
        return sys.monitoring.DISABLE
    point()


def statements(path):
    """The lines on which statements of functions begin."""
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    return frozenset(n.lineno for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))
                     for s in f.body for n in ast.walk(s) if isinstance(n, ast.stmt) and not isinstance(n, (ast.Pass, ast.Try)))


def _codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_consts"):
            yield from _codes(c)


def watch(*modules, lines=False):
    """Threads may be interrupted in the functions of these modules where they read or write what functions assign, and
    optionally before each statement."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "sx")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _at)
        mon.register_callback(TOOL, mon.events.LINE, _line)
    paths = [m.__spec__.origin for m in modules]
    names = set()
    for p in paths:
        names |= assigned(p)
    for m, p in zip(modules, paths):
        for code in _codes(m.__loader__.cache[p]):
            if code not in POINTS:
                POINTS[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in OPS and i.argval in names)
                LINES[code] = statements(p) if lines and code.co_flags & inspect.CO_NEWLOCALS else ()
                if POINTS[code] or LINES[code]:
                    mon.set_local_events(TOOL, code, (mon.events.INSTRUCTION if POINTS[code] else 0) |
                                         (mon.events.LINE if LINES[code] else 0))
