"""Stand-ins for sockets and selectors. A socket talks to ENV.peer, which a scenario provides."""
import errno
import selectors
import socket

from harness import stubs
from harness.stubs import ENV, plain


class FakeSocket(object):
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        peer = ENV.peer
        peer.creating()
        self.closed = False
        self.dead = False
        self.blocking = True
        self.number = 100 + len(ENV.sockets)
        ENV.sockets.append(self)
        self.address = None
        self.timeout = None

    def setblocking(self, flag):
        self.blocking = flag

    def settimeout(self, t):
        self.timeout = t
        self.blocking = t is None or t > 0

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def connect(self, address):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.address = address
        ENV.peer.connecting(self, address)

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno
        return 0

    def close(self):
        if not self.closed:
            self.closed = True
            ENV.peer.closing(self)

    def shutdown(self, how):
        pass

    def detach(self):
        self.closed = True
        return self.number

    def fileno(self):
        return -1 if self.closed or self.dead else self.number

    def _open(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def send(self, data, flags=0):
        self._open()
        return ENV.peer.send(self, plain(data))

    def sendall(self, data, flags=0):
        self._open()
        data = plain(data)
        if not self.blocking:
            # as CPython: a non-blocking sendall fails when the kernel does not take everything at once
            while len(data) > 0:
                n = ENV.peer.send(self, data)
                data = data[n:]
                if len(data) > 0 and not ENV.peer.writable(self):
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            return None
        while len(data) > 0:
            n = ENV.peer.send(self, data)
            data = data[n:]
        return None

    def recv(self, n, flags=0):
        self._open()
        return ENV.peer.recv(self, n)

    def recv_into(self, buf, nbytes=0, flags=0):
        self._open()
        n = nbytes or len(buf)
        b = ENV.peer.recv(self, n)
        buf[:len(b)] = b
        return len(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Key(object):
    """As selectors.SelectorKey: a tuple with names."""

    def __init__(self, fileobj, fd, events, data):
        self.fileobj, self.fd, self.events, self.data = fileobj, fd, events, data

    def __getitem__(self, i):
        return (self.fileobj, self.fd, self.events, self.data)[i]

    def __iter__(self):
        return iter((self.fileobj, self.fd, self.events, self.data))

    def __len__(self):
        return 4


def sock_of(fileobj):
    if isinstance(fileobj, FakeSocket):
        return fileobj
    fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
    for s in ENV.sockets:
        if s.number == fd and not s.closed:
            return s
    raise ValueError("Invalid file descriptor: {}".format(fd))


class FakeSelector(object):
    def __init__(self):
        self.keys = []

    def register(self, fileobj, events, data=None):
        if not events or events & ~(selectors.EVENT_READ | selectors.EVENT_WRITE):
            raise ValueError("Invalid events: {!r}".format(events))
        fd = fileobj if isinstance(fileobj, int) else int(fileobj.fileno())
        if not isinstance(fileobj, int):
            ENV.peer.watched(fileobj, events)
        if fd < 0:
            raise ValueError("Invalid file descriptor: {}".format(fd))
        for k in self.keys:
            if k.fd == fd:
                raise KeyError("{!r} (FD {}) is already registered".format(fileobj, fd))
        key = Key(fileobj, fd, events, data)
        self.keys.append(key)
        return key

    def unregister(self, fileobj):
        for k in self.keys:
            if k.fileobj is fileobj:
                self.keys.remove(k)
                return k
        raise KeyError("{!r} is not registered".format(fileobj))

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return dict((k.fileobj, k) for k in self.keys)

    def select(self, timeout=None):
        return ENV.peer.select(self, timeout)

    def close(self):
        self.keys = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Peer(object):
    """Default behaviour: connections succeed, everything is writable at once, nothing arrives."""

    def creating(self):
        pass

    def connecting(self, sock, address):
        pass

    def closing(self, sock):
        pass

    def watched(self, fileobj, events):
        pass

    def send(self, sock, data):
        return len(data)

    def writable(self, sock):
        return True

    def readable(self, sock):
        return False

    def recv(self, sock, n):
        raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")

    def ready(self, sel):
        out = []
        for k in list(sel.keys):
            s = sock_of(k.fd)
            ev = 0
            if k.events & selectors.EVENT_READ and self.readable(s):
                ev = ev | selectors.EVENT_READ
            if k.events & selectors.EVENT_WRITE and self.writable(s):
                ev = ev | selectors.EVENT_WRITE
            if ev:
                out.append((k, ev))
        return out

    def select(self, sel, timeout):
        return self.ready(sel)


def install_sockets(S, peer):
    """To be called before the packages under test are imported."""
    ENV.peer = peer
    ENV.sockets = []
    stubs.patch(socket, "socket", FakeSocket)
    stubs.patch(selectors, "DefaultSelector", FakeSelector)
